//! C05: call histories. The model is the pure function; any dependence on history shows as a
//! difference.
use native::{hash, instance, AnyInstance, Entry};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vcore::gen;
use vcore::model;
use vcore::run::{must, Check, Info, Verdict};
use vcore::F;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    /// hash_n with words picked from the pool
    Hash { rate: usize, picks: Vec<u8> },
    /// a call on a reused instance
    Use { slot: usize, entry: Entry, picks: Vec<u8> },
    /// a call on a reused instance whose input is its own exposed state, with the words of `mask` replaced
    Feed { slot: usize, entry: Entry, mask: u8, picks: Vec<u8> },
    /// replace an instance by a fresh one of this rate
    Fresh { slot: usize, rate: usize },
    /// read the state of an instance
    Read { slot: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pool: Vec<F>,
    rates: Vec<usize>,
    steps: Vec<(Call, u16)>,
    threads: Option<usize>,
}
/// A small pool in which many values are related, so that keys of any hidden cache collide.
fn pool() -> BoxedStrategy<Vec<F>> {
    (proptest::collection::vec(gen::fe(), 1..6), gen::rels(6), 0u32..4)
        .prop_map(|(v, rels, mode)| {
            let mut out = v.clone();
            out.extend(v.iter().map(|x| match mode {
                0 => x.add(&F::ONE),
                1 => x.neg(),
                // same low limbs, different high limb
                2 => x.add(&F::from_limbs([0, 0, 0, 1 << 40])),
                _ => {
                    // same Montgomery low limbs
                    let mut m = x.0;
                    m[3] ^= 1 << 20;
                    F::from_mont_limbs(m)
                }
            }));
            gen::apply_rels(&mut out, &rels);
            out
        })
        .boxed()
}
fn call() -> BoxedStrategy<Call> {
    let one = || prop_oneof![5 => 0u8..12, 1 => RECENT..=u8::MAX];
    let picks = move || proptest::collection::vec(one(), 8);
    prop_oneof![
        4 => (1usize..=7, picks()).prop_map(|(rate, picks)| Call::Hash { rate, picks }),
        5 => (0usize..4, prop_oneof![Just(Entry::Optimised), Just(Entry::Textbook)], picks()).prop_map(|(slot, entry, picks)| Call::Use { slot, entry, picks }),
        2 => (0usize..4, prop_oneof![Just(Entry::Optimised), Just(Entry::Textbook)], prop_oneof![Just(0u8), (0u32..8).prop_map(|k| 1 << k), (0u32..8).prop_map(|k| !(1 << k)), any::<u8>()], picks()).prop_map(|(slot, entry, mask, picks)| Call::Feed { slot, entry, mask, picks }),
        1 => (0usize..4, 1usize..=7).prop_map(|(slot, rate)| Call::Fresh { slot, rate }),
        2 => (0usize..4).prop_map(|slot| Call::Read { slot }),
    ]
    .boxed()
}
fn history(max: usize, threads: bool) -> BoxedStrategy<History> {
    let reps = prop_oneof![6 => Just(1u16), 1 => 2u16..5];
    let th = if threads { (2usize..6).prop_map(Some).boxed() } else { Just(None).boxed() };
    (pool(), proptest::collection::vec(1usize..=7, 4), proptest::collection::vec((call(), reps), 1..max), th)
        .prop_map(|(pool, rates, steps, threads)| History { pool, rates, steps, threads })
        .boxed()
}
/// Picks from here on mean earlier results, the last being the most recent, as in hash chains and trees.
const RECENT: u8 = 252;
fn pick(pool: &[F], outs: &[F], picks: &[u8], n: usize) -> Vec<F> {
    (0..n)
        .map(|i| match outs.len().checked_sub(256 - picks[i] as usize) {
            Some(k) if picks[i] >= RECENT => outs[k],
            _ => pool[picks[i] as usize % pool.len()],
        })
        .collect()
}
struct Slot {
    rate: usize,
    inst: Box<dyn AnyInstance>,
    /// None until the first call
    state: Option<Vec<F>>,
}
type Memo = HashMap<Vec<F>, Vec<F>>;
fn want(memo: &mut Memo, w: &[F]) -> Vec<F> {
    if let Some(x) = memo.get(w) {
        return x.clone();
    }
    let r = model::permute(w.len() - 1, w);
    memo.insert(w.to_vec(), r.clone());
    r
}
fn run_steps(h: &History, memo: &mut Memo) -> Result<usize, String> {
    let fresh = |rate: usize| -> Result<Slot, String> { Ok(Slot { rate, inst: must("new instance", || instance(rate))?, state: None }) };
    let mut slots = vec![];
    for r in &h.rates {
        slots.push(fresh(*r)?);
    }
    let mut calls = 0;
    let mut outs: Vec<F> = vec![];
    for (n, (c, reps)) in h.steps.iter().enumerate() {
        for rep in 0..*reps {
            let at = |m: String| format!("step {n} (repetition {rep}) {c:?}: {m}");
            match c {
                Call::Hash { rate, picks } => {
                    let w = pick(&h.pool, &outs, picks, rate + 1);
                    let e = want(memo, &w)[1];
                    outs.push(e);
                    let g = must("hash", || hash(&w[0], &w[1..])).map_err(at)?;
                    calls += 1;
                    if g != e {
                        return Err(at(format!("returned {g:?} instead of {e:?}")));
                    }
                }
                Call::Use { slot, entry, picks } | Call::Feed { slot, entry, picks, .. } => {
                    let s = &mut slots[*slot];
                    let mut w = pick(&h.pool, &outs, picks, s.rate + 1);
                    if let (Call::Feed { mask, .. }, Some(st)) = (c, &s.state) {
                        for (i, x) in st.iter().enumerate() {
                            if mask >> i & 1 == 0 {
                                w[i] = *x;
                            }
                        }
                    }
                    let e = want(memo, &w);
                    outs.push(e[1]);
                    let g = must("permutation", || s.inst.call(*entry, &w)).map_err(at)?;
                    calls += 1;
                    s.state = Some(e.clone());
                    if g != e[1] {
                        return Err(at(format!("returned {g:?} instead of {:?}", e[1])));
                    }
                    let o = must("output_words", || s.inst.output()).map_err(at)?;
                    if o != e {
                        return Err(at(format!("state {o:?} instead of {e:?}")));
                    }
                }
                Call::Fresh { slot, rate } => slots[*slot] = fresh(*rate)?,
                Call::Read { slot } => {
                    let s = &slots[*slot];
                    let o = must("output_words", || s.inst.output()).map_err(at)?;
                    if let Some(e) = &s.state {
                        if o != *e {
                            return Err(at(format!("state {o:?} instead of {e:?}")));
                        }
                    }
                }
            }
        }
    }
    Ok(calls)
}
fn run_history(h: &History) -> Verdict {
    let mut memo = Memo::new();
    let Some(n) = h.threads else {
        let calls = run_steps(h, &mut memo)?;
        return Ok(Info::new(calls >= 2).class(if calls >= 20 { "20+ calls" } else if calls >= 2 { "2..19 calls" } else { "0..1 calls" }));
    };
    // The same history on n threads at once, each rotated differently.
    let barrier = std::sync::Barrier::new(n);
    let res: Vec<Result<usize, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let barrier = &barrier;
                sc.spawn(move || {
                    let mut h = h.clone();
                    let k = i % h.steps.len().max(1);
                    h.steps.rotate_left(k);
                    let mut memo = Memo::new();
                    barrier.wait();
                    run_steps(&h, &mut memo).map_err(|e| format!("thread {i} of {n}: {e}"))
                })
            })
            .collect();
        hs.into_iter().map(|x| x.join().expect("history thread")).collect()
    });
    let mut total = 0;
    for r in res {
        total += r?;
    }
    Ok(Info::new(total >= 4).class(format!("{n} threads")))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    rate: usize,
    mode: String,
    calls: usize,
    pool: Vec<F>,
}
fn run_long(l: &Long) -> Verdict {
    let t = l.rate + 1;
    let k = l.pool.len();
    let states: Vec<Vec<F>> = (0..k).map(|i| (0..t).map(|j| l.pool[(i + j * (i + 1)) % k]).collect()).collect();
    let wants: Vec<Vec<F>> = states.iter().map(|s| model::permute(l.rate, s)).collect();
    let qs: Vec<Vec<decaf377::Fq>> = states.iter().map(|s| native::fqs(s)).collect();
    let mut inst = must("new instance", || instance(l.rate))?;
    let mut i = 0usize;
    for n in 0..l.calls {
        i = (i * 5 + 3 + n / 97) % k;
        match l.mode.as_str() {
            "hash" => {
                let g = must("hash", || native::hash_fq(&qs[i][0], &qs[i][1..]))?;
                let e = native::fq(&wants[i][1]);
                if g != e {
                    return Err(format!("call {n} of a long history of hash_{}: wrong result", l.rate));
                }
            }
            m => {
                let e = if m == "optimised" || (m == "mixed" && n % 3 != 0) { Entry::Optimised } else { Entry::Textbook };
                let g = must("permutation", || inst.call(e, &states[i]))?;
                if g != wants[i][1] || (n % 16 == 0 && must("output_words", || inst.output())? != wants[i]) {
                    return Err(format!("call {n} of a long history on one rate-{} instance: wrong result", l.rate));
                }
            }
        }
    }
    Ok(Info::new(true).class(l.mode.clone()))
}

/// More different inputs than any table of earlier results would hold, twice.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Distinct {
    rate: usize,
    entry: Option<Entry>,
    n: usize,
}
fn run_distinct(d: &Distinct) -> Verdict {
    let t = d.rate + 1;
    let mut inst = must("new instance", || instance(d.rate))?;
    let state = |i: usize| -> Vec<F> {
        // the low parts count, the rest is scattered; every other input differs from its predecessor in one word only
        let (a, b) = (i as u64 / 2, i as u64 % 2);
        (0..t as u64).map(|j| F::from_u64(a + 1).mul(&F::from_u64(0x9e3779b97f4a7c15 ^ (j << 40))).add(&F::from_u64(if j == a % t as u64 { b } else { 0 }))).collect()
    };
    let mut call = |s: &[F]| -> Result<decaf377::Fq, String> {
        let q = native::fqs(s);
        match d.entry {
            None => must("hash", || native::hash_fq(&q[0], &q[1..])),
            Some(e) => must("permutation", || inst.call_fq(e, &q)),
        }
    };
    let mut got = Vec::with_capacity(d.n);
    for i in 0..d.n {
        let s = state(i);
        let g = call(&s)?;
        if g != native::fq(&model::permute(d.rate, &s)[1]) {
            return Err(format!("input {i} of a series of different ones: wrong result"));
        }
        got.push(g);
    }
    for k in 0..d.n {
        // forwards in steps, so that recent and old inputs alternate
        let i = (k * 7919) % d.n;
        if call(&state(i))? != got[i] {
            return Err(format!("input {i} of a series of {} gives another result the second time", d.n));
        }
    }
    Ok(Info::new(true).class(format!("rate {}", d.rate)))
}

/// Many threads, few values, one entry point, nothing between the calls: makes overlapping calls
/// (and any torn shared state) as likely as possible.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hammer {
    rate: usize,
    entry: Option<Entry>,
    threads: usize,
    calls: usize,
    /// a thread stays this many calls on one input
    run: usize,
    /// all threads use one set of inputs, or each thread has one of its own besides
    own: bool,
    pool: Vec<F>,
}
fn hammer(calls: usize) -> BoxedStrategy<Hammer> {
    (1usize..=7, prop_oneof![3 => Just(None), 1 => Just(Some(Entry::Optimised)), 1 => Just(Some(Entry::Textbook))], 4usize..=12, 1usize..4, any::<bool>(), pool())
        .prop_map(move |(rate, entry, threads, run, own, pool)| Hammer { rate, entry, threads, calls: calls * 8 / (4 + rate * rate), run, own, pool })
        .boxed()
}
static ONE_HAMMER: std::sync::Mutex<()> = std::sync::Mutex::new(());
fn run_hammer(h: &Hammer) -> Verdict {
    let t = h.rate + 1;
    let k = h.pool.len();
    let shared: Vec<Vec<F>> = (0..k.min(3)).map(|i| (0..t).map(|j| h.pool[(i + j * (i + 1)) % k]).collect()).collect();
    let _one = ONE_HAMMER.lock().unwrap_or_else(|e| e.into_inner());
    let barrier = std::sync::Barrier::new(h.threads);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..h.threads)
            .map(|id| {
                let (barrier, stop, shared) = (&barrier, &stop, &shared);
                sc.spawn(move || {
                    let mut states = shared.clone();
                    if h.own {
                        let mut o = shared[0].clone();
                        o[t - 1] = o[t - 1].add(&F::from_u64(id as u64 + 1));
                        states.push(o);
                    }
                    let qs: Vec<Vec<decaf377::Fq>> = states.iter().map(|s| native::fqs(s)).collect();
                    let wants: Vec<decaf377::Fq> = states.iter().map(|s| native::fq(&model::permute(h.rate, s)[1])).collect();
                    let mut inst = must("new instance", || instance(h.rate))?;
                    barrier.wait();
                    for n in 0..h.calls {
                        if n % 64 == 0 && stop.load(std::sync::atomic::Ordering::Relaxed) {
                            break;
                        }
                        let i = (n / h.run + id) % states.len();
                        let g = match h.entry {
                            None => must("hash", || native::hash_fq(&qs[i][0], &qs[i][1..])),
                            Some(e) => must("permutation", || inst.call_fq(e, &qs[i])),
                        };
                        if !matches!(&g, Ok(x) if *x == wants[i]) {
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                            return Err(format!("thread {id} of {}, call {n}: {}", h.threads, g.map(|_| "wrong result".into()).unwrap_or_else(|e| e)));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|x| x.join().expect("hammer thread")).collect()
    });
    for r in res {
        r?;
    }
    Ok(Info::new(true).class(format!("{} threads", h.threads)).class(format!("rate {}", h.rate)))
}

pub fn c05(c: &mut Check) {
    let checked = c.variant == "checked";
    let rule = "a pool of related values, four reusable instances and a sequence of hash / permute / replace / read calls, whose arguments are from the pool, earlier results, or the instance's exposed state in whole or part; every result and exposed state is compared with the pure reference; non-trivial: at least two calls";
    c.part("histories", rule, if checked { 1_000 } else { 16_000 }, 25, || history(40, false), run_history);
    c.part("long-histories", rule, if checked { 24 } else { 320 }, 25, || history(400, false), run_history);
    c.part("concurrent-histories", "the same history run on several threads at once, rotated per thread; non-trivial: at least four calls", if checked { 80 } else { 1_000 }, 25, || history(24, true), run_history);
    c.part("overlapping-calls", "4 to 12 threads call one entry point in a tight loop on the same few values; every result is compared; all are non-trivial", if checked { 16 } else { 72 }, 25, move || hammer(if checked { 400 } else { 4_000 }), run_hammer);
    let mut longs = vec![];
    let calls = if c.thorough { 2_000_000 } else if checked { 3_000 } else { 70_000 };
    let modes = [("hash", 1), ("hash", 2), ("hash", 3), ("hash", 4), ("hash", 5), ("hash", 6), ("hash", 7), ("hash", 1), ("optimised", 1), ("optimised", 2), ("optimised", 4), ("optimised", 7), ("mixed", 1), ("mixed", 3), ("textbook", 3), ("textbook", 6)];
    for (i, (mode, rate)) in modes.iter().enumerate() {
        let (rate, calls) = (*rate, if i == 0 && !checked { 5 * calls } else { calls });
        let pool: Vec<F> = (0..11u64).map(|x| F::from_u64(x * x * x + i as u64).mul(&F::from_u64(if x % 2 == 0 { 1 } else { 0x9e3779b97f4a7c15 }))).collect();
        longs.push(Long { rate, mode: mode.to_string(), calls: if *mode == "hash" || *mode == "optimised" { calls } else { calls / 2 }, pool });
    }
    c.exhaustive("very-long-histories", "calls in a row (more than 2^16 per thread, more than 2^20 together), at fixed rates, all threads at once; all are non-trivial", longs, run_long);
    let n = if c.thorough { 1 << 20 } else if checked { 1_000 } else { 20_000 };
    let all = (1..=7).map(|r| Distinct { rate: r, entry: None, n }).chain([(1, Entry::Optimised), (3, Entry::Optimised), (1, Entry::Textbook), (5, Entry::Textbook)].map(|(rate, e)| Distinct { rate, entry: Some(e), n })).collect();
    c.exhaustive("many-distinct-inputs", "thousands of different inputs in a row, each compared with the model, then all of them again in another order; all are non-trivial", all, run_distinct);
}
