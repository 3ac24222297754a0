//! C01, C02, C04, C21: the shipped hashes and permutations against the reference model.
use native::pairs::{pairs, PairCase};
use native::{hash, instance, raw, Entry};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model;
use vcore::run::{must, Check, Info};
use vcore::F;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StateCase {
    pub rate: usize,
    pub words: Vec<F>,
    pub recipe: String,
}
pub fn states() -> BoxedStrategy<StateCase> {
    gen::any_state().prop_map(|(rate, words, r)| StateCase { rate, words, recipe: r.into() }).boxed()
}
/// A case is non-trivial unless all its words are zero.
fn info(c: &StateCase) -> Info {
    Info::new(c.words.iter().any(|w| !w.is_zero())).class(format!("rate-{}", c.rate)).class(c.recipe.clone())
}

pub fn c01(c: &mut Check) {
    let n = if c.variant == "checked" { 16_000 } else { 250_000 };
    c.part(
        "hash-vs-model",
        "arity 1..7 and (domain, inputs) drawn from special values, source-literal dictionary, sparse limb patterns, word relations, states built backwards from special intermediate values, and uniform; non-trivial: not all words zero",
        n,
        25,
        states,
        |k| {
            let want = model::hash(&k.words[0], &k.words[1..]);
            let got = must("hash", || hash(&k.words[0], &k.words[1..]))?;
            if got != want {
                return Err(format!("hash_{} returned {got:?}, specification gives {want:?}", k.rate));
            }
            Ok(info(k))
        },
    );
    // All pairs of "corner" values at arity 1 and 2 plus every dictionary value in every position.
    let mut cases = vec![];
    for v in gen::dictionary() {
        for (rate, pos) in [(1, 0), (1, 1), (2, 2), (3, 1), (4, 4), (5, 2), (6, 6), (7, 7), (7, 0)] {
            let mut words = vec![F::from_u64(3); rate + 1];
            words[pos] = *v;
            cases.push(StateCase { rate, words, recipe: "dictionary".into() });
        }
    }
    if c.variant == "checked" {
        cases.truncate(1500);
    }
    c.exhaustive("dictionary-sweep", "every value mined from the source text at selected positions of every arity", cases, |k| {
        let want = model::hash(&k.words[0], &k.words[1..]);
        let got = must("hash", || hash(&k.words[0], &k.words[1..]))?;
        if got != want {
            return Err(format!("hash_{} returned {got:?}, specification gives {want:?}", k.rate));
        }
        Ok(info(k))
    });
    c.exhaustive("intermediate-sweep", SWEEP, spots(c, &[true, false]), |s| {
        let (w, name) = s.input();
        let (want, got) = (model::hash(&w[0], &w[1..]), must("hash", || hash(&w[0], &w[1..]))?);
        if got != want {
            return Err(format!("hash_{} of {w:?} returned {got:?}, specification gives {want:?}", s.rate));
        }
        Ok(spot_info(s, name))
    });
}
const SWEEP: &str = "for every rate, every point between two operations of the permutation (textbook and optimised form) and every pattern there (all words zero, one, minus one or equal, sum zero, one word zero, one, minus one, small or with a zero limb, two words equal, a word minus, one more than, the inverse or the 17th power of its neighbour; other words fixed pseudo-random), the initial state that leads there; all are non-trivial";
const SWEEP_HALF: &str = "as for C01, every second of them (all in the thorough tier); all are non-trivial";
/// All of them in the default build, a sample in the checked one.
fn spots(c: &Check, forms: &[bool]) -> Vec<gen::Spot> {
    let all = gen::spots(forms);
    if c.variant == "checked" {
        all.into_iter().enumerate().filter(|(i, _)| i % 37 == c.seed as usize % 37).map(|(_, s)| s).collect()
    } else {
        all
    }
}
fn spot_info(s: &gen::Spot, name: &'static str) -> Info {
    Info::new(true).class(format!("rate-{}", s.rate)).class(name)
}

pub fn c02(c: &mut Check) {
    let n = if c.variant == "checked" { 12_000 } else { 120_000 };
    c.part(
        "optimised-vs-textbook",
        "rate 1..7 and a full state (as C01); both entry points on fresh instances; full final states compared with each other and with the reference model; non-trivial: not all words zero",
        n,
        25,
        states,
        |k| two_forms(k.rate, &k.words).map(|_| info(k)),
    );
    c.exhaustive("intermediate-sweep", SWEEP, spots(c, &[true, false]), |s| {
        let (w, name) = s.input();
        two_forms(s.rate, &w).map(|_| spot_info(s, name))
    });
}
fn two_forms(rate: usize, words: &[F]) -> Result<(), String> {
            let (mut a, mut b) = (instance(rate), instance(rate));
            let oa = must("optimised permutation", || a.call(Entry::Optimised, words))?;
            let ob = must("textbook permutation", || b.call(Entry::Textbook, words))?;
            let (sa, sb) = (must("output_words", || a.output())?, must("output_words", || b.output())?);
            if sa != sb {
                return Err(format!("rate {rate}: on {words:?}, optimised state {sa:?} differs from textbook state {sb:?}"));
            }
            if oa != sa[1] || ob != sb[1] {
                return Err(format!("rate {rate}: returned words {oa:?}/{ob:?} are not word 1 of the state {sa:?}"));
            }
            let want = model::permute(rate, words);
            if sa != want {
                return Err(format!("rate {rate}: on {words:?}, both forms give {sa:?}, reference gives {want:?}"));
            }
            Ok(())
}

/// Inverse permutation of a shipped instance, from the parameters the library publishes.
fn published() -> &'static [model::Back] {
    static S: std::sync::OnceLock<Vec<model::Back>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        (1..=7)
            .map(|r| {
                let p = raw(r);
                let sbox = match p.alpha {
                    poseidon_parameters::v1::Alpha::Exponent(e) => model::Sbox::Exp(e),
                    poseidon_parameters::v1::Alpha::Inverse => model::Sbox::Inv,
                };
                let m = model::Params { t: r + 1, r_f: p.r_f, r_p: p.r_p, sbox, mds: p.mds, arc: p.arc };
                model::Back::new(m.ops_textbook(), sbox)
            })
            .collect()
    })
}

pub fn c04(c: &mut Check) {
    let n = if c.variant == "checked" { 6_000 } else { 50_000 };
    let rule = "rate 1..7 and a state (as C01); permute with either entry point, undo with inverse rounds built from the published parameters; non-trivial: state not all zero";
    c.part("undo-after-permute", rule, n, 25, || (states(), prop_oneof![Just(Entry::Optimised), Just(Entry::Textbook)]).boxed(), |(k, e)| {
        let b = &published()[k.rate - 1];
        let mut i = instance(k.rate);
        must("permutation", || i.call(*e, &k.words))?;
        let end = must("output_words", || i.output())?;
        let back = b.undo(b.ops.len(), &end).ok_or(format!("rate {}: the published parameters are not invertible", k.rate))?;
        if back != k.words {
            return Err(format!("rate {}: undoing the permutation gives {back:?}", k.rate));
        }
        Ok(info(k).class(format!("{e:?}")))
    });
    c.part("permute-after-undo", rule, n, 25, || (states(), prop_oneof![Just(Entry::Optimised), Just(Entry::Textbook)]).boxed(), |(k, e)| {
        let b = &published()[k.rate - 1];
        let start = b.undo(b.ops.len(), &k.words).ok_or(format!("rate {}: the published parameters are not invertible", k.rate))?;
        let mut i = instance(k.rate);
        must("permutation", || i.call(*e, &start))?;
        let end = must("output_words", || i.output())?;
        if end != k.words {
            return Err(format!("rate {}: target {:?} reached as {end:?}", k.rate, k.words));
        }
        Ok(info(k).class(format!("{e:?}")))
    });
    c04_spots(c);
}

fn c04_spots(c: &mut Check) {
    let all = spots(c, &[true, false]).into_iter().enumerate();
    let some = all.filter(|(i, _)| c.thorough || i % 2 == c.seed as usize % 2).map(|(_, s)| s).collect();
    c.exhaustive("intermediate-sweep", SWEEP_HALF, some, |s| {
        let (w, name) = s.input();
        for e in [Entry::Optimised, Entry::Textbook] {
            let b = &published()[s.rate - 1];
            let mut i = instance(s.rate);
            must("permutation", || i.call(e, &w))?;
            let end = must("output_words", || i.output())?;
            let back = b.undo(b.ops.len(), &end).ok_or(format!("rate {}: the published parameters are not invertible", s.rate))?;
            if back != w {
                return Err(format!("rate {}, {e:?}: undoing the permutation of {w:?} gives {back:?}", s.rate));
            }
        }
        Ok(spot_info(s, name))
    });
}
pub fn c21(c: &mut Check) {
    let n = if c.variant == "checked" { 12_000 } else { 200_000 };
    c.part(
        "related-calls-differ",
        "pairs of calls related by changing one word, exchanging words, changing arity, and so on; non-trivial: the two calls really differ; their hashes must then differ",
        n,
        25,
        pairs,
        |k: &PairCase| {
            let ha = must("hash", || hash(&k.a[0], &k.a[1..]))?;
            let hb = must("hash", || hash(&k.b[0], &k.b[1..]))?;
            let differ = k.a != k.b;
            if differ && ha == hb {
                return Err(format!("{}: two different calls have the same hash {ha:?}", k.relation));
            }
            if !differ && ha != hb {
                return Err("the same call gave two different hashes".into());
            }
            Ok(Info::new(differ).class(k.relation.clone()))
        },
    );
    // Sixteen neighbours of each base state at once: all hashes pairwise distinct.
    c.part(
        "neighbourhood-distinct",
        "a base call and all calls obtained by moving each single word by +1, by exchanging neighbours and by appending 0; all distinct calls must hash to distinct values; non-trivial: at least 8 distinct calls",
        n / 8,
        25,
        || gen::any_state().prop_map(|(_, w, _)| w).boxed(),
        |w| {
            let mut calls = std::collections::BTreeSet::new();
            calls.insert(w.clone());
            for i in 0..w.len() {
                let mut x = w.clone();
                x[i] = x[i].add(&F::ONE);
                calls.insert(x);
                if i + 1 < w.len() {
                    let mut x = w.clone();
                    x.swap(i, i + 1);
                    calls.insert(x);
                }
            }
            if w.len() < 8 {
                let mut x = w.clone();
                x.push(F::ZERO);
                calls.insert(x);
            }
            let mut seen = std::collections::BTreeMap::new();
            for k in &calls {
                let h = must("hash", || hash(&k[0], &k[1..]))?;
                if let Some(o) = seen.insert(h, k.clone()) {
                    return Err(format!("{o:?} and {k:?} have the same hash {h:?}"));
                }
            }
            Ok(Info::new(calls.len() >= 8))
        },
    );
}
