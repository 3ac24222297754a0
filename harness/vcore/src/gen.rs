//! Generators for field elements and states, biased towards values on which an implementation
//! could plausibly behave differently, plus states built backwards from chosen intermediate
//! values of the permutation.
use crate::field::{inverse_exponent, F, P};
use crate::model::{shipped, Back};
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

fn limb(i: usize) -> BoxedStrategy<u64> {
    prop_oneof![
        3 => Just(0u64),
        1 => Just(1u64),
        2 => Just(u64::MAX),
        1 => Just(P[i]),
        1 => Just(P[i].wrapping_sub(1)),
        1 => Just(F::ONE.0[i]),
        1 => 0u64..256,
        1 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => (0u32..64).prop_map(|k| (1u64 << k).wrapping_sub(1)),
        1 => any::<u32>().prop_map(|x| x as u64),
        1 => any::<u32>().prop_map(|x| (x as u64) << 32),
        1 => any::<u8>().prop_map(|x| x as u64 * 0x0101_0101_0101_0101),
        1 => (any::<u64>(), 0u32..64, 1u32..64, any::<bool>()).prop_map(|(x, at, n, ones)| window(x, at, n, ones)),
        4 => any::<u64>(),
    ]
    .boxed()
}
/// `x` with `n` bits from bit `at` on all zero or all one.
fn window(x: u64, at: u32, n: u32, ones: bool) -> u64 {
    let m = ((1u64 << n) - 1) << at;
    if ones { x | m } else { x & !m }
}
/// A uniform element with some whole bytes all zero or all one.
fn windowed() -> BoxedStrategy<F> {
    (any::<[u64; 4]>(), 0usize..32, 1usize..=12, any::<bool>(), any::<bool>())
        .prop_map(|(mut l, at, n, ones, mont)| {
            l[3] %= P[3]; // so that nothing is reduced
            for k in at..(at + n).min(32) {
                l[k / 8] = window(l[k / 8], (k % 8) as u32 * 8, 8, ones);
            }
            if mont { F::from_mont_limbs(l) } else { F::from_limbs(l) }
        })
        .boxed()
}
fn limbs() -> BoxedStrategy<[u64; 4]> {
    (limb(0), limb(1), limb(2), limb(3), any::<bool>()).prop_map(|(a, b, c, d, low)| [a, b, c, if low { d % P[3] } else { d }]).boxed()
}
pub fn uniform() -> BoxedStrategy<F> {
    any::<[u64; 4]>().prop_map(F::from_limbs).boxed()
}

fn root_of_unity_elements() -> &'static Vec<F> {
    static S: OnceLock<Vec<F>> = OnceLock::new();
    S.get_or_init(|| {
        use num_bigint::BigUint;
        let pm1 = BigUint::from_bytes_le(&crate::field::limb_bytes(&P)) - 1u32;
        let mut v = vec![];
        let to = |e: &BigUint| {
            let mut l = [0u64; 4];
            for (i, d) in e.to_u64_digits().into_iter().enumerate() {
                l[i] = d;
            }
            l
        };
        // 22 generates the multiplicative group of this field (only used to pick samples).
        let g = F::from_u64(22);
        for d in [2u32, 3, 4, 6, 7, 8, 12, 13, 16, 32, 64, 128, 256, 499, 65536] {
            if &pm1 % d == BigUint::from(0u32) {
                let w = g.pow(&to(&(&pm1 / d)));
                v.push(w);
                v.push(w.inv());
            }
        }
        for k in 1..=47u32 {
            v.push(g.pow(&to(&(&pm1 >> k))));
        }
        v
    })
}

/// Constants mined from the source text of the repository: they only seed the generator.
pub fn dictionary() -> &'static Vec<F> {
    static S: OnceLock<Vec<F>> = OnceLock::new();
    S.get_or_init(|| {
        let (mut out, mut plain) = (vec![], vec![]);
        let mut files = vec![];
        let mut stack = vec![std::path::PathBuf::from("/repo")];
        while let Some(d) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                let n = e.file_name().to_string_lossy().to_string();
                if p.is_dir() {
                    if n != "target" && n != "vendor" && !n.starts_with('.') {
                        stack.push(p);
                    }
                } else if n.ends_with(".rs") {
                    files.push(p);
                }
            }
        }
        // The library's own sources first: the list is cut off at a fixed length.
        files.sort_by_key(|p| {
            let s = p.to_string_lossy().to_string();
            let rank = ["/repo/poseidon377/src", "/repo/poseidon-permutation/src", "/repo/poseidon-parameters/src"].iter().position(|d| s.starts_with(d)).unwrap_or(3);
            (rank, s)
        });
        for p in files {
            let Ok(text) = std::fs::read_to_string(&p) else { continue };
            if text.len() > 60_000 {
                continue; // parameter tables: used through the model instead
            }
            mine(&text, &mut out, &mut plain);
        }
        // single small numbers are everywhere: keep one of each among the next few
        let mut kept: Vec<F> = vec![];
        for x in plain {
            if !kept.iter().rev().take(6).any(|y| *y == x) {
                kept.push(x);
            }
        }
        kept.truncate(6000);
        let _ = LITERALS.set(kept);
        let mut seen = std::collections::BTreeSet::new();
        out.retain(|f| seen.insert(*f));
        out.truncate(4000);
        if out.is_empty() {
            out.push(F::ZERO);
        }
        out
    })
}
/// The plain values of the literals in the sources, in the order of the text: values named close to
/// each other are tried together.
pub fn literals() -> &'static Vec<F> {
    static S: OnceLock<Vec<F>> = OnceLock::new();
    S.get_or_init(|| {
        dictionary();
        LITERALS.get().cloned().unwrap_or_default()
    })
}
static LITERALS: OnceLock<Vec<F>> = OnceLock::new();
fn push_int(n: &num_bigint::BigUint, out: &mut Vec<F>) {
    let f = F::from_le_bytes_mod(&n.to_bytes_le());
    for x in [f, f.neg(), f.add(&F::ONE), f.sub(&F::ONE)] {
        out.push(x);
    }
    if n.bits() <= 64 {
        let w = n.iter_u64_digits().next().unwrap_or(0);
        // as a power of two, and in each limb of either representation
        if w < 253 {
            let p2 = F::from_u64(2).pow_u64(w);
            out.push(p2);
            out.push(p2.sub(&F::ONE));
        }
        for i in 0..4 {
            let mut l = [0u64; 4];
            l[i] = w;
            out.push(F::from_limbs(l));
            out.push(F::from_mont_limbs(l));
        }
    }
}
fn mine(text: &str, out: &mut Vec<F>, plain: &mut Vec<F>) {
    use num_bigint::BigUint;
    let b = text.as_bytes();
    let mut i = 0;
    let mut ints: Vec<(usize, u64)> = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let mut t: String = text[s..i].replace('_', "");
            for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"] {
                if t.ends_with(suf) && !t.starts_with("0x") {
                    t.truncate(t.len() - suf.len());
                }
            }
            let n = if let Some(h) = t.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                BigUint::parse_bytes(h.as_bytes(), 16)
            } else if let Some(h) = t.strip_prefix("0b") {
                BigUint::parse_bytes(h.as_bytes(), 2)
            } else {
                BigUint::parse_bytes(t.as_bytes(), 10)
            };
            if let Some(n) = n {
                push_int(&n, out);
                plain.push(F::from_le_bytes_mod(&n.to_bytes_le()));
                if n.bits() <= 64 {
                    ints.push((i, n.iter_u64_digits().next().unwrap_or(0)));
                }
            }
        } else if c == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            let e = i.min(b.len());
            let lit = &b[s.min(e)..e];
            i += 1;
            if lit.len() <= 100 {
                let f = F::from_le_bytes_mod(lit);
                out.push(f);
                if !lit.iter().all(|x| x.is_ascii_digit()) {
                    plain.push(f);
                }
                let mut rev = lit.to_vec();
                rev.reverse();
                out.push(F::from_le_bytes_mod(&rev));
                if lit.iter().all(|x| x.is_ascii_digit()) {
                    if let Some(n) = BigUint::parse_bytes(lit, 10) {
                        plain.push(F::from_le_bytes_mod(&n.to_bytes_le()));
                        push_int(&n, out);
                    }
                }
                if let Some(n) = BigUint::parse_bytes(lit.strip_prefix(b"0x").unwrap_or(lit), 16) {
                    push_int(&n, out);
                }
            }
        } else {
            i += 1;
        }
    }
    for w in ints.windows(4) {
        let l = [w[0].1, w[1].1, w[2].1, w[3].1];
        if w[3].0 - w[0].0 < 200 && l.iter().any(|x| *x > 0xffff) {
            out.push(F::from_limbs(l));
            out.push(F::from_mont_limbs(l));
            let r = [l[3], l[2], l[1], l[0]];
            out.push(F::from_limbs(r));
            out.push(F::from_mont_limbs(r));
        }
    }
}

fn param_constants() -> &'static Vec<F> {
    static S: OnceLock<Vec<F>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for s in shipped() {
            for f in s.params.arc.iter().take(3).chain(s.opt.oarc.iter().skip(3).take(3)).chain(s.params.mds.iter().take(2)).flatten() {
                v.push(*f);
                v.push(f.neg());
            }
        }
        v
    })
}

fn pick(table: fn() -> &'static Vec<F>) -> BoxedStrategy<F> {
    any::<Index>().prop_map(move |i| *i.get(table())).boxed()
}
/// One field element.
pub fn fe() -> BoxedStrategy<F> {
    // building the strategy is far more expensive than drawing from it
    thread_local! { static S: BoxedStrategy<F> = new_fe(); }
    S.with(|s| s.clone())
}
fn new_fe() -> BoxedStrategy<F> {
    let d17 = inverse_exponent(17).unwrap();
    prop_oneof![
        4 => (0u64..4).prop_map(F::from_u64),
        2 => (0u64..300).prop_map(F::from_u64),
        2 => (1u64..300).prop_map(|x| F::from_u64(x).neg()),
        1 => (0u64..252, -2i64..3).prop_map(|(k, d)| {
            let x = F::from_u64(2).pow_u64(k);
            if d < 0 { x.sub(&F::from_u64((-d) as u64)) } else { x.add(&F::from_u64(d as u64)) }
        }),
        1 => (0u64..252).prop_map(|k| F::from_u64(2).pow_u64(k).neg()),
        1 => (1u64..300).prop_map(|k| F::from_u64(k).inv()),
        1 => any::<u32>().prop_map(|x| F::from_u64(x as u64)),
        1 => any::<u64>().prop_map(F::from_u64),
        1 => any::<u128>().prop_map(|x| F::from_limbs([x as u64, (x >> 64) as u64, 0, 0])),
        1 => "[ -~]{0,40}".prop_map(|s| F::from_le_bytes_mod(s.as_bytes())),
        3 => limbs().prop_map(F::from_limbs),
        4 => limbs().prop_map(F::from_mont_limbs),
        2 => windowed(),
        1 => pick(root_of_unity_elements),
        1 => (0u64..300).prop_map(move |x| F::from_u64(x).pow(&d17)),
        1 => pick(param_constants),
        5 => pick(dictionary),
        6 => uniform(),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
pub enum Rel {
    Copy(usize, usize),
    Neg(usize, usize),
    Plus(usize, usize, u64),
    Double(usize, usize),
    Inv(usize, usize),
    Square(usize, usize),
    SumZero(usize),
    SumOf(usize, usize, usize),
    LowLimb(usize, usize),
    Product(usize, usize, usize),
    SumIs(usize, usize, u64),
    ProductIs(usize, usize, u64),
    Power(usize, usize),
    Xor(usize, usize, u8),
    SameLimb(usize, usize, usize, bool),
    /// bits from one on to another are those of another word
    SameBits(usize, usize, u8, u8, bool),
    Reversed(usize, usize),
    Zero(usize),
    /// the hash of the first word and the next so many
    HashOf(usize, usize),
}
pub fn rels(max: usize) -> BoxedStrategy<Vec<Rel>> {
    let ix = || 0usize..16;
    proptest::collection::vec(
        prop_oneof![
            4 => (ix(), ix()).prop_map(|(a, b)| Rel::Copy(a, b)),
            2 => (ix(), ix()).prop_map(|(a, b)| Rel::Neg(a, b)),
            2 => (ix(), ix(), 1u64..3).prop_map(|(a, b, c)| Rel::Plus(a, b, c)),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::Double(a, b)),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::Inv(a, b)),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::Square(a, b)),
            1 => ix().prop_map(Rel::SumZero),
            1 => (ix(), ix(), ix()).prop_map(|(a, b, c)| Rel::SumOf(a, b, c)),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::LowLimb(a, b)),
            1 => (ix(), ix(), ix()).prop_map(|(a, b, c)| Rel::Product(a, b, c)),
            1 => (ix(), ix(), 0u64..4).prop_map(|(a, b, c)| Rel::SumIs(a, b, c)),
            1 => (ix(), ix(), 0u64..4).prop_map(|(a, b, c)| Rel::ProductIs(a, b, c)),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::Power(a, b)),
            1 => (ix(), ix(), 0u8..252).prop_map(|(a, b, c)| Rel::Xor(a, b, c)),
            1 => (ix(), ix(), 0usize..4, any::<bool>()).prop_map(|(a, b, c, m)| Rel::SameLimb(a, b, c, m)),
            1 => (ix(), ix(), 0u8..252, 8u8..128, any::<bool>()).prop_map(|(a, b, at, n, m)| Rel::SameBits(a, b, at, n, m)),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::Reversed(a, b)),
            2 => ix().prop_map(Rel::Zero),
            1 => (ix(), ix()).prop_map(|(a, b)| Rel::HashOf(a, b)),
        ],
        0..=max,
    )
    .boxed()
}
pub fn apply_rels(v: &mut [F], rs: &[Rel]) {
    let n = v.len();
    for r in rs {
        match *r {
            Rel::Copy(a, b) => v[a % n] = v[b % n],
            Rel::Neg(a, b) => v[a % n] = v[b % n].neg(),
            Rel::Plus(a, b, c) => v[a % n] = v[b % n].add(&F::from_u64(c)),
            Rel::Double(a, b) => v[a % n] = v[b % n].add(&v[b % n]),
            Rel::Inv(a, b) => v[a % n] = v[b % n].inv(),
            Rel::Square(a, b) => v[a % n] = v[b % n].sq(),
            Rel::SumZero(a) => {
                let s = v.iter().fold(F::ZERO, |s, x| s.add(x)).sub(&v[a % n]);
                v[a % n] = s.neg();
            }
            Rel::SumOf(a, b, c) => v[a % n] = v[b % n].add(&v[c % n]),
            Rel::LowLimb(a, b) => {
                // same low limb (plain representation), different upper ones
                let (x, y) = (v[a % n].limbs(), v[b % n].limbs());
                v[a % n] = F::from_limbs([y[0], x[1], x[2], x[3] >> 4]);
            }
            Rel::Product(a, b, c) => v[a % n] = v[b % n].mul(&v[c % n]),
            Rel::SumIs(a, b, c) => v[a % n] = F::from_u64(c).sub(&v[b % n]),
            Rel::ProductIs(a, b, c) => v[a % n] = F::from_u64(c).sub(&F::ONE).mul(&v[b % n].inv()),
            Rel::Power(a, b) => v[a % n] = v[b % n].pow_u64(17),
            Rel::Xor(a, b, bit) => {
                // differs in one bit
                let mut l = v[b % n].limbs();
                l[bit as usize / 64] ^= 1 << (bit % 64);
                v[a % n] = F::from_limbs(l);
            }
            Rel::SameLimb(a, b, i, mont) => {
                let (mut x, y) = if mont { (v[a % n].0, v[b % n].0) } else { (v[a % n].limbs(), v[b % n].limbs()) };
                x[i] = y[i];
                v[a % n] = if mont { F::from_mont_limbs(x) } else { F::from_limbs(x) };
            }
            Rel::SameBits(a, b, at, len, mont) => {
                let (mut x, y) = if mont { (v[a % n].0, v[b % n].0) } else { (v[a % n].limbs(), v[b % n].limbs()) };
                for k in at as usize..(at as usize + len as usize).min(256) {
                    x[k / 64] = x[k / 64] & !(1 << (k % 64)) | y[k / 64] & 1 << (k % 64);
                }
                v[a % n] = if mont { F::from_mont_limbs(x) } else { F::from_limbs(x) };
            }
            Rel::Reversed(a, b) => {
                let mut l = v[b % n].limbs();
                l.reverse();
                v[a % n] = F::from_limbs(l.map(u64::swap_bytes));
            }
            Rel::Zero(a) => v[a % n] = F::ZERO,
            Rel::HashOf(a, b) => v[a % n] = crate::model::hash(&v[0], &(1..=b % 7 + 1).map(|i| v[i % n]).collect::<Vec<_>>()),
        }
    }
}

/// A state of `t` words with the name of the recipe that made it. No permutation-specific cases.
pub fn words(t: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    type S = BoxedStrategy<(Vec<F>, &'static str)>;
    thread_local! { static S: std::cell::RefCell<std::collections::HashMap<usize, S>> = Default::default(); }
    if let Some(s) = S.with(|m| m.borrow().get(&t).cloned()) {
        return s;
    }
    let s = new_words(t);
    S.with(|m| m.borrow_mut().insert(t, s.clone()));
    s
}
fn new_words(t: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    let vecs = || proptest::collection::vec(fe(), t);
    prop_oneof![
        3 => (vecs(), rels(3)).prop_map(|(mut v, r)| { apply_rels(&mut v, &r); (v, "special") }),
        1 => fe().prop_map(move |x| (vec![x; t], "all-equal")),
        1 => (fe(), 0usize..t, fe()).prop_map(move |(bg, i, x)| { let mut v = vec![bg; t]; v[i] = x; (v, "one-different") }),
        1 => (0usize..t, fe()).prop_map(move |(i, x)| { let mut v = vec![F::ZERO; t]; v[i] = x; (v, "one-nonzero") }),
        1 => (fe(), fe()).prop_map(move |(a, d)| { let mut v = vec![a]; for i in 1..t { let x = v[i-1].add(&d); v.push(x); } (v, "progression") }),
        1 => (proptest::collection::vec(uniform(), t), rels(2)).prop_map(|(mut v, r)| { apply_rels(&mut v, &r); (v, "uniform-related") }),
        3 => proptest::collection::vec(uniform(), t).prop_map(|v| (v, "uniform")),
        1 => (any::<Index>(), proptest::collection::vec((0usize..5, any::<bool>()), t), vecs()).prop_map(|(i, ks, mut v)| {
            let l = literals();
            for (w, (k, neg)) in v.iter_mut().zip(ks) {
                if let (false, Some(x)) = (k == 4 || l.is_empty(), l.get((i.index(l.len().max(1)) + k) % l.len().max(1))) {
                    *w = if neg && k == 3 { x.neg() } else { *x };
                }
            }
            (v, "neighbouring-literals")
        }),
        1 => (vecs(), any::<bool>()).prop_map(|(mut v, r)| { v.sort_by_key(|x| { let l = x.limbs(); [l[3], l[2], l[1], l[0]] }); if r { v.reverse() } (v, "sorted") }),
    ]
    .boxed()
}

/// A state for which an intermediate state of the permutation takes a chosen special value.
pub fn backward(rate: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    let t = rate + 1;
    let s = &shipped()[rate - 1];
    let (n1, n2) = (s.text.ops.len(), s.optb.ops.len());
    prop_oneof![
        (0..=n1, words(t)).prop_map(move |(k, (w, _))| (shipped()[rate - 1].text.undo(k, &w).unwrap(), "backward-textbook")),
        (0..=n2, words(t)).prop_map(move |(k, (w, _))| (shipped()[rate - 1].optb.undo(k, &w).unwrap(), "backward-optimised")),
        // target only some words of an otherwise random state
        (0..=n1, proptest::collection::vec(uniform(), t), 0..t, fe()).prop_map(move |(k, mut w, i, x)| { w[i] = x; (shipped()[rate - 1].text.undo(k, &w).unwrap(), "backward-word-textbook") }),
        (0..=n2, proptest::collection::vec(uniform(), t), 0..t, fe()).prop_map(move |(k, mut w, i, x)| { w[i] = x; (shipped()[rate - 1].optb.undo(k, &w).unwrap(), "backward-word-optimised") }),
    ]
    .boxed()
}
/// A point between two operations of a shipped permutation and a pattern the state shall have there.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spot {
    pub rate: usize,
    pub optimised: bool,
    pub at: usize,
    pub pattern: usize,
}
fn patterns(t: usize) -> usize {
    5 + 8 * t + t * (t - 1) / 2 + 4 * (t - 1)
}
/// All points and patterns.
pub fn spots(forms: &[bool]) -> Vec<Spot> {
    let mut out = vec![];
    for rate in 1..=7 {
        let s = &shipped()[rate - 1];
        for &optimised in forms {
            let n = if optimised { s.optb.ops.len() } else { s.text.ops.len() };
            for at in 0..=n {
                out.extend((0..patterns(rate + 1)).map(|pattern| Spot { rate, optimised, at, pattern }));
            }
        }
    }
    out
}
impl Spot {
    /// The initial state that leads there, and the name of the pattern.
    pub fn input(&self) -> (Vec<F>, &'static str) {
        let t = self.rate + 1;
        let fill = |i: usize| {
            let mut b = format!("{}/{}/{}/{}/{i}/", self.rate, self.optimised, self.at, self.pattern).into_bytes();
            // a fixed pseudo-random element
            let mut l = [0u64; 4];
            for (k, w) in l.iter_mut().enumerate() {
                b.push(k as u8);
                *w = crate::run::hash64(&String::from_utf8_lossy(&b));
            }
            F::from_limbs(l)
        };
        let mut w: Vec<F> = (0..t).map(fill).collect();
        let k = self.pattern;
        let name = match k {
            0 => { w = vec![F::ZERO; t]; "all zero" }
            1 => { w = vec![F::ONE; t]; "all one" }
            2 => { w = vec![F::ONE.neg(); t]; "all minus one" }
            3 => { w = vec![w[0]; t]; "all equal" }
            4 => { let s = w.iter().fold(F::ZERO, |s, x| s.add(x)); w[0] = w[0].sub(&s); "sum zero" }
            _ if k < 5 + 8 * t => {
                let (i, v) = ((k - 5) / 8, (k - 5) % 8);
                let (l, m) = (w[i].limbs(), w[i].0);
                w[i] = match v {
                    0 => F::ZERO,
                    1 => F::ONE,
                    2 => F::ONE.neg(),
                    3 => F::from_u64(l[0] % 1000),
                    4 => F::from_limbs([0, l[1], l[2], l[3] >> 4]),
                    5 => F::from_limbs([l[0], l[1], l[2], 0]),
                    6 => F::from_mont_limbs([0, m[1], m[2], m[3]]),
                    _ => F::from_mont_limbs([m[0], m[1], m[2], 0]),
                };
                ["a word zero", "a word one", "a word minus one", "a word small", "a word's low limb zero", "a word's high limb zero", "a word's low Montgomery limb zero", "a word's high Montgomery limb zero"][v]
            }
            _ if k >= 5 + 8 * t + t * (t - 1) / 2 => {
                let n = k - 5 - 8 * t - t * (t - 1) / 2;
                let (i, v) = (n / 4 + 1, n % 4);
                let x = w[i - 1];
                w[i] = [x.pow_u64(17), x.neg(), x.add(&F::ONE), x.inv()][v];
                ["17th power of the neighbour", "minus the neighbour", "neighbour plus one", "inverse of the neighbour"][v]
            }
            _ => {
                let mut n = k - 5 - 8 * t;
                'found: for i in 0..t {
                    for j in 0..i {
                        if n == 0 {
                            w[i] = w[j];
                            break 'found;
                        }
                        n -= 1;
                    }
                }
                "two words equal"
            }
        };
        let s = &shipped()[self.rate - 1];
        ((if self.optimised { &s.optb } else { &s.text }).undo(self.at, &w).unwrap(), name)
    }
}
/// States for a shipped rate.
pub fn state(rate: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    state_with(rate, 1)
}
/// `state` built once per thread, for use inside a dependent strategy.
pub fn state_again(rate: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    thread_local! { static S: Vec<BoxedStrategy<(Vec<F>, &'static str)>> = (1..=7).map(state).collect(); }
    S.with(|s| s[rate - 1].clone())
}
pub fn state_with(rate: usize, back: u32) -> BoxedStrategy<(Vec<F>, &'static str)> {
    prop_oneof![5 => words(rate + 1), back => backward(rate)].boxed()
}
/// Strategies for every n in a range, built once; building one is far more expensive than drawing from it.
pub fn one_of<T: std::fmt::Debug + 'static>(ns: impl IntoIterator<Item = usize>, f: impl Fn(usize) -> BoxedStrategy<T>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new(ns.into_iter().map(f).collect::<Vec<_>>()).boxed()
}
/// (rate, state, recipe) over all shipped rates.
pub fn any_state() -> BoxedStrategy<(usize, Vec<F>, &'static str)> {
    one_of(1..=7, |r| state(r).prop_map(move |(w, c)| (r, w, c)).boxed())
}
pub fn undo(b: &Back, k: usize, w: &[F]) -> Option<Vec<F>> {
    b.undo(k, w)
}
