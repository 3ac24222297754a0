//! Pairs of related calls.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::F;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    /// (domain, inputs)
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub relation: String,
}
pub fn pairs() -> BoxedStrategy<PairCase> {
    let mk = |a: Vec<F>, b: Vec<F>, r: &str| PairCase { a, b, relation: r.into() };
    let base = || gen::any_state().prop_map(|(_, w, _)| w);
    prop_oneof![
        4 => (base(), any::<prop::sample::Index>(), gen::fe()).prop_map(move |(a, i, x)| { let mut b = a.clone(); let i = i.index(b.len()); b[i] = x; mk(a, b, if i == 0 { "domain changed" } else { "input changed" }) }),
        2 => (base(), any::<prop::sample::Index>(), 0u64..253, any::<bool>()).prop_map(move |(a, i, k, s)| { let mut b = a.clone(); let i = i.index(b.len()); let d = F::from_u64(2).pow_u64(k); b[i] = if s { b[i].add(&d) } else { b[i].sub(&d) }; mk(a, b, "one word moved by a power of two") }),
        1 => (base(), any::<prop::sample::Index>()).prop_map(move |(a, i)| { let mut b = a.clone(); let i = i.index(b.len()); b[i] = b[i].neg(); mk(a, b, "one word negated") }),
        2 => (base(), any::<prop::sample::Index>(), any::<prop::sample::Index>()).prop_map(move |(a, i, j)| { let mut b = a.clone(); let (i, j) = (i.index(b.len()), j.index(b.len())); b.swap(i, j); mk(a, b, if i == 0 || j == 0 { "domain exchanged with input" } else { "inputs exchanged" }) }),
        1 => base().prop_map(move |a| { let mut b = a.clone(); b.rotate_left(1); mk(a, b, "rotated") }),
        1 => base().prop_map(move |a| { let mut b = a.clone(); b[1..].reverse(); mk(a, b, "inputs reversed") }),
        2 => (base(), gen::fe(), any::<bool>()).prop_map(move |(a, x, z)| { let mut b = a.clone(); if b.len() < 8 { b.push(if z { F::ZERO } else { x }) } else { b.pop(); } mk(a, b, "arity changed at the end") }),
        1 => (base(), gen::fe(), any::<bool>()).prop_map(move |(a, x, z)| { let mut b = a.clone(); if b.len() < 8 { b.insert(1, if z { F::ZERO } else { x }) } else { b.remove(1); } mk(a, b, "arity changed at the front") }),
        1 => (base(), gen::fe()).prop_map(move |(a, d)| { let mut b = a.clone(); for x in b.iter_mut() { *x = x.add(&d) } mk(a, b, "all words shifted") }),
        1 => (base(), any::<prop::sample::Index>(), any::<prop::sample::Index>(), gen::fe()).prop_map(move |(a, i, j, d)| { let mut b = a.clone(); let (i, j) = (i.index(b.len()), j.index(b.len())); b[i] = b[i].add(&d); b[j] = b[j].sub(&d); mk(a, b, "two words moved, sum kept") }),
        1 => (base(), base()).prop_map(move |(a, b)| mk(a, b, "independent")),
        1 => (base(), any::<bool>()).prop_map(move |(a, z)| { let mut a = a; let n = a.len(); a[n - 1] = F::ZERO; let mut b = a.clone(); if z && n > 2 { b.pop(); } else { b[0] = b[0].add(&F::ONE) } mk(a, b, "trailing zero dropped") }),
    ]
    .boxed()
}
