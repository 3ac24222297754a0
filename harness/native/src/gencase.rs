//! Generated parameter sets for the generic permutation.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model::*;
use vcore::F;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCase {
    pub t: usize,
    pub r_f: usize,
    pub r_p: usize,
    pub sbox: Sbox,
    pub mds_kind: String,
    pub mds: Vec<F>,
    pub arc: Vec<F>,
    pub state: Vec<F>,
    /// If set, `state` is the state wanted just before this operation (textbook form).
    pub back: Option<usize>,
}
pub fn matrix(t: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    prop_oneof![
        2 => proptest::collection::vec(gen::uniform(), t * t).prop_map(|v| (v, "uniform")),
        1 => Just((flatten(&cauchy(t)), "cauchy")),
        2 => (proptest::collection::vec(gen::uniform(), 2 * t)).prop_map(move |xy| {
            (flatten(&(0..t).map(|i| (0..t).map(|j| xy[i].add(&xy[t + j]).inv()).collect()).collect()), "cauchy-random")
        }),
        1 => proptest::collection::vec(0u64..20, t).prop_map(move |c| ((0..t * t).map(|k| F::from_u64(c[(k % t + t - k / t) % t])).collect(), "circulant")),
        2 => proptest::collection::vec(gen::fe(), t * t).prop_map(|v| (v, "special")),
        1 => (proptest::collection::vec(gen::fe(), t * t)).prop_map(move |mut v| { for i in 0..t { for j in 0..i { v[i * t + j] = v[j * t + i]; } } (v, "symmetric") }),
        1 => (proptest::collection::vec(gen::fe(), t * t)).prop_map(move |mut v| { for i in 0..t { for j in 0..i { v[i * t + j] = F::ZERO; } v[i * t + i] = F::from_u64(i as u64 + 2); } (v, "triangular") }),
        1 => (proptest::collection::vec(1u64..50, t)).prop_map(move |d| ((0..t * t).map(|k| F::from_u64(if k % t == k / t { d[k % t] + 1 } else { 1 })).collect(), "ones-plus-diagonal")),
    ]
    .boxed()
}
/// Exponents anywhere in `u32`, with the values next to powers of two and the extremes favoured.
fn wide_exponent() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => any::<u32>().prop_map(|e| e.max(1)),
        2 => (0u32..32, 0u32..3).prop_map(|(k, d)| (1u32 << k).wrapping_add(d).wrapping_sub(1).max(1)),
        1 => Just(u32::MAX),
        1 => (0u32..32, 0u32..32).prop_map(|(i, j)| 1 << i | 1 << j),
        1 => any::<u32>().prop_map(|e| e | 0x8000_0001),
    ]
    .boxed()
}
/// `shapes`: (width, full rounds, partial rounds); `inverse`: for the native permutation only, so also
/// generate the inverse S-box, and bound the exponents.
pub fn case(shapes: Vec<(usize, usize, usize)>, inverse: bool) -> BoxedStrategy<GenCase> {
    gen::one_of(0..shapes.len(), |i| {
            let (t, r_f, r_p) = shapes[i];
            let n = t * (r_f + r_p);
            // The field's `power` multiplies one factor at a time: natively the exponent is bounded by its cost.
            let most = (500_000 / (t * r_f + r_p)) as u32;
            let limit = move |e: u32| if inverse && e > most { e % most + 1 } else { e };
            let sbox = prop_oneof![
                3 => Just(Sbox::Exp(17)), 2 => Just(Sbox::Exp(3)), 2 => Just(Sbox::Exp(5)), 1 => Just(Sbox::Exp(1)), 1 => Just(Sbox::Exp(2)),
                1 => Just(Sbox::Exp(7)), 1 => Just(Sbox::Exp(11)), 1 => (1u32..300).prop_map(Sbox::Exp), if inverse { 3 } else { 1 } => Just(if inverse { Sbox::Inv } else { Sbox::Exp(13) }),
                1 => (1u32..70000).prop_map(move |e| Sbox::Exp(limit(e))),
                1 => wide_exponent().prop_map(move |e| Sbox::Exp(limit(e))),
            ];
            let arc = prop_oneof![
                4 => proptest::collection::vec(gen::uniform(), n),
                2 => proptest::collection::vec(gen::fe(), n),
                1 => gen::fe().prop_map(move |x| vec![x; n]),
                1 => Just(vec![F::ZERO; n]),
                1 => (0..n, gen::fe()).prop_map(move |(i, x)| { let mut v = vec![F::ZERO; n]; v[i] = x; v }),
            ];
            (sbox, matrix(t), arc, gen::words(t), proptest::option::weighted(0.3, 0..3 * (r_f + r_p))).prop_map(move |(sbox, (mds, k), arc, (state, _), back)| GenCase {
                t, r_f, r_p, sbox, mds_kind: k.into(), mds, arc, state, back,
            })
            .boxed()
        })
}
impl GenCase {
    pub fn params(&self) -> Params {
        Params { t: self.t, r_f: self.r_f, r_p: self.r_p, sbox: self.sbox, mds: unflatten(&self.mds, self.t), arc: unflatten(&self.arc, self.t) }
    }
    /// Whether the native permutation computes this in reasonable time (see `case`).
    pub fn affordable(&self) -> bool {
        !matches!(self.sbox, Sbox::Exp(e) if e as usize * (self.t * self.r_f + self.r_p) > 2_000_000)
    }
    pub fn input(&self, p: &Params) -> (Vec<F>, bool) {
        if let Some(k) = self.back {
            if let Some(s) = Back::new(p.ops_textbook(), p.sbox).undo(k, &self.state) {
                return (s, true);
            }
        }
        (self.state.clone(), false)
    }
}
