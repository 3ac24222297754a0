//! C18: round constants.
use crate::fields::{with_field, FIELDS};
use crate::input::InputParameters;
use std::convert::TryInto;
use ark_ff::{BigInteger, PrimeField};
use num_bigint::BigUint;
use poseidon_parameters::v1::{Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, RoundNumbers, SquareMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::model::{self, Params, Sbox};
use vcore::run::{must, Check, Info, Verdict};
use vcore::{gen, F};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    version: u8,
    field: usize,
    m: usize,
    t: usize,
    r_f: usize,
    r_p: usize,
    alpha: u32,
}
fn alpha(a: u32) -> Alpha {
    if a == 0 { Alpha::Inverse } else { Alpha::Exponent(a) }
}
/// (rows, columns, elements) as generated.
fn generated(c: &Case) -> Result<(usize, usize, Vec<BigUint>), String> {
    macro_rules! go {
        ($f:ty) => {{
            let input = must("InputParameters::generate", || InputParameters::generate(c.m, c.t, <$f as PrimeField>::MODULUS, true))?;
            let r = RoundNumbers { r_F: c.r_f, r_P: c.r_p };
            let arc: ArcMatrix<$f> = must("round constant generation", || {
                if c.version == 1 { crate::round_constants::v1_generate::<$f>(&input, r, alpha(c.alpha)) } else { crate::round_constants::v2_generate::<$f>(&input, r, alpha(c.alpha)) }
            })?;
            Ok((arc.n_rows(), arc.n_cols(), arc.elements().iter().map(|x| x.into_bigint().into()).collect()))
        }};
    }
    with_field!(c.field, go)
}
fn modulus(i: usize) -> (BigUint, usize) {
    macro_rules! go {
        ($f:ty) => {{
            let m = <$f as PrimeField>::MODULUS;
            (BigUint::from(m), m.as_ref().len())
        }};
    }
    with_field!(i, go)
}
/// The documented transcript.
fn expected(c: &Case, n: usize) -> Vec<BigUint> {
    let (p, limbs) = modulus(c.field);
    let mut pb = p.to_bytes_le();
    pb.resize(8 * limbs, 0);
    let a = if c.alpha == 0 { [255u8; 4] } else { c.alpha.to_le_bytes() };
    let mut t = merlin::Transcript::new(b"round-constants");
    for (label, msg) in [(&b"dom-sep"[..], &b"poseidon-paramgen"[..]), (b"t", &(c.t as u64).to_le_bytes()), (b"M", &(c.m as u64).to_le_bytes()), (b"p", &pb), (b"r_F", &[c.r_f as u8]), (b"r_P", &[c.r_p as u8]), (b"alpha", &a)] {
        // merlin wants static labels
        let label: &'static [u8] = match label { b"dom-sep" => b"dom-sep", b"t" => b"t", b"M" => b"M", b"p" => b"p", b"r_F" => b"r_F", b"r_P" => b"r_P", _ => b"alpha" };
        t.append_message(label, msg);
    }
    let mut buf = vec![0u8; (p.bits() as usize + 135) / 8];
    (0..n)
        .map(|_| {
            t.challenge_bytes(b"round-constant", &mut buf);
            BigUint::from_bytes_le(&buf) % &p
        })
        .collect()
}
fn transcript(c: &Case) -> Verdict {
    let (rows, cols, got) = generated(c)?;
    let total = c.r_f + c.r_p;
    let shape = if c.version == 1 { (total, c.t) } else { (c.r_f * c.t + c.r_p, 1) };
    if (rows, cols) != shape {
        return Err(format!("a {rows}x{cols} matrix of constants instead of {}x{}", shape.0, shape.1));
    }
    let want = expected(c, shape.0 * shape.1);
    if let Some(i) = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i])) {
        return Err(format!("constant {i} is {:?}, the transcript gives {}", got.get(i), want[i]));
    }
    if generated(c)?.2 != got {
        return Err("a second generation differs".into());
    }
    Ok(Info::new(true).class(format!("v{}", c.version)).class(format!("{} words", modulus(c.field).1)))
}
/// Two descriptions differing in one input give different constants.
fn bound(x: &(Case, Case)) -> Verdict {
    let (a, b) = x;
    if a == b || modulus(a.field).0 < BigUint::from(1u32) << 60 || modulus(b.field).0 < BigUint::from(1u32) << 60 {
        return Ok(Info::new(false));
    }
    let (ga, gb) = (generated(a)?.2, generated(b)?.2);
    let n = ga.len().min(gb.len());
    if let Some(i) = (0..n).find(|i| ga[*i] == gb[*i]) {
        return Err(format!("different descriptions, same constant at {i}"));
    }
    Ok(Info::new(n > 0))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opt {
    t: usize,
    r_f: usize,
    r_p: usize,
    alpha: u32,
    mds: Vec<F>,
    arc: Vec<F>,
    state: Vec<F>,
}
/// The BLS12-377 scalar field among the fields.
type Fq = crate::fields::BLS377;
fn to(x: &F) -> Fq {
    Fq::from_le_bytes_mod_order(&x.to_bytes())
}
fn from(x: &Fq) -> F {
    F::from_le_bytes_mod(&x.into_bigint().to_bytes_le())
}
fn optimised(c: &Opt) -> Verdict {
    let sbox = if c.alpha == 0 { Sbox::Inv } else { Sbox::Exp(c.alpha) };
    let p = Params { t: c.t, r_f: c.r_f, r_p: c.r_p, sbox, mds: model::unflatten(&c.mds, c.t), arc: model::unflatten(&c.arc, c.t) };
    let Some(mut q) = p.optimise() else { return Ok(Info::new(false).class("no optimised form")) };
    let arc = ArcMatrix(Matrix::new(c.r_f + c.r_p, c.t, c.arc.iter().map(to).collect::<Vec<Fq>>()));
    let mds = MdsMatrix(SquareMatrix::from_vec(c.mds.iter().map(to).collect::<Vec<Fq>>()));
    let r = RoundNumbers { r_F: c.r_f, r_P: c.r_p };
    let o = must("optimising the constants", || crate::round_constants::generate_optimized(&arc, &mds, &r))?;
    if (o.n_rows(), o.n_cols()) != (c.r_f + c.r_p, c.t) {
        return Err(format!("optimised constants are {}x{}", o.n_rows(), o.n_cols()));
    }
    q.oarc = model::unflatten(&o.elements().iter().map(from).collect::<Vec<F>>(), c.t);
    let (a, b) = (model::run(&p.ops_textbook(), sbox, &c.state), model::run(&p.ops_optimised(&q), sbox, &c.state));
    // with the inverse S-box both are undefined on the same states
    if a != b {
        return Err(format!("with plain constants {a:?}, with optimised constants {b:?}"));
    }
    Ok(Info::new(a.is_some()).class(if a.is_some() { "defined" } else { "zero S-box input" }))
}
fn cases() -> BoxedStrategy<Case> {
    let al = prop_oneof![1 => Just(0u32), 2 => Just(5u32), 2 => Just(17u32), 1 => 1u32..200, 1 => any::<u32>().prop_map(|x| x.max(1))];
    let m = prop_oneof![Just(128usize), Just(256), Just(80), 1usize..600, any::<u32>().prop_map(|x| x as usize)];
    (1u8..=2, 0..FIELDS, m, 1usize..12, (1usize..30).prop_map(|x| 2 * x), prop_oneof![1usize..60, 60usize..256], al).prop_map(|(version, field, m, t, r_f, r_p, alpha)| Case { version, field, m, t, r_f, r_p, alpha }).boxed()
}
fn pairs() -> BoxedStrategy<(Case, Case)> {
    (cases(), cases(), 0u8..6)
        .prop_map(|(a, b, k)| {
            let mut c = a.clone();
            match k {
                0 => c.field = b.field,
                1 => c.m = b.m,
                2 => c.t = b.t,
                3 => c.r_f = b.r_f,
                4 => c.r_p = b.r_p,
                _ => c.alpha = b.alpha,
            }
            (a, c)
        })
        .boxed()
}
fn matrix(t: usize) -> BoxedStrategy<Vec<F>> {
    prop_oneof![
        2 => proptest::collection::vec(gen::uniform(), t * t),
        1 => Just(model::flatten(&model::cauchy(t))),
        1 => proptest::collection::vec(gen::fe(), t * t),
        1 => proptest::collection::vec((0u64..20).prop_map(F::from_u64), t * t),
    ]
    .boxed()
}
fn opts() -> BoxedStrategy<Opt> {
    (2usize..8, 1usize..5, prop_oneof![3 => 1usize..8, 1 => 8usize..40])
        .prop_flat_map(|(t, h, r_p)| {
            let n = t * (2 * h + r_p);
            let arc = prop_oneof![3 => proptest::collection::vec(gen::uniform(), n), 1 => proptest::collection::vec(gen::fe(), n)];
            let al = prop_oneof![3 => Just(17u32), 1 => Just(0u32), 1 => 1u32..20];
            (matrix(t), arc, gen::words(t), al).prop_map(move |(mds, arc, (state, _), alpha)| Opt { t, r_f: 2 * h, r_p, alpha, mds, arc, state })
        })
        .boxed()
}
pub fn run(c: &mut Check) {
    let k = if c.variant.ends_with("checked") { 5 } else { 1 };
    c.part("transcript", "every case", 20_000 / k, 25, cases, transcript);
    c.part("binding", "the two descriptions differ in exactly one input and the field has at least 60 bits", 20_000 / k, 25, pairs, bound);
    c.part("optimised constants", "the optimised form exists and the S-box is defined on every intermediate value", 40_000 / k, 25, opts, optimised);
}
