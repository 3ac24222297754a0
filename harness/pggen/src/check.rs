//! C23.
use crate::big::{self, M};
use crate::fields::*;
use crate::input::InputParameters;
use ark_ff::{BigInteger, PrimeField};
use num_bigint::BigUint as B;
use poseidon_parameters::v1::{Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, PoseidonParameters, RoundNumbers, SquareMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::convert::TryInto;
use vcore::run::{must, subject, Check, Info, Verdict};
use vcore::{model, F};

/// Fields of 8 to 767 bits; the first few are below the 128 bits the matrix generation asks for.
macro_rules! with {
    ($i:expr, $m:ident) => {
        match $i {
            0 => $m!(F0),
            1 => $m!(F18),
            2 => $m!(F40),
            3 => $m!(F62),
            4 => $m!(F19),
            5 => $m!(F23),
            6 => $m!(F55),
            7 => $m!(F46),
            8 => $m!(F88),
            9 => $m!(F20),
            10 => $m!(F21),
            11 => $m!(BLS377),
            12 => $m!(F47),
            13 => $m!(F59),
            14 => $m!(F30),
            15 => $m!(F24),
            16 => $m!(F142),
            17 => $m!(F69),
            18 => $m!(F139),
            19 => $m!(F145),
            20 => $m!(F140),
            21 => $m!(F143),
            22 => $m!(F147),
            _ => unreachable!(),
        }
    };
}
const BLS: usize = 11;
const N: usize = 23;
/// Those without an acceptable exponent (the last ones of the list) come up more often than by chance.
fn field() -> BoxedStrategy<usize> {
    prop_oneof![6 => 0..N, 2 => Just(BLS), 1 => N - 5..N].boxed()
}

pub fn b<G: PrimeField>(x: &G) -> B {
    x.into_bigint().into()
}
pub fn of<G: PrimeField, X: MatrixOperations<G>>(m: &X) -> M {
    (0..m.n_rows()).map(|i| (0..m.n_cols()).map(|j| b(&m.get_element(i, j))).collect()).collect()
}
fn same(what: &str, got: &M, want: &M) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() || got[0].len() != want[0].len() {
        return Err(format!("{what} is {}x{} instead of {}x{}", got.len(), got[0].len(), want.len(), want[0].len()));
    }
    let (i, j) = (0..got.len()).flat_map(|i| (0..got[0].len()).map(move |j| (i, j))).find(|(i, j)| got[*i][*j] != want[*i][*j]).unwrap();
    Err(format!("{what} has {} at ({i}, {j}) instead of {}", got[i][j], want[i][j]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub field: usize,
    pub m: usize,
    pub t: usize,
    pub allow: bool,
    pub seed: u64,
}
/// What the stages give for this request, if they accept it.
fn stages<G: PrimeField>(c: &Case, version: u8) -> Option<(InputParameters<G::BigInt>, Alpha, RoundNumbers)> {
    subject(|| {
        let input = InputParameters::generate(c.m, c.t, G::MODULUS, c.allow);
        let alpha = crate::alpha::generate::<G>(G::MODULUS, c.allow);
        let rounds = if version == 1 { crate::rounds::v1_generate(&input, &alpha) } else { crate::rounds::v2_generate(&input, &alpha) };
        (input, alpha, rounds)
    })
    .ok()
}
pub fn check_v1<G: PrimeField>(c: &Case, q: &PoseidonParameters<G>) -> Result<(), String> {
    let p: B = G::MODULUS.into();
    let (input, alpha, rounds) = stages::<G>(c, 1).ok_or("parameters for a request that its stages refuse")?;
    if q.M != c.m {
        return Err(format!("security level {} instead of {}", q.M, c.m));
    }
    if q.alpha != alpha {
        return Err(format!("exponent {:?} instead of {alpha:?}", q.alpha));
    }
    let (full, partial) = (rounds.full(), rounds.partial());
    if (q.rounds.full(), q.rounds.partial()) != (full, partial) {
        return Err(format!("rounds {:?} instead of {rounds:?}", q.rounds));
    }
    let mds = big::cauchy(c.t, &p);
    same("the MDS matrix", &of(&q.mds), &mds)?;
    let arc = of(&crate::round_constants::v1_generate::<G>(&input, rounds, alpha));
    same("the matrix of round constants", &of(&q.arc), &arc)?;
    let d = big::derive(&mds, &arc, full, partial, &p);
    let o = &q.optimized_mds;
    same("M_hat", &of(&o.M_hat), &big::hat(&mds))?;
    same("v", &of(&o.v), &big::row(&mds))?;
    same("w", &of(&o.w), &big::column(&mds))?;
    same("M_prime", &of(&o.M_prime), &big::prime(&big::hat(&mds)))?;
    same("M_hat_inverse", &of(&o.M_hat_inverse), &d.m_hat_inverse)?;
    same("M_doubleprime", &of(&o.M_doubleprime), &d.m_doubleprime)?;
    same("M_inverse", &of(&o.M_inverse), &big::inverse(&mds, &p))?;
    same("M_i", &of(&o.M_i), &d.m_i)?;
    if b(&o.M_00) != mds[0][0] {
        return Err("M_00 is not the top left element".into());
    }
    if (o.v_collection.len(), o.w_hat_collection.len()) != (partial, partial) {
        return Err(format!("{} and {} sparse parts for {partial} partial rounds", o.v_collection.len(), o.w_hat_collection.len()));
    }
    for i in 0..partial {
        same(&format!("v_collection[{i}]"), &of(&o.v_collection[i]), &d.v[i])?;
        same(&format!("w_hat_collection[{i}]"), &of(&o.w_hat_collection[i]), &d.w_hat[i])?;
    }
    same("the matrix of optimised constants", &of(&q.optimized_arc), &d.arc)?;
    // the two forms are one permutation
    let got = big::Derived {
        m_hat_inverse: of(&o.M_hat_inverse),
        m_doubleprime: of(&o.M_doubleprime),
        m_i: of(&o.M_i),
        v: o.v_collection.iter().map(|m| of(m)).collect(),
        w_hat: o.w_hat_collection.iter().map(|m| of(m)).collect(),
        arc: of(&q.optimized_arc),
    };
    let e = match alpha {
        Alpha::Exponent(e) => B::from(e),
        Alpha::Inverse => &p - 2u32,
    };
    let mut x = B::from(c.seed);
    let state: Vec<B> = (0..c.t)
        .map(|_| {
            x = (&x * &x * 7u32 + &x * c.seed + 1u32) % &p;
            x.clone()
        })
        .collect();
    if big::textbook(&of(&q.mds), &of(&q.arc), full, partial, &e, &p, &state) != big::optimised(&of(&q.mds), &got, full, partial, &e, &p, &state) {
        return Err(format!("the optimised parameters give another permutation on {state:?}"));
    }
    Ok(())
}
fn bits(i: usize) -> u32 {
    macro_rules! go {
        ($f:ty) => {
            <$f as PrimeField>::MODULUS.num_bits()
        };
    }
    with!(i, go)
}
fn v1(c: &Case) -> Verdict {
    macro_rules! go {
        ($f:ty) => {{
            type G = $f;
            let r = subject(|| crate::v1::generate::<G>(c.m, c.t, G::MODULUS, c.allow));
            let small = bits(c.field) < 128;
            if small || stages::<G>(c, 1).is_none() {
                return match r {
                    Ok(_) => Err(if small { "parameters for a field below 128 bits, for which the matrix is not known to be secure".into() } else { "parameters for a request that its stages refuse".to_string() }),
                    Err(_) => Ok(Info::new(true).class("refused")),
                };
            }
            let q = r.map_err(|e| format!("generating parameters: {e}"))?;
            check_v1(c, &q)?;
            Ok(Info::new(true).class(format!("width {}", c.t)).class(format!("{} words", (bits(c.field) + 63) / 64)).class(match q.alpha {
                Alpha::Inverse => "inverse".to_string(),
                Alpha::Exponent(e) => format!("exponent {e}"),
            }))
        }};
    }
    with!(c.field, go)
}
/// The matrix alone, for wide states.
fn cauchy(x: &(usize, usize)) -> Verdict {
    let (field, t) = *x;
    macro_rules! go {
        ($f:ty) => {{
            type G = $f;
            let input = must("InputParameters::generate", || InputParameters::generate(128, t, G::MODULUS, true))?;
            let r = subject(|| crate::mds::v1_generate::<G>(&input));
            if bits(field) < 128 {
                return match r {
                    Ok(_) => Err("a matrix for a field below 128 bits".into()),
                    Err(_) => Ok(Info::new(true).class("refused")),
                };
            }
            let m = r.map_err(|e| format!("generating the matrix: {e}"))?;
            same("the MDS matrix", &of(&m), &big::cauchy(t, &G::MODULUS.into()))?;
            Ok(Info::new(true))
        }};
    }
    with!(field, go)
}
/// The published parameters.
fn published(t: &usize) -> Verdict {
    let t = *t;
    let q = must("generating parameters", || crate::v1::generate::<BLS377>(128, t, BLS377::MODULUS, false))?;
    let p = model::Params::shipped(t - 1);
    let o = p.optimise().unwrap();
    let big = |m: &Vec<Vec<F>>| -> M { m.iter().map(|r| r.iter().map(|x| B::from_bytes_le(&x.to_bytes())).collect()).collect() };
    if q.alpha != Alpha::Exponent(17) || (q.rounds.full(), q.rounds.partial(), q.M) != (8, 31, 128) {
        return Err(format!("{:?} {:?} {}", q.alpha, q.rounds, q.M));
    }
    same("the MDS matrix", &of(&q.mds), &big(&p.mds))?;
    same("the matrix of round constants", &of(&q.arc), &big(&p.arc))?;
    same("the matrix of optimised constants", &of(&q.optimized_arc), &big(&o.oarc))?;
    let x = &q.optimized_mds;
    same("M_hat", &of(&x.M_hat), &big(&o.m_hat))?;
    same("M_prime", &of(&x.M_prime), &big(&o.m_prime))?;
    same("M_doubleprime", &of(&x.M_doubleprime), &big(&o.m_doubleprime))?;
    same("M_inverse", &of(&x.M_inverse), &big(&o.m_inverse))?;
    same("M_hat_inverse", &of(&x.M_hat_inverse), &big(&o.m_hat_inverse))?;
    same("M_i", &of(&x.M_i), &big(&o.m_i))?;
    for i in 0..31 {
        same("v_collection", &of(&x.v_collection[i]), &big(&vec![o.v_collection[i].clone()]))?;
        same("w_hat_collection", &big::transpose(&of(&x.w_hat_collection[i])), &big(&vec![o.w_hat_collection[i].clone()]))?;
    }
    Ok(Info::new(true))
}
fn v2(c: &Case) -> Verdict {
    macro_rules! go {
        ($f:ty) => {{
            type G = $f;
            let r = subject(|| crate::v2::generate::<G>(c.m, c.t, G::MODULUS, c.allow));
            let wide = c.t < 2 || c.t > 3;
            let st = stages::<G>(c, 2);
            if wide || st.is_none() {
                return match r {
                    Ok(_) => Err(if wide { "parameters for a width without internal matrix".into() } else { "parameters for a request that its stages refuse".to_string() }),
                    Err(_) => Ok(Info::new(true).class("refused")),
                };
            }
            let (input, alpha, rounds) = st.unwrap();
            let q = r.map_err(|e| format!("generating parameters: {e}"))?;
            if (q.M, q.alpha, q.rounds.full(), q.rounds.partial()) != (c.m, alpha, rounds.full(), rounds.partial()) {
                return Err(format!("{} {:?} {:?} instead of {} {alpha:?} {rounds:?}", q.M, q.alpha, q.rounds, c.m));
            }
            let n = |x: u32| B::from(x);
            let want: M = if c.t == 2 { vec![vec![n(2), n(1)], vec![n(1), n(3)]] } else { vec![vec![n(2), n(1), n(1)], vec![n(1), n(2), n(1)], vec![n(1), n(1), n(3)]] };
            same("the internal matrix", &of(&q.m_i), &want)?;
            same("the external matrix", &of(&q.m_e), &want)?;
            let arc = of(&crate::round_constants::v2_generate::<G>(&input, rounds, alpha));
            same("the round constants", &of(&q.arc), &arc)?;
            if arc.len() * arc[0].len() != rounds.full() * c.t + rounds.partial() {
                return Err("wrong number of round constants".into());
            }
            Ok(Info::new(true).class(format!("width {}", c.t)))
        }};
    }
    with!(c.field, go)
}
/// circ(2 M4, M4, ..., M4)
fn external(x: &(usize, usize)) -> Verdict {
    let (field, t) = *x;
    macro_rules! go {
        ($f:ty) => {{
            type G = $f;
            let r = subject(|| crate::v2::external::generate::<G>(t));
            if t < 4 || t % 4 != 0 {
                return match r {
                    Ok(_) => Err(format!("an external matrix of width {t}")),
                    Err(_) => Ok(Info::new(true).class("refused")),
                };
            }
            let m = r.map_err(|e| format!("generating the external matrix: {e}"))?;
            let m4 = [[5u32, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
            let want: M = (0..t).map(|i| (0..t).map(|j| B::from(m4[i % 4][j % 4] * if t > 4 && i / 4 == j / 4 { 2 } else { 1 })).collect()).collect();
            same("the external matrix", &of(&m), &want)?;
            Ok(Info::new(true).class(format!("width {t}")))
        }};
    }
    with!(field, go)
}
/// The emitted source, read back.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Emit {
    field: usize,
    m: usize,
    widths: Vec<usize>,
    allow: bool,
}
fn emit(c: &Emit) -> Verdict {
    macro_rules! go {
        ($f:ty) => {{
            type G = $f;
            let one = |t: usize| Case { field: c.field, m: c.m, t, allow: c.allow, seed: 3 };
            let code = subject(|| crate::v1::poseidon_build::compile::<G>(c.m, c.widths.clone(), G::MODULUS, c.allow));
            if !c.widths.is_empty() && (bits(c.field) < 128 || c.widths.iter().any(|t| stages::<G>(&one(*t), 1).is_none())) {
                return match code {
                    Ok(_) => Err("source for a request that must be refused".into()),
                    Err(_) => Ok(Info::new(true).class("refused")),
                };
            }
            let code = code.map_err(|e| format!("emitting source: {e}"))?;
            let fns = crate::emitted::read(&code)?;
            let names: Vec<String> = c.widths.iter().map(|t| format!("rate_{}", t - 1)).collect();
            if fns.iter().map(|f| f.name.clone()).collect::<Vec<_>>() != names {
                return Err(format!("the source defines {:?} instead of {names:?}", fns.iter().map(|f| &f.name).collect::<Vec<_>>()));
            }
            for (f, t) in fns.iter().zip(&c.widths) {
                let q = crate::v1::generate::<G>(c.m, *t, G::MODULUS, c.allow);
                // the parameters themselves are v1's business
                f.compare(&crate::emitted::expected(&q, *t)).map_err(|e| format!("{}: {e}", f.name))?;
            }
            Ok(Info::new(!c.widths.is_empty()).class(format!("{} functions", fns.len())))
        }};
    }
    with!(c.field, go)
}
fn level() -> BoxedStrategy<usize> {
    prop_oneof![4 => Just(128usize), 1 => Just(80), 1 => Just(256), 4 => 20usize..257].boxed()
}
fn cases(widths: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (field(), level(), widths, any::<bool>(), any::<u64>()).prop_map(|(field, m, t, allow, seed)| Case { field, m, t, allow, seed }).boxed()
}
pub fn run(c: &mut Check) {
    let k = if c.variant.ends_with("checked") { 4 } else { 1 };
    c.exhaustive("published", "every case", (2..=8).collect(), published);
    c.part("Poseidon", "every case: a request that is refused as it must be, or a full set of parameters compared with the documented derivation and run in both forms", 1_600 / k, 25, || prop_oneof![12 => cases(2..11), 1 => cases(11..20)].boxed(), v1);
    c.part("Poseidon2", "every case", 1_600 / k, 25, || prop_oneof![4 => cases(2..4), 1 => cases(1..9)].boxed(), v2);
    let wide: Vec<(usize, usize)> = (2..=130).map(|t| (BLS, t)).chain((0..N).flat_map(|f| vec![2usize, 3, 7, 20, 43, 86, 129].into_iter().map(move |t| (f, t)))).collect();
    c.exhaustive("Cauchy matrices", "every case", wide, cauchy);
    let all: Vec<(usize, usize)> = (0..N).flat_map(|f| (0..33).map(move |t| (f, t))).collect();
    c.exhaustive("external matrix", "every case", all, external);
    c.part(
        "emitted source",
        "at least one function is emitted or the request is refused",
        600 / k,
        25,
        || (field(), level(), proptest::collection::vec(2usize..8, 0..4), any::<bool>()).prop_map(|(field, m, widths, allow)| Emit { field, m, widths, allow }).boxed(),
        emit,
    );
}
