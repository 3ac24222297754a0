//! Requests on stdin, one per line: `OP WORD...` with words in hexadecimal (big-endian, any
//! length up to 64 digits). One answer line each: the resulting words, `panic ...`, or
//! `unsupported`.
use decaf377::Fq;
use poseidon377::*;
use poseidon_parameters::v1::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn parse(s: &str) -> Fq {
    let s = format!("{s:0>64}");
    let mut b = [0u8; 32];
    for i in 0..32 {
        b[31 - i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    Fq::from_le_bytes_mod_order(&b)
}
fn show(q: &Fq) -> String {
    let h: String = q.to_bytes().iter().rev().map(|b| format!("{b:02x}")).collect();
    let h = h.trim_start_matches('0');
    if h.is_empty() { "0".into() } else { h.into() }
}
fn shows<'a>(v: impl IntoIterator<Item = &'a Fq>) -> String {
    v.into_iter().map(show).collect::<Vec<_>>().join(" ")
}
fn hash(w: &[Fq]) -> Fq {
    let (d, v) = (&w[0], &w[1..]);
    match v.len() {
        1 => hash_1(d, v[0]),
        2 => hash_2(d, (v[0], v[1])),
        3 => hash_3(d, (v[0], v[1], v[2])),
        4 => hash_4(d, (v[0], v[1], v[2], v[3])),
        5 => hash_5(d, (v[0], v[1], v[2], v[3], v[4])),
        6 => hash_6(d, (v[0], v[1], v[2], v[3], v[4], v[5])),
        7 => hash_7(d, (v[0], v[1], v[2], v[3], v[4], v[5], v[6])),
        _ => unreachable!(),
    }
}
fn permute<const T: usize, const T1: usize, const TT: usize, const TT1: usize, const R: usize, const C: usize, const N: usize, const RP: usize>(
    p: &PoseidonParameters<T, T1, TT, TT1, R, C, N, RP>,
    w: &[Fq],
    optimised: bool,
) -> String {
    let a: [Fq; T] = w.to_vec().try_into().unwrap();
    let mut i = Instance::new(p);
    let r = if optimised { i.n_to_1_fixed_hash(&a) } else { i.unoptimized_n_to_1_fixed_hash(a) };
    format!("{} {}", show(&r), shows(&i.output_words()))
}
fn dump<const T: usize, const T1: usize, const TT: usize, const TT1: usize, const R: usize, const C: usize, const N: usize, const RP: usize>(
    p: &PoseidonParameters<T, T1, TT, TT1, R, C, N, RP>,
) -> String {
    let o = &p.optimized_mds;
    let mut s = format!("{} {:?} {} {}", p.M, p.alpha, p.rounds.full(), p.rounds.partial());
    for m in [p.mds.elements(), p.arc.elements(), p.optimized_arc.elements(), o.M_hat.elements(), o.v.elements(), o.w.elements(), o.M_prime.elements(), o.M_doubleprime.elements(), o.M_inverse.elements(), o.M_hat_inverse.elements(), o.M_i.elements()] {
        s += " | ";
        s += &shows(m);
    }
    s += " | ";
    s += &show(&o.M_00);
    for c in o.v_collection.iter() {
        s += " | ";
        s += &shows(c.elements());
    }
    for c in o.w_hat_collection.iter() {
        s += " | ";
        s += &shows(c.elements());
    }
    s
}
macro_rules! by_width {
    ($t:expr, $p:ident => $e:expr) => {
        match $t {
            2 => { let $p = &RATE_1_PARAMS; $e }
            3 => { let $p = &RATE_2_PARAMS; $e }
            4 => { let $p = &RATE_3_PARAMS; $e }
            5 => { let $p = &RATE_4_PARAMS; $e }
            6 => { let $p = &RATE_5_PARAMS; $e }
            7 => { let $p = &RATE_6_PARAMS; $e }
            8 => { let $p = &RATE_7_PARAMS; $e }
            _ => unreachable!(),
        }
    };
}
fn square<const N: usize, const NN: usize>(w: &[Fq]) -> String {
    let m = SquareMatrix::<N, NN>::new(w);
    let inv = match m.inverse() {
        Ok(i) => shows(i.elements()),
        Err(_) => "singular".into(),
    };
    let product: SquareMatrix<N, NN> = square_mat_mul(&m, &m.transpose());
    format!("{} | {} | {}", show(&m.determinant()), inv, shows(product.elements()))
}
#[cfg(feature = "r1cs")]
fn circuit(w: &[Fq]) -> String {
    use ark_r1cs_std::prelude::*;
    use decaf377::r1cs::FqVar;
    use poseidon377::r1cs as g;
    let cs = ark_relations::r1cs::ConstraintSystem::<Fq>::new_ref();
    let v: Vec<FqVar> = w.iter().map(|x| FqVar::new_witness(cs.clone(), || Ok(*x)).unwrap()).collect();
    let (d, x) = (&v[0], |i: usize| v[i].clone());
    let o = match w.len() - 1 {
        1 => g::hash_1(cs.clone(), d, x(1)),
        2 => g::hash_2(cs.clone(), d, (x(1), x(2))),
        3 => g::hash_3(cs.clone(), d, (x(1), x(2), x(3))),
        4 => g::hash_4(cs.clone(), d, (x(1), x(2), x(3), x(4))),
        5 => g::hash_5(cs.clone(), d, (x(1), x(2), x(3), x(4), x(5))),
        6 => g::hash_6(cs.clone(), d, (x(1), x(2), x(3), x(4), x(5), x(6))),
        7 => g::hash_7(cs.clone(), d, (x(1), x(2), x(3), x(4), x(5), x(6), x(7))),
        _ => unreachable!(),
    }
    .unwrap();
    format!("{} {}", show(&o.value().unwrap()), cs.is_satisfied().unwrap())
}
#[cfg(not(feature = "r1cs"))]
fn circuit(_: &[Fq]) -> String {
    "unsupported".into()
}
fn answer(op: &str, w: &[Fq]) -> String {
    match op {
        "hash" => show(&hash(w)),
        "optimised" => by_width!(w.len(), p => permute(p, w, true)),
        "textbook" => by_width!(w.len(), p => permute(p, w, false)),
        "params" => by_width!(w.len(), p => dump(p)),
        "circuit" => circuit(w),
        "square" => match w.len() {
            1 => square::<1, 1>(w),
            4 => square::<2, 4>(w),
            9 => square::<3, 9>(w),
            16 => square::<4, 16>(w),
            25 => square::<5, 25>(w),
            _ => unreachable!(),
        },
        _ => panic!("bad request"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let op = it.next().unwrap();
        let w: Vec<Fq> = it.map(parse).collect();
        let r = catch_unwind(AssertUnwindSafe(|| answer(op, &w))).unwrap_or_else(|e| {
            format!("panic {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())))
        });
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
