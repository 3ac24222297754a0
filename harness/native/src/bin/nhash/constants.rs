//! C10: shipped parameters against the documented generation procedure.
use native::params::Raw;
use native::raw;
use poseidon_parameters::v1::Alpha;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model::*;
use vcore::run::{must, Check, Info};
use vcore::F;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ElemCase {
    rate: usize,
    field: String,
    index: usize,
}
fn tables(r: &Raw) -> Vec<(&'static str, Vec<F>)> {
    let n = |x: usize| F::from_u64(x as u64);
    vec![
        ("security level", vec![n(r.m)]),
        ("exponent", vec![match r.alpha { Alpha::Exponent(e) => n(e as usize), Alpha::Inverse => F::ONE.neg() }]),
        ("full rounds", vec![n(r.r_f)]),
        ("partial rounds", vec![n(r.r_p)]),
        ("mds", flatten(&r.mds)),
        ("arc", flatten(&r.arc)),
        ("optimized_arc", flatten(&r.opt.oarc)),
        ("M_hat", flatten(&r.opt.m_hat)),
        ("v", r.opt.v.clone()),
        ("w", r.opt.w.clone()),
        ("M_prime", flatten(&r.opt.m_prime)),
        ("M_doubleprime", flatten(&r.opt.m_doubleprime)),
        ("M_inverse", flatten(&r.opt.m_inverse)),
        ("M_hat_inverse", flatten(&r.opt.m_hat_inverse)),
        ("M_00", vec![r.opt.m_00]),
        ("M_i", flatten(&r.opt.m_i)),
        ("v_collection", r.opt.v_collection.concat()),
        ("w_hat_collection", r.opt.w_hat_collection.concat()),
    ]
}
fn expected(rate: usize) -> Raw {
    let s = &shipped()[rate - 1];
    Raw { m: 128, alpha: Alpha::Exponent(17), r_f: 8, r_p: 31, mds: s.params.mds.clone(), arc: s.params.arc.clone(), opt: s.opt.clone() }
}
pub fn c10(c: &mut Check) {
    let got: Vec<_> = (1..=7).map(|r| must("reading parameters", || tables(&raw(r)))).collect();
    let want: Vec<_> = (1..=7).map(|r| tables(&expected(r))).collect();
    let mut cases = vec![];
    for rate in 1..=7usize {
        for (f, v) in &want[rate - 1] {
            // one extra index checks the length
            for index in 0..=v.len() {
                cases.push(ElemCase { rate, field: f.to_string(), index });
            }
        }
    }
    c.exhaustive(
        "every-element",
        "every element of every field of the seven published parameter sets (and each field's length); expected values come from an independent implementation of the documented procedure; non-trivial: an element (not a length)",
        cases,
        |k| {
            let g = got[k.rate - 1].as_ref().map_err(|e| e.clone())?;
            let g = &g.iter().find(|x| x.0 == k.field).unwrap().1;
            let w = &want[k.rate - 1].iter().find(|x| x.0 == k.field).unwrap().1;
            if k.index == w.len() {
                if g.len() != w.len() {
                    return Err(format!("rate {} {}: {} elements instead of {}", k.rate, k.field, g.len(), w.len()));
                }
                return Ok(Info::new(false).class("length"));
            }
            if g.get(k.index) != Some(&w[k.index]) {
                return Err(format!("rate {} {}[{}] is {:?}, the documented procedure gives {:?}", k.rate, k.field, k.index, g.get(k.index), w[k.index]));
            }
            Ok(Info::new(true).class(k.field.clone()))
        },
    );
    // All square submatrices of every published MDS matrix.
    let mut subs = vec![];
    for rate in 1..=7usize {
        let t = rate + 1;
        for rows in 1u32..1 << t {
            for cols in 1u32..1 << t {
                if rows.count_ones() == cols.count_ones() {
                    subs.push((rate, rows, cols));
                }
            }
        }
    }
    let mds: Vec<Mat> = (1..=7).map(|r| raw(r).mds).collect();
    c.exhaustive("mds-submatrices", "every square submatrix of every published MDS matrix is regular; all are non-trivial", subs, |(rate, rows, cols)| {
        let m: Mat = mds[rate - 1]
            .iter()
            .enumerate()
            .filter(|(i, _)| rows >> i & 1 == 1)
            .map(|(_, r)| r.iter().enumerate().filter(|(j, _)| cols >> j & 1 == 1).map(|(_, x)| *x).collect())
            .collect();
        if det(&m).is_zero() {
            return Err(format!("rate {rate}: the submatrix rows {rows:b} columns {cols:b} is singular"));
        }
        Ok(Info::new(true).class(format!("size-{}", m.len())))
    });
    // Algebraic relations on random vectors, without the expected values.
    c.part(
        "relations",
        "a random vector through both sides of each published matrix relation (M*M_inverse, M_hat*M_hat_inverse, M = M_prime*M_doubleprime, sparse rounds composed with M_i equal powers of M); non-trivial: vector not zero",
        40_000,
        20,
        || gen::any_state().prop_map(|(r, w, _)| (r, w)).boxed(),
        |(rate, x)| {
            let p = raw(*rate);
            let o = &p.opt;
            let bad = |s: &str| Err(format!("rate {rate}: {s} fails on {x:?}"));
            if mat_vec(&p.mds, &mat_vec(&o.m_inverse, x)) != *x || mat_vec(&o.m_inverse, &mat_vec(&p.mds, x)) != *x {
                return bad("M * M_inverse = 1");
            }
            let y = &x[1..];
            if mat_vec(&o.m_hat, &mat_vec(&o.m_hat_inverse, y)) != *y {
                return bad("M_hat * M_hat_inverse = 1");
            }
            if mat_vec(&p.mds, x) != mat_vec(&o.m_prime, &mat_vec(&o.m_doubleprime, x)) {
                return bad("M = M_prime * M_doubleprime");
            }
            // With an identity S-box and no constants, the optimised partial rounds equal M^r_P.
            let mut a = x.clone();
            for _ in 0..p.r_p {
                a = mat_vec(&p.mds, &a);
            }
            let mut b = mat_vec(&o.m_i, x);
            for k in (0..p.r_p).rev() {
                let op = Op::Sparse { m00: o.m_00, v: o.v_collection[k].clone(), w: o.w_hat_collection[k].clone() };
                apply(&op, Sbox::Exp(1), &mut b);
            }
            if a != b {
                return bad("sparse factorisation of M^r_P");
            }
            Ok(Info::new(x.iter().any(|w| !w.is_zero())).class(format!("rate-{rate}")))
        },
    );
}
