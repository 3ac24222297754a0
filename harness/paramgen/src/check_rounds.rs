//! C17: round numbers, against an independent evaluation of the published bounds.
use crate::input::InputParameters;
use std::convert::TryInto;
use ark_ff::{BigInt, BigInteger};
use num_bigint::BigUint;
use poseidon_parameters::v1::{Alpha, RoundNumbers};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::run::{subject, Check, Info, Verdict};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Poseidon version.
    version: u8,
    m: usize,
    t: usize,
    /// Exponent, 0 for the inverse S-box.
    alpha: u32,
    /// Modulus, big-endian hexadecimal.
    p: String,
    /// Extra 64-bit words to store it in.
    extra: usize,
}
impl Case {
    fn p(&self) -> BigUint {
        BigUint::parse_bytes(self.p.as_bytes(), 16).unwrap()
    }
}

/// Binary logarithm, correct to about 1e-13.
pub fn log2(p: &BigUint) -> f64 {
    let b = p.bits();
    let top: u64 = (if b > 64 { p >> (b - 64) } else { p << (64 - b) }).try_into().unwrap();
    (top as f64 / 2f64.powi(63)).log2() + (b - 1) as f64
}
/// log_a(t), exact where it is an integer.
fn log_exact(a: u32, t: usize) -> Option<f64> {
    let (mut x, mut k) = (1usize, 0);
    while x < t {
        x = x.saturating_mul(a as usize);
        k += 1;
    }
    (x == t).then(|| k as f64)
}
struct Bounds {
    full: usize,
    /// Each choice needs its (scaled) total to exceed this.
    total: usize,
}
/// `e` moves everything that is not exactly known before it is rounded.
fn bounds(c: &Case, p: &BigUint, e: f64) -> Bounds {
    let (m, t) = (c.m as f64, c.t as f64);
    let lp = log2(p);
    let floor_lp = (p.bits() - 1) as f64;
    let a = c.alpha as f64;
    // statistical attacks, 5.5.1
    let full = {
        let (cc, exact) = match c.alpha {
            0 => (2.0, true),
            x => ((a - 1.0).log2(), (x - 1).is_power_of_two()),
        };
        let rhs = (floor_lp - cc) * (t + 1.0);
        if m <= if exact { rhs } else { rhs + e } { 6 } else { 10 }
    };
    // min(M, log2 p), with whether it is exact
    let (mn, mn_exact) = if BigUint::from(1u32) << c.m <= *p { (m, true) } else { (lp, false) };
    let ceil = |x: f64, exact: bool| if exact { x.ceil() } else { (x + e).ceil() };
    let total = if c.alpha == 0 {
        let lt = match log_exact(2, c.t) {
            Some(k) => k,
            None => t.log2().ceil(),
        };
        let interpolation = lt + ceil(0.5 * mn, mn_exact);
        let g1 = ceil(0.5 * mn, mn_exact) + lt;
        let g2a = ((c.m + c.t) / (c.t + 1)) as f64; // ceil(M / (t + 1))
        let g2 = t - 1.0 + lt + g2a.min(ceil(0.5 * lp, false));
        interpolation.max(g1).max(g2).floor()
    } else {
        let k = 2f64.ln() / a.ln();
        let inner = ceil(k * mn, false);
        let interpolation = match log_exact(c.alpha, c.t) {
            Some(x) => inner + x,
            None => (inner + t.ln() / a.ln() + e).ceil(),
        };
        let g1 = k * (m / 3.0).min(lp / 2.0);
        let g2 = t - 1.0 + (k * m / (t + 1.0)).min(k * lp / 2.0);
        interpolation.max((g1.max(g2) + e).floor())
    };
    Bounds { full, total: total as usize }
}
/// 2023/537, section 4.3, item 1, as documented in the crate: the bit size of the binomial
/// coefficient, doubled, against the security level.
fn groebner_2023(c: &Case, r_f: usize, r_p: usize) -> bool {
    let r = c.t / 3;
    let over = (r_f - 1) * c.t + r_p + r + r * (r_f / 2) + r_p + c.alpha as usize;
    let under = r * (r_f / 2) + r_p + c.alpha as usize;
    let k = under.min(over - under);
    let mut acc = BigUint::from(1u32);
    for i in 0..k {
        acc = acc * (over - i) / (i + 1);
        // it only grows up to the middle
        if 2 * acc.bits() as usize >= c.m {
            return true;
        }
    }
    2 * acc.bits() as usize >= c.m
}
/// The best choice: (full, partial) with the margin.
fn best(c: &Case, p: &BigUint, e: f64) -> Option<(usize, usize)> {
    let b = bounds(c, p, e);
    let mut choice: Option<((usize, usize), (usize, usize))> = None;
    for r_f in (b.full.max(4)..100).step_by(2) {
        for r_p in 1..400 {
            let scaled = if c.alpha == 0 {
                match log_exact(2, c.t) {
                    Some(k) => r_f * k as usize + r_p,
                    None => (r_f as f64 * (c.t as f64).log2() + e).floor() as usize + r_p,
                }
            } else {
                r_f + r_p
            };
            if scaled <= b.total {
                continue;
            }
            let with = (r_f + 2, (43 * r_p + 39) / 40);
            let key = (c.t * with.0 + with.1, r_f);
            if choice.map_or(false, |(k, _)| k <= key) {
                // more partial rounds only cost more
                break;
            }
            if c.version == 2 && !groebner_2023(c, r_f, r_p) {
                continue;
            }
            choice = Some((key, with));
            break;
        }
    }
    choice.map(|x| x.1)
}
fn call<T: BigInteger>(c: &Case, p: T) -> Result<(f64, Result<RoundNumbers, String>), String> {
    let input = vcore::run::must("InputParameters::generate", || InputParameters::generate(c.m, c.t, p, c.alpha == 0))?;
    let alpha = if c.alpha == 0 { Alpha::Inverse } else { Alpha::Exponent(c.alpha) };
    let r = subject(|| if c.version == 1 { crate::rounds::v1_generate(&input, &alpha) } else { crate::rounds::v2_generate(&input, &alpha) });
    Ok((input.log_2_p, r))
}
fn check(c: &Case) -> Verdict {
    let p = c.p();
    let d = p.to_u64_digits();
    macro_rules! size {
        ($($n:literal)*) => {
            match (d.len() + c.extra).min(13) {
                $(k if k <= $n => {
                    let mut l = [0u64; $n];
                    l[..d.len()].copy_from_slice(&d);
                    call(c, BigInt::<$n>(l))?
                })*
                _ => unreachable!(),
            }
        };
    }
    let (lp, got) = size!(1 2 3 4 5 6 8 12 13);
    let truth = log2(&p);
    if (lp - truth).abs() > 1e-9 {
        return Err(format!("log2 of a {}-bit modulus is {truth}, computed {lp}", p.bits()));
    }
    if (c.version == 1 && c.m > 256) || (c.version == 2 && c.alpha == 0) {
        return match got {
            Ok(r) => Err(format!("an unsupported request was answered with {r:?}")),
            Err(_) => Ok(Info::new(false).class("refused")),
        };
    }
    let mut wants: Vec<Option<(usize, usize)>> = vec![];
    for e in [0.0, 1e-9, -1e-9] {
        let w = best(c, &p, e);
        if !wants.contains(&w) {
            wants.push(w);
        }
    }
    let g = got.as_ref().ok().map(|r| (r.full(), r.partial()));
    if !wants.contains(&g) {
        return Err(format!("{}-bit modulus, expected (full, partial) = {:?}, got {got:?}", p.bits(), wants[0]));
    }
    let b = bounds(c, &p, 0.0);
    if g.map_or(false, |x| x.0 % 2 == 1) {
        return Err(format!("{g:?}: an odd number of full rounds cannot be split into two halves"));
    }
    Ok(Info::new(g.is_some())
        .class(format!("v{}", c.version))
        .class(if g.is_none() { "no choice exists" } else if b.full == 6 { "6 full rounds are enough" } else { "10 full rounds needed" })
        .class(g.map_or("none".into(), |(f, _)| format!("{f} full rounds")))
        .class(if c.alpha == 0 { "inverse" } else { "exponent" })
        .class(if (BigUint::from(1u32) << c.m) <= p { "limited by M" } else { "limited by p" })
        .class(if wants.len() > 1 { "near tie" } else { "exact" }))
}
fn modulus() -> BoxedStrategy<String> {
    let bits = prop_oneof![1 => 7u64..=19, 3 => 20u64..=64, 3 => 65u64..=130, 3 => 131u64..=300, 1 => 301u64..=780, 2 => prop::sample::select(vec![31u64, 51, 61, 64, 99, 127, 128, 147, 195, 243, 254, 255, 256, 377, 381, 521])];
    (bits, any::<[u64; 13]>(), 0u8..6, 1u32..40)
        .prop_map(|(b, w, kind, k)| {
            let one = BigUint::from(1u32);
            let r = BigUint::from_bytes_le(&w.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
            let top = &one << (b - 1);
            let p = match kind {
                0 => &top + k,                          // just above a power of two
                1 => (&one << b) - k,                   // just below
                2 => &top + (r % (&top >> 6)),          // leading bits 1000000
                3 => (&one << b) - 1u32 - (r % (&top >> 6)), // leading bits 1111111
                _ => &top + (r % &top),
            };
            (p | one).to_str_radix(16)
        })
        .boxed()
}
fn cases() -> BoxedStrategy<Case> {
    let m = prop_oneof![3 => Just(128usize), 2 => Just(256usize), 1 => Just(80usize), 6 => 10usize..=256, 1 => 257usize..600];
    let t = prop_oneof![4 => 2usize..=8, 2 => 9usize..=24, 1 => 25usize..=64, 1 => 65usize..=520];
    let alpha = prop_oneof![2 => Just(0u32), 3 => Just(3u32), 3 => Just(5u32), 2 => Just(7u32), 3 => Just(17u32), 3 => prop::sample::select(vec![9u32, 11, 13, 19, 23, 25, 27, 29, 31, 33, 37, 41, 43, 49, 65]), 1 => (1u32..150).prop_map(|x| 2 * x + 1)];
    (1u8..=2, m, t, alpha, modulus(), 0usize..2).prop_map(|(version, m, t, alpha, p, extra)| Case { version, m, t, alpha, p, extra }).boxed()
}
/// Moduli chosen so that the statistical bound or the algebraic ones are decided by a small margin.
fn tight() -> BoxedStrategy<Case> {
    (cases(), 0u8..3, -2i64..=2)
        .prop_map(|(mut c, kind, d)| {
            let bits = c.p().bits() as i64;
            let m = match kind {
                // M near (floor(log2 p) - C)(t + 1)
                0 => {
                    let cc = if c.alpha == 0 { 2.0 } else { (c.alpha as f64 - 1.0).log2() };
                    ((bits - 1) as f64 - cc) * (c.t as f64 + 1.0)
                }
                // M near log2 p
                1 => bits as f64,
                // M / 3 near log2(p) / 2
                _ => bits as f64 * 1.5,
            };
            let m = m as i64 + d;
            if (8..=256).contains(&m) {
                c.m = m as usize;
            }
            c
        })
        .boxed()
}
/// The published tables: they tie both the code and the oracle above to the paper.
fn published(i: usize) -> Verdict {
    let (version, m, t, alpha, p, r_f, r_p) = crate::tables::ROWS[i];
    let c = Case { version, m, t, alpha, p: p.into(), extra: 0 };
    if best(&c, &c.p(), 0.0) != Some((r_f, r_p)) {
        panic!("the oracle disagrees with the paper on {c:?}");
    }
    check(&c)
}
pub fn run(c: &mut Check) {
    c.exhaustive("published tables", "every row", (0..crate::tables::ROWS.len()).collect(), |&i| published(i));
    let k = if c.variant.ends_with("checked") { 5 } else { 1 };
    c.part("round numbers", "the request is supported and a choice exists", 16_000 / k, 25, cases, check);
    c.part("round numbers near a bound", "the request is supported and a choice exists", 16_000 / k, 25, tight, check);
}
