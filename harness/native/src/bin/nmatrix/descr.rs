//! C24: S-box and round-number descriptions.
use poseidon_parameters::v1::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::run::{must, Check, Info};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    SetFull(usize),
    SetPartial(usize),
    AddFull(usize),
    AddPartial(usize),
    /// go on with a copy; the original is changed and must not influence it
    Copy(usize),
}
fn number() -> BoxedStrategy<usize> {
    prop_oneof![3 => 0usize..70, 2 => 0usize..600, 1 => (0u32..40).prop_map(|k| 1usize << k), 1 => (0usize..1 << 40)].boxed()
}
fn exponent() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..300,
        2 => (0u32..32, 0u32..3).prop_map(|(k, d)| (1u32 << k).wrapping_add(d).wrapping_sub(1)),
        1 => any::<u16>().prop_map(|x| x as u32),
        1 => any::<u16>().prop_map(|x| (x as u32) << 16),
        2 => any::<u32>(),
    ]
    .boxed()
}
fn alpha(e: Option<u32>) -> Alpha {
    match e {
        Some(x) => Alpha::Exponent(x),
        None => Alpha::Inverse,
    }
}
fn readings(x: Option<u32>) -> Result<(), String> {
    let al = alpha(x);
    let want = match x {
        Some(v) => [(v & 255) as u8, (v >> 8 & 255) as u8, (v >> 16 & 255) as u8, (v >> 24) as u8],
        None => [255; 4],
    };
    let got = al.to_bytes_le();
    if got != want {
        return Err(format!("{al:?} has bytes {got:?} instead of {want:?}"));
    }
    let f: f64 = al.into();
    let wf = x.map_or(-1.0, |v| v as f64);
    if f != wf {
        return Err(format!("{al:?} is {f} as a float instead of {wf}"));
    }
    if (al == Alpha::Inverse) != x.is_none() {
        return Err(format!("{al:?} == Inverse is {}", al == Alpha::Inverse));
    }
    Ok(())
}
pub fn c24(c: &mut Check) {
    let n = if c.variant == "checked" { 100_000 } else { 1_000_000 };
    let e = || prop_oneof![9 => exponent().prop_map(Some), 1 => Just(None)];
    c.part(
        "exponents",
        "two S-boxes (exponent or inverse): bytes little-endian (minus one for the inverse), float value, equality, and different bytes for different S-boxes (exponent 2^32-1, which has the bytes of the inverse, excepted); non-trivial: not two equal small exponents",
        n,
        25,
        move || (e(), e()).boxed(),
        |(a, b)| {
            for x in [a, b] {
                must("the accessors", || readings(*x))??;
            }
            let (x, y) = (alpha(*a), alpha(*b));
            if (x == y) != (a == b) {
                return Err(format!("{x:?} == {y:?} is {}", x == y));
            }
            let ambiguous = [a, b].iter().any(|x| **x == Some(u32::MAX));
            if !ambiguous && (x.to_bytes_le() == y.to_bytes_le()) != (a == b) {
                return Err(format!("{x:?} and {y:?} have bytes {:?} and {:?}", x.to_bytes_le(), y.to_bytes_le()));
            }
            Ok(Info::new(a != b || a.map_or(true, |x| x > 255)).class(if a.is_none() || b.is_none() { "with inverse" } else { "exponents" }))
        },
    );
    // a block of 2^20 consecutive exponents per case
    let blocks: Vec<u32> = (0..4096).filter(|b| c.variant != "checked" || b % 128 == 0 || b % 128 == 127).collect();
    c.exhaustive("every-exponent", "blocks of 2^20 consecutive exponents: bytes, float value, not equal to the inverse; default build: all 2^32 exponents; checked build: 64 blocks; non-trivial: every block", blocks, |b| {
        for i in 0..1u32 << 20 {
            let x = (b << 20) | i;
            if readings(Some(x)).is_err() {
                must("the accessors", || readings(Some(x)))??;
            }
        }
        Ok(Info::new(true))
    });
    let op = || {
        prop_oneof![
            number().prop_map(Op::SetFull),
            number().prop_map(Op::SetPartial),
            (0usize..100).prop_map(Op::AddFull),
            (0usize..100).prop_map(Op::AddPartial),
            number().prop_map(Op::Copy),
        ]
    };
    c.part(
        "round-numbers",
        "a pair of round numbers and up to 8 updates through the mutable accessors; full, partial and total after each step, copies independent; non-trivial: at least one update",
        n,
        25,
        move || (number(), number(), proptest::collection::vec(op(), 0..8)).boxed(),
        |(f, p, ops)| {
            let (mut f, mut p) = (*f, *p);
            let mut r = RoundNumbers { r_P: p, r_F: f };
            let look = |r: &RoundNumbers, f: usize, p: usize| {
                let g = must("accessors", || (r.full(), r.partial(), r.total()))?;
                if g != (f, p, f + p) {
                    return Err(format!("full, partial, total are {g:?} instead of {:?}", (f, p, f + p)));
                }
                if *r != (RoundNumbers { r_F: f, r_P: p }) || (f != p && *r == RoundNumbers { r_F: p, r_P: f }) {
                    return Err(format!("equality is wrong for full {f}, partial {p}"));
                }
                Ok(())
            };
            look(&r, f, p)?;
            for o in ops {
                match o {
                    Op::SetFull(x) => {
                        *must("full_mut", || r.full_mut())? = *x;
                        f = *x;
                    }
                    Op::SetPartial(x) => {
                        *must("partial_mut", || r.partial_mut())? = *x;
                        p = *x;
                    }
                    Op::AddFull(x) => {
                        *r.full_mut() += *x;
                        f += x;
                    }
                    Op::AddPartial(x) => {
                        *r.partial_mut() += *x;
                        p += x;
                    }
                    Op::Copy(x) => {
                        let c = r;
                        *r.full_mut() = *x;
                        *r.partial_mut() = *x;
                        r = c;
                    }
                }
                look(&r, f, p).map_err(|e| format!("after {o:?}: {e}"))?;
            }
            Ok(Info::new(!ops.is_empty()))
        },
    );
}
