//! C16: exponent selection.
use crate::fields::{with_field, FIELDS};
use std::convert::TryInto;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use poseidon_parameters::v1::Alpha;
use vcore::run::{subject, Check, Info, Verdict};

/// Length of a shortest addition chain for every number up to `max`, found by search.
fn chain_lengths(max: u32, depth: usize) -> Vec<usize> {
    fn go(chain: &mut Vec<u32>, max: u32, depth: usize, best: &mut Vec<usize>) {
        let last = *chain.last().unwrap();
        let len = chain.len() - 1;
        if len < best[last as usize] {
            best[last as usize] = len;
        }
        if len == depth {
            return;
        }
        let mut next: Vec<u32> = vec![];
        for i in 0..chain.len() {
            for j in i..chain.len() {
                let s = chain[i] + chain[j];
                if s > last && s <= max && !next.contains(&s) {
                    next.push(s);
                }
            }
        }
        for s in next {
            chain.push(s);
            go(chain, max, depth, best);
            chain.pop();
        }
    }
    let mut best = vec![usize::MAX; max as usize + 1];
    go(&mut vec![1], max, depth, &mut best);
    best
}
/// Odd candidates by chain length (2 to 7), larger first within a length.
fn candidates() -> &'static Vec<u32> {
    static S: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let l = chain_lengths(128, 7);
        let mut v: Vec<u32> = (3..=128).filter(|n| n % 2 == 1 && l[*n as usize] <= 7).collect();
        v.sort_by_key(|n| (l[*n as usize], u32::MAX - n));
        v
    })
}
fn one(i: usize, allow: bool) -> Verdict {
    macro_rules! go {
        ($f:ty) => {{
            let p: BigUint = <$f as PrimeField>::MODULUS.into();
            let pm1 = &p - 1u32;
            let want = candidates().iter().copied().find(|a| {
                let r: u32 = (&pm1 % *a).try_into().unwrap();
                num::integer::gcd(r, *a) == 1
            });
            let got = subject(|| crate::alpha::generate::<$f>(<$f as PrimeField>::MODULUS, allow));
            let ok = match (want, &got) {
                (Some(a), Ok(Alpha::Exponent(b))) => a == *b,
                (None, Ok(Alpha::Inverse)) => allow,
                (None, Err(_)) => !allow,
                _ => false,
            };
            if !ok {
                return Err(format!("modulus {p}, inverse allowed: {allow}: expected {}, got {got:?}", want.map_or(if allow { "the inverse".into() } else { "a refusal".into() }, |a| a.to_string())));
            }
            Ok(Info::new(want != Some(candidates()[0])).class(match want {
                Some(a) => format!("exponent {a}"),
                None if allow => "inverse".into(),
                None => "refused".into(),
            }))
        }};
    }
    with_field!(i, go)
}
pub fn run(c: &mut Check) {
    let cases: Vec<(usize, bool)> = (0..FIELDS).flat_map(|i| [(i, false), (i, true)]).collect();
    c.exhaustive("selection", "the first candidate of the table is not the answer", cases, |&(i, allow)| one(i, allow));
}
