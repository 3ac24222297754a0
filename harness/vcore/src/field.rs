//! An independent implementation of the BLS12-377 scalar field (which is decaf377's `Fq`),
//! used by the reference models. Nothing here comes from the code under test.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub const P: [u64; 4] = [725501752471715841, 6461107452199829505, 6968279316240510977, 1345280370688173398];

const fn inv64() -> u64 {
    // -p^{-1} mod 2^64
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv).wrapping_mul(P[0]);
        i += 1;
    }
    inv.wrapping_neg()
}
const INV: u64 = inv64();

/// Field element in Montgomery form (always reduced).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F(pub [u64; 4]);

const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0u64; 4];
    let mut borrow = 0u128;
    let mut i = 0;
    while i < 4 {
        let d = (a[i] as u128).wrapping_sub(b[i] as u128).wrapping_sub(borrow);
        r[i] = d as u64;
        borrow = (d >> 64) & 1;
        i += 1;
    }
    (r, borrow == 1)
}
const fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    let mut i = 0;
    while i < 4 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
        i += 1;
    }
    r
}
/// 2^(64*k) mod p by repeated doubling.
const fn pow2_mod(mut k: usize) -> [u64; 4] {
    let mut r = [1, 0, 0, 0];
    while k > 0 {
        r = add4(&r, &r);
        if geq(&r, &P) {
            r = sub4(&r, &P).0;
        }
        k -= 1;
    }
    r
}
const R1: [u64; 4] = pow2_mod(256);
const R2: [u64; 4] = pow2_mod(512);

fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let s = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
            t[j] = s as u64;
            c = s >> 64;
        }
        let s = t[4] as u128 + c;
        t[4] = s as u64;
        t[5] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let s = t[0] as u128 + (m as u128) * (P[0] as u128);
        let mut c = s >> 64;
        for j in 1..4 {
            let s = t[j] as u128 + (m as u128) * (P[j] as u128) + c;
            t[j - 1] = s as u64;
            c = s >> 64;
        }
        let s = t[4] as u128 + c;
        t[3] = s as u64;
        t[4] = t[5] + ((s >> 64) as u64);
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &P) {
        sub4(&r, &P).0
    } else {
        r
    }
}

impl F {
    pub const ZERO: F = F([0; 4]);
    pub const ONE: F = F(R1);
    pub fn from_u64(x: u64) -> F {
        F(mont_mul(&[x, 0, 0, 0], &R2))
    }
    /// From a canonical integer (must be < p after reduction; any 256-bit value is reduced).
    pub fn from_limbs(mut x: [u64; 4]) -> F {
        while geq(&x, &P) {
            x = sub4(&x, &P).0;
        }
        F(mont_mul(&x, &R2))
    }
    /// Interpret limbs as an already-Montgomery representation (reduced first).
    pub fn from_mont_limbs(mut x: [u64; 4]) -> F {
        while geq(&x, &P) {
            x = sub4(&x, &P).0;
        }
        F(x)
    }
    pub fn limbs(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        let l = self.limbs();
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
        }
        o
    }
    /// Little-endian bytes of any length, reduced mod p.
    pub fn from_le_bytes_mod(b: &[u8]) -> F {
        let base = F::from_u64(256);
        let mut r = F::ZERO;
        for x in b.iter().rev() {
            r = r.mul(&base).add(&F::from_u64(*x as u64));
        }
        r
    }
    /// Exactly 32 canonical bytes.
    pub fn from_bytes(b: &[u8; 32]) -> F {
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        assert!(!geq(&l, &P), "non-canonical bytes");
        F::from_limbs(l)
    }
    pub fn add(&self, o: &F) -> F {
        let r = add4(&self.0, &o.0);
        F(if geq(&r, &P) { sub4(&r, &P).0 } else { r })
    }
    pub fn neg(&self) -> F {
        if self.0 == [0; 4] {
            *self
        } else {
            F(sub4(&P, &self.0).0)
        }
    }
    pub fn sub(&self, o: &F) -> F {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &F) -> F {
        F(mont_mul(&self.0, &o.0))
    }
    pub fn sq(&self) -> F {
        self.mul(self)
    }
    pub fn pow_u64(&self, e: u64) -> F {
        self.pow(&[e])
    }
    pub fn pow(&self, e: &[u64]) -> F {
        let bits = (0..64 * e.len()).rev().find(|i| e[i / 64] >> (i % 64) & 1 == 1);
        let Some(top) = bits else { return F::ONE };
        let mut r = *self;
        for i in (0..top).rev() {
            r = r.sq();
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    /// Multiplicative inverse by Fermat; inverse of zero is zero.
    pub fn inv(&self) -> F {
        self.pow(&sub4(&P, &[2, 0, 0, 0]).0)
    }
    pub fn hex(&self) -> String {
        let l = self.limbs();
        let s = format!("{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]);
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".into()
        } else {
            t.into()
        }
    }
    pub fn from_hex(s: &str) -> F {
        let s = format!("{:0>64}", s.trim_start_matches("0x"));
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[3 - i] = u64::from_str_radix(&s[16 * i..16 * i + 16], 16).expect("hex");
        }
        F::from_limbs(l)
    }
    /// Square root if it exists (Tonelli-Shanks, 2-adicity 47).
    pub fn sqrt(&self) -> Option<F> {
        if self.is_zero() {
            return Some(*self);
        }
        let (pm1, _) = sub4(&P, &[1, 0, 0, 0]);
        let half = shr(&pm1, 1);
        if self.pow(&half) != F::ONE {
            return None;
        }
        let mut s = 0;
        let mut q = pm1;
        while q[0] & 1 == 0 {
            q = shr(&q, 1);
            s += 1;
        }
        let mut z = F::from_u64(2);
        while z.pow(&half) == F::ONE {
            z = z.add(&F::ONE);
        }
        let mut m = s;
        let mut c = z.pow(&q);
        let mut t = self.pow(&q);
        let mut r = self.pow(&shr(&add4(&q, &[1, 0, 0, 0]), 1));
        while t != F::ONE {
            let mut i = 0;
            let mut tt = t;
            while tt != F::ONE {
                tt = tt.sq();
                i += 1;
            }
            let mut b = c;
            for _ in 0..(m - i - 1) {
                b = b.sq();
            }
            m = i;
            c = b.sq();
            t = t.mul(&c);
            r = r.mul(&b);
        }
        Some(r)
    }
}
pub fn shr(a: &[u64; 4], k: u32) -> [u64; 4] {
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = a[i] >> k | if i < 3 { a[i + 1] << (64 - k) } else { 0 };
    }
    r
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", self.hex())
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.hex())
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        Ok(F::from_hex(&String::deserialize(d)?))
    }
}

/// (k(p-1)+1)/alpha as limbs: the exponent undoing x^alpha. None if alpha is not coprime to p-1.
pub fn inverse_exponent(alpha: u64) -> Option<[u64; 4]> {
    use num_bigint::BigUint;
    let pm1 = BigUint::from_bytes_le(&limb_bytes(&sub4(&P, &[1, 0, 0, 0]).0));
    let a = BigUint::from(alpha);
    // k with (p - 1) k + 1 divisible by alpha, by the extended Euclidean algorithm.
    let r = (&pm1 % &a).to_u64_digits().first().copied().unwrap_or(0) as i128;
    let m = alpha as i128;
    let (mut old, mut new, mut so, mut sn) = (r, m, 1i128, 0i128);
    while new != 0 {
        let q = old / new;
        (old, new) = (new, old - q * new);
        (so, sn) = (sn, so - q * sn);
    }
    if old != 1 {
        return None;
    }
    let k = (-so).rem_euclid(m) as u64;
    let n = &pm1 * k + 1u32;
    assert!(&n % &a == BigUint::from(0u32));
    let mut l = [0u64; 4];
    for (i, x) in (n / a).to_u64_digits().into_iter().enumerate() {
        l[i] = x;
    }
    Some(l)
}
pub fn limb_bytes(l: &[u64; 4]) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
    }
    o
}

#[cfg(test)]
mod tests {
    use super::*;
    use num_bigint::BigUint;
    fn big(f: &F) -> BigUint {
        BigUint::from_bytes_le(&f.to_bytes())
    }
    #[test]
    fn against_bigint() {
        let p = BigUint::from_bytes_le(&limb_bytes(&P));
        let mut x = F::from_u64(0x1234567);
        let mut y = F::from_limbs([!0, !0, !0, !0]);
        for i in 0..3000u64 {
            assert_eq!(big(&x.mul(&y)), big(&x) * big(&y) % &p);
            assert_eq!(big(&x.add(&y)), (big(&x) + big(&y)) % &p);
            assert_eq!(big(&x.sub(&y)), (big(&x) + &p - big(&y)) % &p);
            let nx = x.mul(&y).add(&F::from_u64(i));
            y = if i % 50 == 0 { F::from_u64(i).neg() } else { x.add(&F::ONE) };
            x = nx;
            if i % 100 == 0 {
                assert_eq!(x.mul(&x.inv()), F::ONE);
                let r = x.sq().sqrt().unwrap();
                assert!(r == x || r == x.neg());
                assert_eq!(F::from_hex(&x.hex()), x);
                assert_eq!(F::from_bytes(&x.to_bytes()), x);
                assert_eq!(big(&F::from_le_bytes_mod(&[0xffu8; 48])), BigUint::from_bytes_le(&[0xff; 48]) % &p);
            }
        }
        for e in [1u64, 3, 5, 17, 101, 65537, 0x8000_0001, 0xffff_ffff, 1 << 40] {
            let mut l = F::ONE;
            for _ in 0..e.min(300) {
                l = l.mul(&x);
            }
            assert_eq!(x.pow_u64(e.min(300)), l);
            if let Some(d) = inverse_exponent(e) {
                assert_eq!(x.pow_u64(e).pow(&d), x, "{e}");
            } else {
                assert!(e != 1 && e != 17, "{e}");
            }
        }
        assert_eq!(x.pow(&[0, 0]), F::ONE);
        assert_eq!(inverse_exponent(2), None);
    }
}
