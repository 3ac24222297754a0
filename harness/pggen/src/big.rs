//! Linear algebra modulo p on big integers, and the documented derivations.
use num_bigint::BigUint as B;
pub type M = Vec<Vec<B>>;
pub fn zero() -> B {
    B::from(0u32)
}
pub fn one() -> B {
    B::from(1u32)
}
pub fn inv(x: &B, p: &B) -> B {
    x.modpow(&(p - 2u32), p)
}
pub fn neg(x: &B, p: &B) -> B {
    (p - x) % p
}
pub fn mul(a: &M, b: &M, p: &B) -> M {
    a.iter().map(|r| (0..b[0].len()).map(|j| (0..b.len()).map(|k| &r[k] * &b[k][j]).sum::<B>() % p).collect()).collect()
}
pub fn transpose(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j].clone()).collect()).collect()
}
pub fn identity(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| if i == j { one() } else { zero() }).collect()).collect()
}
pub fn inverse(m: &M, p: &B) -> M {
    let n = m.len();
    let (mut a, mut b) = (m.clone(), identity(n));
    for c in 0..n {
        let r = (c..n).find(|r| a[*r][c] != zero()).expect("regular matrix");
        a.swap(r, c);
        b.swap(r, c);
        let k = inv(&a[c][c], p);
        for j in 0..n {
            a[c][j] = &a[c][j] * &k % p;
            b[c][j] = &b[c][j] * &k % p;
        }
        for r in 0..n {
            if r != c && a[r][c] != zero() {
                let f = neg(&a[r][c], p);
                for j in 0..n {
                    a[r][j] = (&a[r][j] + &f * &a[c][j]) % p;
                    b[r][j] = (&b[r][j] + &f * &b[c][j]) % p;
                }
            }
        }
    }
    b
}
pub fn cauchy(t: usize, p: &B) -> M {
    let k: Vec<B> = (0..3 * t).map(|x| inv(&B::from(x), p)).collect();
    (0..t).map(|i| (0..t).map(|j| k[i + t + j].clone()).collect()).collect()
}
pub fn hat(m: &M) -> M {
    m[1..].iter().map(|r| r[1..].to_vec()).collect()
}
pub fn row(m: &M) -> M {
    vec![m[0][1..].to_vec()]
}
pub fn column(m: &M) -> M {
    m[1..].iter().map(|r| vec![r[0].clone()]).collect()
}
/// [[1, 0], [0, h]]
pub fn prime(h: &M) -> M {
    let mut m = identity(h.len() + 1);
    for i in 0..h.len() {
        for j in 0..h.len() {
            m[i + 1][j + 1] = h[i][j].clone();
        }
    }
    m
}
/// Everything derived from the matrix and the constants.
pub struct Derived {
    pub m_hat_inverse: M,
    pub m_doubleprime: M,
    pub m_i: M,
    pub v: Vec<M>,
    pub w_hat: Vec<M>,
    pub arc: M,
}
pub fn derive(mds: &M, arc: &M, full: usize, partial: usize, p: &B) -> Derived {
    let t = mds.len();
    let h = hat(mds);
    let m_hat_inverse = inverse(&h, p);
    let w = mul(&m_hat_inverse, &column(mds), p);
    let mut m_doubleprime = identity(t);
    m_doubleprime[0] = mds[0].clone();
    for i in 1..t {
        m_doubleprime[i][0] = w[i - 1][0].clone();
    }
    let mt = transpose(mds);
    let (mut cur, mut m_i) = (mt.clone(), identity(t));
    let (mut v, mut w_hat) = (vec![], vec![]);
    for _ in 0..partial {
        let h = hat(&cur);
        v.push(row(&cur));
        w_hat.push(mul(&inverse(&h, p), &column(&cur), p));
        m_i = prime(&h);
        cur = mul(&mt, &m_i, p);
    }
    let inv_t = inverse(&mt, p);
    let mut arc = arc.clone();
    for r in (full / 2..full + partial - 1 - full / 2).rev() {
        let x = mul(&vec![arc[r + 1].clone()], &inv_t, p).remove(0);
        for j in 1..t {
            arc[r][j] = (&arc[r][j] + &x[j]) % p;
        }
        arc[r + 1] = vec![zero(); t];
        arc[r + 1][0] = x[0].clone();
    }
    Derived { m_hat_inverse, m_doubleprime, m_i: transpose(&m_i), v, w_hat, arc }
}
/// The permutation, in the textbook form.
pub fn textbook(mds: &M, arc: &M, full: usize, partial: usize, alpha: &B, p: &B, s: &[B]) -> Vec<B> {
    let mut s = s.to_vec();
    for r in 0..full + partial {
        for j in 0..s.len() {
            s[j] = (&s[j] + &arc[r][j]) % p;
        }
        let n = if r >= full / 2 && r < full / 2 + partial { 1 } else { s.len() };
        for x in s[..n].iter_mut() {
            *x = x.modpow(alpha, p);
        }
        s = mds.iter().map(|r| r.iter().zip(&s).map(|(a, b)| a * b).sum::<B>() % p).collect();
    }
    s
}
/// The permutation with the optimised parts.
pub fn optimised(mds: &M, d: &Derived, full: usize, partial: usize, alpha: &B, p: &B, s: &[B]) -> Vec<B> {
    let mut s = s.to_vec();
    let mix = |m: &M, s: &[B]| -> Vec<B> { m.iter().map(|r| r.iter().zip(s).map(|(a, b)| a * b).sum::<B>() % p).collect() };
    let add = |s: &mut Vec<B>, r: usize| {
        for j in 0..s.len() {
            s[j] = (&s[j] + &d.arc[r][j]) % p;
        }
    };
    for r in 0..full / 2 {
        add(&mut s, r);
        s = s.iter().map(|x| x.modpow(alpha, p)).collect();
        s = mix(mds, &s);
    }
    add(&mut s, full / 2);
    s = mix(&d.m_i, &s);
    for r in 0..partial {
        s[0] = s[0].modpow(alpha, p);
        if r + 1 < partial {
            s[0] = (&s[0] + &d.arc[full / 2 + r + 1][0]) % p;
        }
        let k = partial - 1 - r;
        let first = (&mds[0][0] * &s[0] + d.w_hat[k].iter().zip(&s[1..]).map(|(a, b)| &a[0] * b).sum::<B>()) % p;
        for j in 1..s.len() {
            s[j] = (&s[j] + &s[0] * &d.v[k][0][j - 1]) % p;
        }
        s[0] = first;
    }
    for r in full / 2 + partial..full + partial {
        add(&mut s, r);
        s = s.iter().map(|x| x.modpow(alpha, p)).collect();
        s = mix(mds, &s);
    }
    s
}
