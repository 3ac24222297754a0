//! Reference model of Poseidon (version 1), written from the paper and the documented
//! generation procedure; it shares no code with the repository.
use crate::field::{inverse_exponent, F, P};

pub type Mat = Vec<Vec<F>>;

pub fn zeros(r: usize, c: usize) -> Mat {
    vec![vec![F::ZERO; c]; r]
}
pub fn identity(n: usize) -> Mat {
    let mut m = zeros(n, n);
    for i in 0..n {
        m[i][i] = F::ONE;
    }
    m
}
pub fn transpose(m: &Mat) -> Mat {
    (0..m[0].len()).map(|j| m.iter().map(|r| r[j]).collect()).collect()
}
pub fn mat_mul(a: &Mat, b: &Mat) -> Mat {
    a.iter()
        .map(|r| (0..b[0].len()).map(|j| dot(r, &b.iter().map(|x| x[j]).collect::<Vec<_>>())).collect())
        .collect()
}
pub fn dot(a: &[F], b: &[F]) -> F {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).fold(F::ZERO, |s, (x, y)| s.add(&x.mul(y)))
}
pub fn mat_vec(m: &Mat, v: &[F]) -> Vec<F> {
    m.iter().map(|r| dot(r, v)).collect()
}
pub fn flatten(m: &Mat) -> Vec<F> {
    m.iter().flatten().copied().collect()
}
pub fn unflatten(v: &[F], cols: usize) -> Mat {
    v.chunks(cols).map(|c| c.to_vec()).collect()
}
/// Determinant by Gaussian elimination.
pub fn det(m: &Mat) -> F {
    let n = m.len();
    let mut a = m.clone();
    let mut d = F::ONE;
    for c in 0..n {
        let Some(p) = (c..n).find(|&r| !a[r][c].is_zero()) else { return F::ZERO };
        if p != c {
            a.swap(p, c);
            d = d.neg();
        }
        d = d.mul(&a[c][c]);
        let iv = a[c][c].inv();
        for r in c + 1..n {
            if a[r][c].is_zero() {
                continue;
            }
            let f = a[r][c].mul(&iv);
            for k in c..n {
                let s = f.mul(&a[c][k]);
                a[r][k] = a[r][k].sub(&s);
            }
        }
    }
    d
}
pub fn rank(m: &Mat) -> usize {
    let (n, w) = (m.len(), m[0].len());
    let mut a = m.clone();
    let mut rk = 0;
    for c in 0..w {
        let Some(p) = (rk..n).find(|&r| !a[r][c].is_zero()) else { continue };
        a.swap(p, rk);
        let iv = a[rk][c].inv();
        for r in rk + 1..n {
            let f = a[r][c].mul(&iv);
            for k in c..w {
                let s = f.mul(&a[rk][k]);
                a[r][k] = a[r][k].sub(&s);
            }
        }
        rk += 1;
        if rk == n {
            break;
        }
    }
    rk
}
pub fn inverse(m: &Mat) -> Option<Mat> {
    let n = m.len();
    let mut a = m.clone();
    let mut b = identity(n);
    for c in 0..n {
        let p = (c..n).find(|&r| !a[r][c].is_zero())?;
        a.swap(p, c);
        b.swap(p, c);
        let iv = a[c][c].inv();
        for k in 0..n {
            a[c][k] = a[c][k].mul(&iv);
            b[c][k] = b[c][k].mul(&iv);
        }
        for r in 0..n {
            if r != c && !a[r][c].is_zero() {
                let f = a[r][c];
                for k in 0..n {
                    let (x, y) = (f.mul(&a[c][k]), f.mul(&b[c][k]));
                    a[r][k] = a[r][k].sub(&x);
                    b[r][k] = b[r][k].sub(&y);
                }
            }
        }
    }
    Some(b)
}
pub fn submatrix(m: &Mat, i: usize, j: usize) -> Mat {
    m.iter()
        .enumerate()
        .filter(|(r, _)| *r != i)
        .map(|(_, row)| row.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| *x).collect())
        .collect()
}
pub fn minors(m: &Mat) -> Mat {
    let n = m.len();
    (0..n).map(|i| (0..n).map(|j| det(&submatrix(m, i, j))).collect()).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Sbox {
    Exp(u32),
    Inv,
}

#[derive(Clone, Debug)]
pub struct Params {
    pub t: usize,
    pub r_f: usize,
    pub r_p: usize,
    pub sbox: Sbox,
    pub mds: Mat,
    pub arc: Mat,
}
/// Everything derived from (mds, arc) by the documented optimisation procedure.
#[derive(Clone, Debug)]
pub struct Opt {
    pub m_hat: Mat,
    pub v: Vec<F>,
    pub w: Vec<F>,
    pub m_prime: Mat,
    pub m_doubleprime: Mat,
    pub m_inverse: Mat,
    pub m_hat_inverse: Mat,
    pub m_00: F,
    pub m_i: Mat,
    pub v_collection: Vec<Vec<F>>,
    pub w_hat_collection: Vec<Vec<F>>,
    pub oarc: Mat,
}

pub fn hat(m: &Mat) -> Mat {
    submatrix(m, 0, 0)
}
pub fn prime(m_hat: &Mat) -> Mat {
    let n = m_hat.len() + 1;
    let mut m = identity(n);
    for i in 1..n {
        for j in 1..n {
            m[i][j] = m_hat[i - 1][j - 1];
        }
    }
    m
}
pub fn doubleprime(m00: F, v: &[F], w_hat: &[F]) -> Mat {
    let n = v.len() + 1;
    let mut m = identity(n);
    m[0][0] = m00;
    for i in 1..n {
        m[0][i] = v[i - 1];
        m[i][0] = w_hat[i - 1];
    }
    m
}

/// One elementary operation of a permutation.
#[derive(Clone, Debug)]
pub enum Op {
    Add(Vec<F>),
    Add0(F),
    Full,
    Partial,
    Mat(Mat),
    Sparse { m00: F, v: Vec<F>, w: Vec<F> },
}

pub fn cauchy(t: usize) -> Mat {
    (0..t)
        .map(|i| (0..t).map(|j| F::from_u64(i as u64).add(&F::from_u64((t + j) as u64)).inv()).collect())
        .collect()
}
pub fn transcript_constants(t: usize, m: usize, r_f: usize, r_p: usize, alpha: [u8; 4], n: usize) -> Vec<F> {
    let mut tr = merlin::Transcript::new(b"round-constants");
    tr.append_message(b"dom-sep", b"poseidon-paramgen");
    tr.append_message(b"t", &(t as u64).to_le_bytes());
    tr.append_message(b"M", &(m as u64).to_le_bytes());
    tr.append_message(b"p", &crate::field::limb_bytes(&P));
    tr.append_message(b"r_F", &[r_f as u8]);
    tr.append_message(b"r_P", &[r_p as u8]);
    tr.append_message(b"alpha", &alpha);
    (0..n)
        .map(|_| {
            let mut b = [0u8; 48]; // (253 + 135) / 8
            tr.challenge_bytes(b"round-constant", &mut b);
            F::from_le_bytes_mod(&b)
        })
        .collect()
}

impl Params {
    /// The instance poseidon377 documents for a given rate.
    pub fn shipped(rate: usize) -> Params {
        let t = rate + 1;
        let arc = transcript_constants(t, 128, 8, 31, 17u32.to_le_bytes(), 39 * t);
        Params { t, r_f: 8, r_p: 31, sbox: Sbox::Exp(17), mds: cauchy(t), arc: unflatten(&arc, t) }
    }
    /// None if the derivation does not exist (a singular matrix on the way).
    pub fn optimise(&self) -> Option<Opt> {
        let m = &self.mds;
        let m_t = transpose(m);
        let m_inverse = inverse(m)?;
        let m_hat = hat(m);
        let m_hat_inverse = inverse(&m_hat)?;
        let v: Vec<F> = m[0][1..].to_vec();
        let w: Vec<F> = m[1..].iter().map(|r| r[0]).collect();
        let w_hat = mat_vec(&m_hat_inverse, &w);
        let m_prime = prime(&m_hat);
        let m_doubleprime = doubleprime(m[0][0], &v, &w_hat);

        // calc_equivalent_matrices
        let mut m_mul = m_t.clone();
        let mut m_i = zeros(self.t, self.t);
        let (mut v_collection, mut w_hat_collection) = (vec![], vec![]);
        for _ in 0..self.r_p {
            let h = hat(&m_mul);
            let ww: Vec<F> = m_mul[1..].iter().map(|r| r[0]).collect();
            let vv: Vec<F> = m_mul[0][1..].to_vec();
            v_collection.push(vv);
            w_hat_collection.push(mat_vec(&inverse(&h)?, &ww));
            m_i = prime(&h);
            m_mul = mat_mul(&m_t, &m_i);
        }
        // calc_equivalent_constants
        let inv_t = inverse(&m_t)?;
        let mut oarc = self.arc.clone();
        let rf = self.r_f / 2;
        for r in (rf..self.r_f + self.r_p - 1 - rf).rev() {
            let inv = mat_mul(&vec![oarc[r + 1].clone()], &inv_t).remove(0);
            for j in 1..self.t {
                oarc[r][j] = oarc[r][j].add(&inv[j]);
            }
            oarc[r + 1] = vec![F::ZERO; self.t];
            oarc[r + 1][0] = inv[0];
        }
        Some(Opt {
            m_hat,
            v,
            w,
            m_prime,
            m_doubleprime,
            m_inverse,
            m_hat_inverse,
            m_00: m[0][0],
            m_i: transpose(&m_i),
            v_collection,
            w_hat_collection,
            oarc,
        })
    }
    pub fn ops_textbook(&self) -> Vec<Op> {
        let mut o = vec![];
        for r in 0..self.r_f + self.r_p {
            o.push(Op::Add(self.arc[r].clone()));
            let full = r < self.r_f / 2 || r >= self.r_f / 2 + self.r_p;
            o.push(if full { Op::Full } else { Op::Partial });
            o.push(Op::Mat(self.mds.clone()));
        }
        o
    }
    pub fn ops_optimised(&self, q: &Opt) -> Vec<Op> {
        let mut o = vec![];
        let rf = self.r_f / 2;
        for r in 0..rf {
            o.push(Op::Add(q.oarc[r].clone()));
            o.push(Op::Full);
            o.push(Op::Mat(self.mds.clone()));
        }
        o.push(Op::Add(q.oarc[rf].clone()));
        o.push(Op::Mat(q.m_i.clone()));
        for r in 0..self.r_p {
            o.push(Op::Partial);
            if r + 1 < self.r_p {
                o.push(Op::Add0(q.oarc[rf + 1 + r][0]));
            }
            let k = self.r_p - 1 - r;
            o.push(Op::Sparse { m00: q.m_00, v: q.v_collection[k].clone(), w: q.w_hat_collection[k].clone() });
        }
        for r in 0..rf {
            o.push(Op::Add(q.oarc[rf + self.r_p + r].clone()));
            o.push(Op::Full);
            o.push(Op::Mat(self.mds.clone()));
        }
        o
    }
}

pub fn sbox(s: Sbox, x: &F) -> F {
    match s {
        Sbox::Exp(e) => x.pow_u64(e as u64),
        Sbox::Inv => x.inv(),
    }
}
/// Apply one operation. Returns false if the S-box was undefined (1/0).
pub fn apply(op: &Op, s: Sbox, st: &mut Vec<F>) -> bool {
    match op {
        Op::Add(c) => {
            for (x, k) in st.iter_mut().zip(c) {
                *x = x.add(k);
            }
        }
        Op::Add0(c) => st[0] = st[0].add(c),
        Op::Full => {
            if s == Sbox::Inv && st.iter().any(|x| x.is_zero()) {
                return false;
            }
            for x in st.iter_mut() {
                *x = sbox(s, x);
            }
        }
        Op::Partial => {
            if s == Sbox::Inv && st[0].is_zero() {
                return false;
            }
            st[0] = sbox(s, &st[0]);
        }
        Op::Mat(m) => *st = mat_vec(m, st),
        Op::Sparse { m00, v, w } => {
            let s0 = st[0];
            let mut n0 = m00.mul(&s0);
            for i in 0..v.len() {
                n0 = n0.add(&w[i].mul(&st[i + 1]));
            }
            for i in 0..v.len() {
                st[i + 1] = st[i + 1].add(&v[i].mul(&s0));
            }
            st[0] = n0;
        }
    }
    true
}
pub fn run(ops: &[Op], s: Sbox, input: &[F]) -> Option<Vec<F>> {
    let mut st = input.to_vec();
    for o in ops {
        if !apply(o, s, &mut st) {
            return None;
        }
    }
    Some(st)
}
/// A list of operations prepared for running backwards.
#[derive(Clone, Debug)]
pub struct Back {
    pub ops: Vec<Op>,
    inv: Vec<Option<Mat>>,
    sbox: Sbox,
    exp: Option<[u64; 4]>,
}
impl Back {
    pub fn new(ops: Vec<Op>, sbox: Sbox) -> Back {
        let mut last: Option<(Mat, Option<Mat>)> = None;
        let inv = ops
            .iter()
            .map(|o| match o {
                Op::Mat(m) => {
                    if let Some((a, b)) = &last {
                        if a == m {
                            return b.clone();
                        }
                    }
                    let i = inverse(m);
                    last = Some((m.clone(), i.clone()));
                    i
                }
                _ => None,
            })
            .collect();
        let exp = match sbox {
            Sbox::Exp(e) => inverse_exponent(e as u64),
            Sbox::Inv => None,
        };
        Back { ops, inv, sbox, exp }
    }
    fn unsbox(&self, x: &F) -> Option<F> {
        match self.sbox {
            Sbox::Inv => {
                if x.is_zero() {
                    None
                } else {
                    Some(x.inv())
                }
            }
            Sbox::Exp(1) => Some(*x),
            Sbox::Exp(_) => self.exp.map(|e| x.pow(&e)),
        }
    }
    /// The input state for which the state just before operation `k` is `st`.
    pub fn undo(&self, k: usize, st: &[F]) -> Option<Vec<F>> {
        let mut s = st.to_vec();
        for i in (0..k).rev() {
            match &self.ops[i] {
                Op::Add(c) => {
                    for (x, y) in s.iter_mut().zip(c) {
                        *x = x.sub(y);
                    }
                }
                Op::Add0(c) => s[0] = s[0].sub(c),
                Op::Full => {
                    for x in s.iter_mut() {
                        *x = self.unsbox(x)?;
                    }
                }
                Op::Partial => s[0] = self.unsbox(&s[0])?,
                Op::Mat(_) => s = mat_vec(self.inv[i].as_ref()?, &s),
                Op::Sparse { m00, v, w } => {
                    let d = m00.sub(&dot(w, v));
                    if d.is_zero() {
                        return None;
                    }
                    let n0 = s[0].sub(&dot(w, &s[1..]));
                    let s0 = n0.mul(&d.inv());
                    for j in 0..v.len() {
                        s[j + 1] = s[j + 1].sub(&v[j].mul(&s0));
                    }
                    s[0] = s0;
                }
            }
        }
        Some(s)
    }
}
/// A shipped instance with everything precomputed.
pub struct Shipped {
    pub params: Params,
    pub opt: Opt,
    pub text: Back,
    pub optb: Back,
}
pub fn shipped() -> &'static [Shipped] {
    static S: std::sync::OnceLock<Vec<Shipped>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        (1..=7)
            .map(|r| {
                let params = Params::shipped(r);
                let opt = params.optimise().expect("shipped derivation exists");
                let text = Back::new(params.ops_textbook(), params.sbox);
                let optb = Back::new(params.ops_optimised(&opt), params.sbox);
                Shipped { params, opt, text, optb }
            })
            .collect()
    })
}
/// Reference permutation of a shipped instance (textbook form).
pub fn permute(rate: usize, state: &[F]) -> Vec<F> {
    let s = &shipped()[rate - 1];
    run(&s.text.ops, s.params.sbox, state).unwrap()
}
/// Reference fixed-width hash: state (domain, inputs...), output word 1.
pub fn hash(ds: &F, vals: &[F]) -> F {
    let mut st = vec![*ds];
    st.extend_from_slice(vals);
    permute(vals.len(), &st)[1]
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn forms_agree_and_invert() {
        for r in 1..=7usize {
            let s = &shipped()[r - 1];
            let mut x: Vec<F> = (0..=r).map(|i| F::from_u64(i as u64)).collect();
            for _ in 0..5 {
                let a = run(&s.text.ops, s.params.sbox, &x).unwrap();
                let b = run(&s.optb.ops, s.params.sbox, &x).unwrap();
                assert_eq!(a, b);
                assert_eq!(s.text.undo(s.text.ops.len(), &a).unwrap(), x);
                assert_eq!(s.optb.undo(s.optb.ops.len(), &a).unwrap(), x);
                x = a;
            }
        }
    }
    #[test]
    fn sage_vector() {
        let o = permute(2, &[F::ZERO, F::ONE, F::from_u64(2)]);
        let e = num_bigint::BigUint::parse_bytes(b"546637332213889354237126997303352456465330747031466737868777261691321847212", 10).unwrap();
        assert_eq!(num_bigint::BigUint::from_bytes_le(&o[1].to_bytes()), e);
    }
    #[test]
    fn linear_algebra() {
        let m = cauchy(6);
        assert_eq!(mat_mul(&m, &inverse(&m).unwrap()), identity(6));
        let a = minors(&m);
        let mut s = F::ZERO;
        for j in 0..6 {
            let x = m[2][j].mul(&a[2][j]);
            s = if (2 + j) % 2 == 0 { s.add(&x) } else { s.sub(&x) };
        }
        assert_eq!(s, det(&m));
    }
}
