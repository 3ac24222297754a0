//! Parameter sets of the code under test as plain values, and the other way round.
use crate::{ff, ffs, fq, fqs, Entry};
use poseidon377::{Instance, PoseidonParameters};
use poseidon_parameters::v1::*;
use vcore::model::{flatten, unflatten, Mat, Opt, Params, Sbox};
use vcore::F;

/// Every field of a published parameter set.
#[derive(Clone, Debug)]
pub struct Raw {
    pub m: usize,
    pub alpha: Alpha,
    pub r_f: usize,
    pub r_p: usize,
    pub mds: Mat,
    pub arc: Mat,
    pub opt: Opt,
}
pub fn dynmat<M: MatrixOperations>(m: &M) -> Mat {
    unflatten(&ffs(m.elements()), m.n_cols())
}
pub fn raw<const T: usize, const T1: usize, const TT: usize, const TT1: usize, const R: usize, const C: usize, const N: usize, const RP: usize>(
    p: &PoseidonParameters<T, T1, TT, TT1, R, C, N, RP>,
) -> Raw {
    let o = &p.optimized_mds;
    Raw {
        m: p.M,
        alpha: p.alpha,
        r_f: p.rounds.full(),
        r_p: p.rounds.partial(),
        mds: dynmat(&p.mds),
        arc: dynmat(&p.arc),
        opt: Opt {
            m_hat: dynmat(&o.M_hat),
            v: ffs(o.v.elements()),
            w: ffs(o.w.elements()),
            m_prime: dynmat(&o.M_prime),
            m_doubleprime: dynmat(&o.M_doubleprime),
            m_inverse: dynmat(&o.M_inverse),
            m_hat_inverse: dynmat(&o.M_hat_inverse),
            m_00: ff(&o.M_00),
            m_i: dynmat(&o.M_i),
            v_collection: o.v_collection.iter().map(|v| ffs(v.elements())).collect(),
            w_hat_collection: o.w_hat_collection.iter().map(|v| ffs(v.elements())).collect(),
            oarc: dynmat(&p.optimized_arc),
        },
    }
}
/// Build a parameter set of the code under test from model values.
pub fn build<const T: usize, const T1: usize, const TT: usize, const TT1: usize, const R: usize, const C: usize, const N: usize, const RP: usize>(
    p: &Params,
    o: &Opt,
) -> PoseidonParameters<T, T1, TT, TT1, R, C, N, RP> {
    PoseidonParameters {
        M: 128,
        alpha: match p.sbox {
            Sbox::Exp(e) => Alpha::Exponent(e),
            Sbox::Inv => Alpha::Inverse,
        },
        rounds: RoundNumbers { r_P: p.r_p, r_F: p.r_f },
        mds: MdsMatrix::new(&fqs(&flatten(&p.mds))),
        arc: ArcMatrix::new(&fqs(&flatten(&p.arc))),
        optimized_arc: OptimizedArcMatrix::new(&fqs(&flatten(&o.oarc))),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new(&fqs(&flatten(&o.m_hat))),
            v: Matrix::new(&fqs(&o.v)),
            w: Matrix::new(&fqs(&o.w)),
            M_prime: SquareMatrix::new(&fqs(&flatten(&o.m_prime))),
            M_doubleprime: SquareMatrix::new(&fqs(&flatten(&o.m_doubleprime))),
            M_inverse: SquareMatrix::new(&fqs(&flatten(&o.m_inverse))),
            M_hat_inverse: SquareMatrix::new(&fqs(&flatten(&o.m_hat_inverse))),
            M_00: fq(&o.m_00),
            M_i: Matrix::new(&fqs(&flatten(&o.m_i))),
            v_collection: o.v_collection.iter().map(|v| Matrix::new(&fqs(v))).collect::<Vec<_>>().try_into().unwrap_or_else(|_| panic!("v")),
            w_hat_collection: o.w_hat_collection.iter().map(|v| Matrix::new(&fqs(v))).collect::<Vec<_>>().try_into().unwrap_or_else(|_| panic!("w")),
        },
    }
}
/// Results of a sequence of calls on one instance: (output word, full state).
pub fn run_generic<const T: usize, const T1: usize, const TT: usize, const TT1: usize, const R: usize, const C: usize, const N: usize, const RP: usize>(
    p: &Params,
    o: &Opt,
    calls: &[(Entry, Vec<F>)],
) -> Vec<(F, Vec<F>)> {
    let pp = build::<T, T1, TT, TT1, R, C, N, RP>(p, o);
    let mut i = Instance::new(&pp);
    calls
        .iter()
        .map(|(e, s)| {
            let a: [poseidon377::Fq; T] = fqs(s).try_into().unwrap();
            let out = match e {
                Entry::Optimised => i.n_to_1_fixed_hash(&a),
                Entry::Textbook => i.unoptimized_n_to_1_fixed_hash(a),
            };
            (ff(&out), ffs(&i.output_words()))
        })
        .collect()
}
