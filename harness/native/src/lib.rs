//! Adapters between the reference model and the code under test.
pub mod gencase;
pub mod pairs;
pub mod params;
use decaf377::Fq;
use poseidon377::*;
use vcore::F;

pub fn fq(f: &F) -> Fq {
    Fq::from_le_bytes_mod_order(&f.to_bytes())
}
pub fn ff(q: &Fq) -> F {
    F::from_bytes(&q.to_bytes())
}
pub fn fqs(v: &[F]) -> Vec<Fq> {
    v.iter().map(fq).collect()
}
pub fn ffs(v: &[Fq]) -> Vec<F> {
    v.iter().map(ff).collect()
}

/// hash_n of the code under test; n = vals.len().
pub fn hash(ds: &F, vals: &[F]) -> F {
    let d = fq(ds);
    let v = fqs(vals);
    ff(&hash_fq(&d, &v))
}
pub fn hash_fq(d: &Fq, v: &[Fq]) -> Fq {
    match v.len() {
        1 => hash_1(d, v[0]),
        2 => hash_2(d, (v[0], v[1])),
        3 => hash_3(d, (v[0], v[1], v[2])),
        4 => hash_4(d, (v[0], v[1], v[2], v[3])),
        5 => hash_5(d, (v[0], v[1], v[2], v[3], v[4])),
        6 => hash_6(d, (v[0], v[1], v[2], v[3], v[4], v[5])),
        7 => hash_7(d, (v[0], v[1], v[2], v[3], v[4], v[5], v[6])),
        n => panic!("no hash of arity {n}"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Entry {
    Optimised,
    Textbook,
}

/// An instance of the code under test, with its width erased.
pub trait AnyInstance {
    fn call(&mut self, e: Entry, state: &[F]) -> F;
    fn call_fq(&mut self, e: Entry, state: &[Fq]) -> Fq;
    fn output(&self) -> Vec<F>;
}
macro_rules! any_instance {
    ($($name:ident, $par:ident, $t:literal, $t1:literal, $tt:literal, $tt1:literal, $n:literal);*) => { $(
        pub struct $name(Instance<'static, $t, $t1, $tt, $tt1, 39, $t, $n, 31>);
        impl AnyInstance for $name {
            fn call(&mut self, e: Entry, state: &[F]) -> F {
                ff(&self.call_fq(e, &fqs(state)))
            }
            fn call_fq(&mut self, e: Entry, state: &[Fq]) -> Fq {
                let s: [Fq; $t] = state.try_into().unwrap();
                match e {
                    Entry::Optimised => self.0.n_to_1_fixed_hash(&s),
                    Entry::Textbook => self.0.unoptimized_n_to_1_fixed_hash(s),
                }
            }
            fn output(&self) -> Vec<F> { ffs(&self.0.output_words()) }
        }
    )*
    /// A fresh instance for a shipped rate.
    pub fn instance(rate: usize) -> Box<dyn AnyInstance> {
        $( static $par: std::sync::OnceLock<PoseidonParameters<$t, $t1, $tt, $tt1, 39, $t, $n, 31>> = std::sync::OnceLock::new(); )*
        match rate + 1 { $( $t => Box::new($name(Instance::new($par.get_or_init(|| poseidon377::$par)))), )* _ => unreachable!() }
    }
    pub fn raw(rate: usize) -> params::Raw {
        match rate + 1 { $( $t => params::raw(&poseidon377::$par), )* _ => unreachable!() }
    }
    };
}
any_instance! {
    I1, RATE_1_PARAMS, 2, 1, 4, 1, 78;
    I2, RATE_2_PARAMS, 3, 2, 9, 4, 117;
    I3, RATE_3_PARAMS, 4, 3, 16, 9, 156;
    I4, RATE_4_PARAMS, 5, 4, 25, 16, 195;
    I5, RATE_5_PARAMS, 6, 5, 36, 25, 234;
    I6, RATE_6_PARAMS, 7, 6, 49, 36, 273;
    I7, RATE_7_PARAMS, 8, 7, 64, 49, 312
}
