//! C09: the in-circuit permutation with arbitrary well-formed parameter sets.
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::ConstraintSystemRef;
use decaf377::r1cs::FqVar;
use decaf377::Fq;
use native::ff;
use native::gencase::{case, GenCase};
use native::params::{build, run_generic};
use native::Entry;
use poseidon_permutation::r1cs::InstanceVar;
use proptest::prelude::*;
use r1cs::solve::System;
use r1cs::*;
use serde::{Deserialize, Serialize};
use vcore::model::*;
use vcore::run::{must, Check, Info};
use vcore::F;

/// Drives a circuit instance: `hash` gives the hash entry point's output, otherwise `permute` is called
/// `times` times on one instance and all state words are returned.
fn run_circuit<const T: usize, const T1: usize, const TT: usize, const TT1: usize, const R: usize, const C: usize, const N: usize, const RP: usize>(
    p: &Params,
    o: &Opt,
    cs: ConstraintSystemRef<Fq>,
    state: Vec<FqVar>,
    hash: bool,
    times: usize,
) -> Vec<FqVar> {
    let pp = build::<T, T1, TT, TT1, R, C, N, RP>(p, o);
    #[cfg(feature = "entry-only")]
    {
        assert!(hash && times == 1);
        let a: [FqVar; T] = state.try_into().ok().expect("width");
        vec![InstanceVar::n_to_1_fixed_hash(pp, cs, a)]
    }
    #[cfg(not(feature = "entry-only"))]
    if hash {
        let a: [FqVar; T] = state.try_into().ok().expect("width");
        vec![InstanceVar::n_to_1_fixed_hash(pp, cs, a)]
    } else {
        let mut i = InstanceVar { parameters: pp, cs, state_words: state };
        for _ in 0..times {
            i.permute();
        }
        i.state_words
    }
}
type CircuitFn = fn(&Params, &Opt, ConstraintSystemRef<Fq>, Vec<FqVar>, bool, usize) -> Vec<FqVar>;
type NativeFn = fn(&Params, &Opt, &[(Entry, Vec<F>)]) -> Vec<(F, Vec<F>)>;
macro_rules! shapes {
    ($(($t:literal, $rf:literal, $rp:literal)),* $(,)?) => {
        const SHAPES: &[(usize, usize, usize, CircuitFn, NativeFn)] = &[
            $( ($t, $rf, $rp,
                run_circuit::<$t, {$t - 1}, {$t * $t}, {($t - 1) * ($t - 1)}, {$rf + $rp}, $t, {($rf + $rp) * $t}, $rp>,
                run_generic::<$t, {$t - 1}, {$t * $t}, {($t - 1) * ($t - 1)}, {$rf + $rp}, $t, {($rf + $rp) * $t}, $rp>) ),*
        ];
    };
}
shapes! {
    (2, 2, 1), (2, 4, 3), (2, 8, 31), (2, 6, 10), (2, 8, 57),
    (3, 2, 1), (3, 4, 2), (3, 6, 5), (3, 10, 4), (3, 8, 31),
    (4, 2, 3), (4, 6, 2), (5, 2, 1), (5, 4, 7), (6, 4, 1), (6, 2, 4), (7, 6, 3),
    (8, 2, 2), (8, 4, 9), (9, 2, 3), (11, 2, 5), (12, 2, 1),
    (2, 2, 65), (2, 8, 260), (3, 2, 130), (2, 20, 3), (3, 12, 4), (2, 70, 2), (17, 2, 2), (20, 2, 1),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: GenCase,
    pres: Vec<Pres>,
    goal: u8,
    hash: bool,
    times: usize,
}
fn cases() -> BoxedStrategy<Case> {
    let p = || {
        prop_oneof![
            4 => Just(Pres::Witness), 3 => Just(Pres::Const), 2 => Just(Pres::Input),
            1 => (vcore::gen::fe(), vcore::gen::fe()).prop_map(|(c, k)| Pres::LinWitness { c: if c.is_zero() { F::ONE } else { c }, k }),
        ]
    };
    (case(SHAPES.iter().map(|s| (s.0, s.1, s.2)).collect(), false), prop_oneof![3 => proptest::collection::vec(p(), 20), 1 => p().prop_map(|p| vec![p; 20])], 0u8..3, any::<bool>(), prop_oneof![4 => Just(1usize), 1 => Just(2usize)])
        .prop_map(|(g, pres, goal, hash, times)| {
            let hash = hash || cfg!(feature = "entry-only");
            let times = if hash || g.t * g.r_f + g.r_p > 60 { 1 } else { times };
            Case { g, pres, goal, hash, times }
        })
        .boxed()
}

fn main() {
    let mut c = Check::from_args();
    let n = if c.variant.ends_with("checked") { 4_000 } else { 40_000 };
    c.part(
        "generic-circuits",
        "a compiled shape, positive exponent, matrix, round constants and a state with generated presentations; hash entry point or permute driven directly, once or twice; values against the native permutation and the model, constraints satisfied; non-trivial: at least one word is not a constant",
        n,
        20,
        cases,
        |k| {
            let p = k.g.params();
            let Some(o) = p.optimise() else { return Ok(Info::new(false).class("no optimised form")) };
            let (input, back) = k.g.input(&p);
            let s = SHAPES.iter().find(|s| (s.0, s.1, s.2) == (k.g.t, k.g.r_f, k.g.r_p)).expect("shape");
            let mut want = input.clone();
            let mut native = input.clone();
            for _ in 0..k.times {
                want = run(&p.ops_textbook(), p.sbox, &want).expect("positive exponent");
                native = if !k.g.affordable() { want.clone() } else { must("native permutation", || (s.4)(&p, &o, &[(Entry::Textbook, native.clone())]))?[0].1.clone() };
            }
            let goal = Program { goal: k.goal, unused: 0, before: 0, hashes: vec![] }.goal();
            let cs = new_cs(goal, PROVE);
            let vars: Vec<FqVar> = input.iter().zip(&k.pres).map(|(w, p)| present(&cs, p, w, false).unwrap()).collect();
            let out = must("circuit permutation", || (s.3)(&p, &o, cs.clone(), vars, k.hash, k.times))?;
            let got: Vec<F> = out.iter().map(|x| x.value().map(|q| ff(&q)).map_err(|e| format!("no value: {e}"))).collect::<Result<_, _>>()?;
            let (want, native) = if k.hash { (vec![want[1]], vec![native[1]]) } else { (want, native) };
            let id = format!("width {} rounds {}+{} {:?}, hash entry {}, {} times, {:?}", k.g.t, k.g.r_f, k.g.r_p, k.g.sbox, k.hash, k.times, &k.pres[..k.g.t]);
            if got != native {
                return Err(format!("{id}: circuit gives {got:?}, native permutation {native:?}"));
            }
            if got != want {
                return Err(format!("{id}: circuit and native permutation give {got:?}, the parameters define {want:?}"));
            }
            cs.finalize();
            if !cs.is_satisfied().map_err(|e| format!("{e}"))? {
                return Err(format!("{id}: constraints not satisfied: {:?}", cs.which_is_unsatisfied()));
            }
            let sys = System::new(&cs.to_matrices().ok_or("no matrices")?);
            if let Some(i) = sys.violated(&assignment(&cs)) {
                return Err(format!("{id}: the prover's assignment violates constraint {i}"));
            }
            let i = Info::new(k.pres[..k.g.t].iter().any(|x| *x != Pres::Const)).class(format!("t={}", k.g.t)).class(if k.hash { "hash entry" } else { "permute" });
            let i = i.class(match k.g.sbox { Sbox::Exp(e) if e < 20 => format!("x^{e}"), _ => "x^large".into() });
            let i = if k.g.affordable() { i } else { i.class("exponent too large to run natively") };
            Ok(if back { i.class("backward") } else { i })
        },
    );
    c.finish()
}
