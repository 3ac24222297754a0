//! C06, C07, C08, C21 (circuit part): the hash gadgets.
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisMode};
use native::pairs::{pairs, PairCase};
use native::{ff, hash};
use proptest::prelude::*;
use r1cs::solve::{search, System};
use r1cs::*;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::run::{must, Check, Info, Verdict};
use vcore::F;

fn scale(c: &Check, n: u64) -> u64 {
    if c.variant.ends_with("checked") {
        n / 6
    } else {
        n
    }
}
fn classed(mut i: Info, p: &Program) -> Info {
    i.classes.extend(p.classes());
    i
}

const SWEEP: &str = "for every arity, points between two operations of the textbook permutation and patterns there (all words zero, one, minus one or equal, sum zero, one word zero, one, minus one, small or with a zero limb, two words equal, a word minus, one more than, the inverse or the 17th power of its neighbour), a circuit with the inputs that lead there (all witnesses, all public inputs, or a constant domain); all are non-trivial";
/// Every `thin`-th of them in the default build, a sample in the checked one.
fn sweep(c: &Check, thin: usize) -> Vec<gen::Spot> {
    let step = if c.variant.ends_with("checked") {
        41
    } else if c.thorough {
        1
    } else {
        thin
    };
    gen::spots(&[false])
        .into_iter()
        .enumerate()
        .filter(|(i, _)| i % step == c.seed as usize % step)
        .map(|(_, s)| s)
        .collect()
}
fn sweep_program(s: &gen::Spot) -> Program {
    let t = s.rate + 1;
    let mut pres = vec![if (s.at + s.pattern) % 3 == 0 { Pres::Input } else { Pres::Witness }; t];
    if (s.at + s.pattern) % 3 == 1 {
        pres[0] = Pres::Const;
    }
    Program {
        goal: (s.at % 3) as u8,
        unused: 0,
        before: 0,
        hashes: vec![HashSpec { words: s.input().0, pres }],
    }
}
fn complete(p: &Program, publish: bool) -> Verdict {
    let v = p.resolve();
    let cs = new_cs(p.goal(), PROVE);
    let b = must("gadget", || synthesize(p, &cs, Some(&v), publish))?.map_err(|e| format!("gadget failed: {e}"))?;
    for (h, o) in b.outs.iter().enumerate() {
        let got = must("value", || o.value())?.map_err(|e| format!("output of hash {h} has no value: {e}"))?;
        let native = must("hash", || hash(&v.words[h][0], &v.words[h][1..]))?;
        if ff(&got) != native {
            return Err(format!("hash {h} ({:?} of {:?}): circuit value {:?}, native hash {native:?}", p.hashes[h].pres, v.words[h], ff(&got)));
        }
        if native != v.outs[h] {
            return Err(format!("hash {h}: native and circuit give {native:?}, specification {:?}", v.outs[h]));
        }
    }
    if !cs.is_satisfied().map_err(|e| format!("{e}"))? {
        return Err(format!("constraints not satisfied before finalisation: {:?}", cs.which_is_unsatisfied()));
    }
    cs.finalize();
    if !cs.is_satisfied().map_err(|e| format!("{e}"))? {
        return Err(format!("constraints not satisfied after finalisation: {:?}", cs.which_is_unsatisfied()));
    }
    let m = cs.to_matrices().ok_or("no matrices")?;
    let s = System::new(&m);
    let z = assignment(&cs);
    if z.len() != s.n || s.violated(&z).is_some() {
        return Err(format!("the prover's assignment violates constraint {:?}", s.violated(&z)));
    }
    Ok(classed(Info::new(p.hashes.iter().any(|h| h.pres.iter().any(|x| *x != Pres::Const))), p))
}
/// A synthesized circuit with public outputs: constraints, an assignment with the specified outputs, and which
/// variables were made outside the gadgets (their values are given; the outputs are to be derived).
struct Circ {
    s: System,
    z: Vec<F>,
    fixed: Vec<bool>,
    outs: Vec<usize>,
    v: Values,
}
impl Circ {
    fn new(p: &Program) -> Result<Circ, String> {
        let v = p.resolve();
        let cs = new_cs(p.goal(), PROVE);
        let b = must("gadget", || synthesize(p, &cs, Some(&v), true))?.map_err(|e| format!("gadget failed: {e}"))?;
        let w_pre = cs.num_witness_variables();
        cs.finalize();
        let m = cs.to_matrices().ok_or("no matrices")?;
        let s = System::new(&m);
        let mut z = assignment(&cs);
        let ni = m.num_instance_variables;
        let mut fixed = vec![true; s.n];
        for k in b.inside_w.iter().flat_map(|r| r.clone()) {
            fixed[ni + k] = false;
        }
        for k in w_pre..m.num_witness_variables {
            fixed[ni + k] = false;
        }
        for k in b.inside_i.iter().flat_map(|r| r.clone()).chain(b.out_inputs.iter().copied()) {
            fixed[k] = false;
        }
        // the public copies must hold the native hash, whatever the gadget computed
        for (h, k) in b.out_inputs.iter().enumerate() {
            z[*k] = v.outs[h];
        }
        Ok(Circ { s, z, fixed, outs: b.out_inputs, v })
    }
    fn outside(&self) -> Vec<usize> {
        (0..self.s.n).filter(|k| self.fixed[*k] || self.outs.contains(k)).collect()
    }
    /// Search for an assignment with `z`'s values outside and other outputs.
    fn attack(&self, p: &Program, v: &Values, z: &[F], choices: &[u64]) -> Result<bool, String> {
        let o = search(&self.s, z, &self.fixed, &self.outs, choices, 60);
        if let Some(other) = o.other {
            let (h, k) = self.outs.iter().enumerate().find(|(_, k)| other[**k] != z[**k]).unwrap();
            let moved: Vec<_> = (0..self.s.n).filter(|i| other[*i] != z[*i]).take(4).map(|i| format!("z[{i}]={:?}", other[i])).collect();
            return Err(format!(
                "hash {h} ({:?} of {:?}, circuit made for {:?}): all {} constraints are satisfied with output {:?} instead of {:?}; first changed variables {moved:?}",
                p.hashes[h].pres,
                v.words[h],
                self.v.words[h],
                self.s.cons.len(),
                other[*k],
                z[*k]
            ));
        }
        Ok(o.determined)
    }
}
fn sound(p: &Program, choices: &[u64]) -> Verdict {
    let c = Circ::new(p)?;
    let free = c.fixed.iter().filter(|f| !**f).count() - c.outs.len();
    let determined = c.attack(p, &c.v, &c.z, choices)?;
    let mut i = Info::new(free > 0).class(if determined { "all variables forced" } else { "choices explored" });
    // The same constraints with other values outside: one word changed, or most of them.
    let mut other: Vec<Vec<F>> = c.v.words.clone();
    let h = (choices[0] >> 8) as usize % other.len();
    let n = other[h].len();
    if choices[0] % 4 != 0 {
        let j = (choices[0] >> 16) as usize % n;
        other[h][j] = other[h][j].add(&F::from_u64(choices[1] | 1));
    } else {
        other.iter_mut().flatten().for_each(|w| *w = w.sq().add(&F::from_u64(choices[1] | 1)));
    }
    let q = p.with_values(&other);
    let d = Circ::new(&q)?;
    let (oa, ob) = (c.outside(), d.outside());
    if d.v.words != c.v.words && oa.len() == ob.len() {
        let mut z = c.z.clone();
        for (x, y) in oa.iter().zip(&ob) {
            z[*x] = d.z[*y];
        }
        c.attack(&q, &d.v, &z, choices)?;
        i = i.class("with other values");
    }
    Ok(classed(i, p))
}
fn uniform(k: &Shape) -> Verdict {
    let q = k.p.with_values(&k.other);
    let (va, vb) = (k.p.resolve(), q.resolve());
    let build = |p: &Program, v: Option<&Values>, mode: SynthesisMode, what: &str| -> Result<_, String> {
        let cs = new_cs(p.goal(), mode);
        must(what, || synthesize(p, &cs, v, true))?.map_err(|e| format!("{what}: gadget failed: {e}"))?;
        let pre = (cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints());
        if !matches!(mode, SynthesisMode::Prove { construct_matrices: false }) {
            cs.finalize();
        }
        Ok((pre, cs.to_matrices()))
    };
    let a = build(&k.p, Some(&va), PROVE, "first assignment")?;
    let b = build(&q, Some(&vb), PROVE, "second assignment")?;
    let s = build(&k.p, None, SynthesisMode::Setup, "setup mode")?;
    let t = build(&k.p, Some(&va), SynthesisMode::Prove { construct_matrices: false }, "prove mode without matrices")?;
    let pres: Vec<_> = k.p.hashes.iter().map(|h| &h.pres).collect();
    let sz = |x: &(usize, usize, usize)| format!("{} instance, {} witness variables, {} constraints", x.0, x.1, x.2);
    if a.0 != b.0 || a.1 != b.1 {
        return Err(format!("{pres:?}: different circuits for values {:?} and {:?}: {} / {}", va.words, vb.words, sz(&a.0), sz(&b.0)));
    }
    if a.0 != s.0 || a.1 != s.1 {
        return Err(format!("{pres:?}: setup mode gives another circuit than values {:?}: {} / {}", va.words, sz(&s.0), sz(&a.0)));
    }
    if (a.0 .0, a.0 .1) != (t.0 .0, t.0 .1) {
        return Err(format!("{pres:?}: other variables without matrices: {} / {}", sz(&t.0), sz(&a.0)));
    }
    Ok(classed(Info::new(va.words != vb.words), &k.p))
}

const LARGE: &str = "systems of many hash gadgets of all arities, referring to earlier outputs and words near and far, after up to 70000 unrelated constraints and 140000 variables; all are non-trivial";

fn c06(c: &mut Check) {
    let n = scale(c, 12_000);
    c.part(
        "gadget-programs",
        "circuits of 1 to 4 hash gadgets over all arities; each word a constant, witness, public input, linear expression, sum, difference, product, boolean, an already used variable or an earlier output; values as for C01; every optimisation goal; result values against the native hash, and all constraints satisfied; non-trivial: some word is not a constant",
        n,
        20,
        || (programs(4), any::<bool>()).boxed(),
        |(p, publish)| complete(p, *publish),
    );
    c.exhaustive("intermediate-sweep", SWEEP, sweep(c, 3), |s| complete(&sweep_program(s), s.at % 2 == 0));
    c.part("large-systems", LARGE, scale(c, 64), 20, || (large_programs(8..=40, 70_000), any::<bool>()).boxed(), |(p, publish)| complete(p, *publish));
    // Out of circuit use: constants only, without a constraint system.
    c.part(
        "constants-without-system",
        "all words constants and no constraint system; result value against the native hash; non-trivial: not all words zero",
        n / 2,
        20,
        || gen::any_state().prop_map(|(_, w, _)| w).boxed(),
        |w| {
            let vars: Vec<_> = w.iter().map(|x| decaf377::r1cs::FqVar::constant(native::fq(x))).collect();
            let got = must("gadget", || call_gadget(ConstraintSystemRef::None, &vars))?.map_err(|e| format!("gadget failed: {e}"))?;
            let got = ff(&got.value().map_err(|e| format!("no value: {e}"))?);
            let want = hash(&w[0], &w[1..]);
            if got != want {
                return Err(format!("constants {w:?}: circuit value {got:?}, native hash {want:?}"));
            }
            Ok(Info::new(w.iter().any(|x| !x.is_zero())))
        },
    );
}

fn c07(c: &mut Check) {
    let n = scale(c, 7_200);
    c.part(
        "alternative-witnesses",
        "circuits as for C06 with public outputs; with all words fixed, the variables made by the gadgets and the public outputs are derived again from the constraints alone, branching over alternative values wherever the constraints leave a choice; every full satisfying assignment found must have the native outputs; non-trivial: the gadgets made at least one variable",
        n,
        20,
        || (programs(3), proptest::collection::vec(any::<u64>(), 12)).boxed(),
        |(p, choices)| sound(p, choices),
    );
    c.part("large-systems", LARGE, scale(c, 32), 20, || (large_programs(4..=12, 70_000), proptest::collection::vec(any::<u64>(), 12)).boxed(), |(p, choices)| sound(p, choices));
    c.exhaustive("intermediate-sweep", SWEEP, sweep(c, 9), |s| sound(&sweep_program(s), &[s.pattern as u64; 12]));
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    p: Program,
    other: Vec<Vec<F>>,
}
fn shapes(p: BoxedStrategy<Program>) -> BoxedStrategy<Shape> {
    p
        .prop_flat_map(|p| {
            let o: Vec<_> = p.hashes.iter().map(|h| gen::state_again(h.words.len() - 1).prop_map(|x| x.0)).collect();
            (Just(p), o).prop_map(|(p, other)| Shape { p, other })
        })
        .boxed()
}
fn c08(c: &mut Check) {
    let n = scale(c, 6_000);
    c.part(
        "same-circuit-for-all-values",
        "a circuit as for C06 synthesized with two assignments, in setup mode without values, and in prove mode without matrices; all matrices and variable counts must be identical; non-trivial: the assignments differ",
        n,
        20,
        || shapes(programs(3)),
        uniform,
    );
    c.part("large-systems", LARGE, scale(c, 64), 20, || shapes(large_programs(8..=24, 70_000)), uniform);
    c.exhaustive("intermediate-sweep", SWEEP, sweep(c, 4), |s| {
        let p = sweep_program(s);
        let other = vec![(0..=s.rate as u64).map(|i| F::from_u64(7 + s.at as u64 + 1000 * i).inv()).collect()];
        uniform(&Shape { p, other })
    });
}

fn c21(c: &mut Check) {
    let n = scale(c, 12_000);
    c.part(
        "related-gadget-calls-differ",
        "pairs of related calls as in the native part, both synthesized in one circuit with generated presentations; the values of the outputs must differ; non-trivial: the calls differ",
        n,
        20,
        || {
            let p = || prop_oneof![2 => Just(Pres::Witness), 1 => Just(Pres::Const), 1 => Just(Pres::Input)];
            (pairs(), proptest::collection::vec(p(), 16)).boxed()
        },
        |(k, pres): &(PairCase, Vec<Pres>)| {
            let spec = |w: &Vec<F>, o: usize| HashSpec {
                words: w.clone(),
                pres: pres[o..o + w.len()].to_vec(),
            };
            let p = Program {
                goal: 1,
                unused: 0,
                before: 0,
                hashes: vec![spec(&k.a, 0), spec(&k.b, 8)],
            };
            let v = p.resolve();
            let cs = new_cs(p.goal(), PROVE);
            let b = must("gadget", || synthesize(&p, &cs, Some(&v), false))?.map_err(|e| format!("gadget failed: {e}"))?;
            let x: Vec<F> = b.outs.iter().map(|o| o.value().map(|q| ff(&q)).map_err(|e| format!("no value: {e}"))).collect::<Result<_, _>>()?;
            let differ = k.a != k.b;
            if differ == (x[0] == x[1]) {
                return Err(format!("{}: gadget outputs {:?} and {:?}", k.relation, x[0], x[1]));
            }
            Ok(Info::new(differ).class(k.relation.clone()))
        },
    );
}

fn main() {
    let mut c = Check::from_args();
    match c.id.clone().as_str() {
        "C06" => c06(&mut c),
        "C07" => c07(&mut c),
        "C08" => c08(&mut c),
        "C21" => c21(&mut c),
        x => panic!("unknown property {x}"),
    }
    c.finish()
}
