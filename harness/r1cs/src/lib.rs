//! Circuits made of hash gadgets, described as data.
pub mod solve;
use ark_r1cs_std::fields::FieldVar;
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError, SynthesisMode};
use decaf377::r1cs::FqVar;
use decaf377::Fq;
use native::fq;
use poseidon377::r1cs as gadget;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model;
use vcore::F;

/// How one word is presented to a gadget.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pres {
    Const,
    Witness,
    Input,
    /// c * witness + k (c non-zero)
    LinWitness { c: F, k: F },
    /// c * input + k (c non-zero)
    LinInput { c: F, k: F },
    /// the sum of two witnesses, the first being `a`
    Sum { a: F },
    /// the difference of an input of value `a` and a witness
    Diff { a: F },
    /// the product of two witnesses, the first being `a` (non-zero)
    Product { a: F },
    /// a boolean witness turned into a field variable (only for words 0 and 1)
    Bit,
    /// the same variable as an earlier word of this hash
    Same(usize),
    /// the same variable as a word of an earlier hash
    SameAs(usize, usize),
    /// the output of an earlier hash
    Out(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HashSpec {
    pub words: Vec<F>,
    pub pres: Vec<Pres>,
}
/// A circuit: hashes in order, possibly feeding each other.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub goal: u8,
    /// Variables no constraint mentions, allocated first: public inputs, and a witness for every third.
    #[serde(default)]
    pub unused: usize,
    /// Variables and constraints already in the system before the first hash.
    #[serde(default)]
    pub before: usize,
    pub hashes: Vec<HashSpec>,
}
/// Values of all words and outputs once sharing is resolved.
#[derive(Clone, Debug)]
pub struct Values {
    pub words: Vec<Vec<F>>,
    pub outs: Vec<F>,
}

fn pres() -> BoxedStrategy<Pres> {
    let nz = || gen::fe().prop_map(|x| if x.is_zero() { F::ONE } else { x });
    prop_oneof![
        4 => Just(Pres::Const),
        8 => Just(Pres::Witness),
        5 => Just(Pres::Input),
        2 => (nz(), gen::fe()).prop_map(|(c, k)| Pres::LinWitness { c, k }),
        1 => (nz(), gen::fe()).prop_map(|(c, k)| Pres::LinInput { c, k }),
        1 => gen::fe().prop_map(|a| Pres::Sum { a }),
        1 => gen::fe().prop_map(|a| Pres::Diff { a }),
        1 => nz().prop_map(|a| Pres::Product { a }),
        1 => Just(Pres::Bit),
        2 => (0usize..8).prop_map(Pres::Same),
        1 => (0usize..4, 0usize..8).prop_map(|(h, j)| Pres::SameAs(h, j)),
        4 => (0usize..4).prop_map(Pres::Out),
    ]
    .boxed()
}
/// One presentation for all words, mixtures, or one exception.
fn presentations(t: usize) -> BoxedStrategy<Vec<Pres>> {
    prop_oneof![
        4 => proptest::collection::vec(pres(), t),
        2 => Just(vec![Pres::Witness; t]),
        1 => Just(vec![Pres::Input; t]),
        1 => Just(vec![Pres::Const; t]),
        2 => Just({ let mut v = vec![Pres::Witness; t]; v[0] = Pres::Const; v }),
        1 => (0..t, pres()).prop_map(move |(i, p)| { let mut v = vec![Pres::Witness; t]; v[i] = p; v }),
        2 => (0..t, prop_oneof![Just(Pres::Witness), Just(Pres::Input)]).prop_map(move |(i, p)| { let mut v = vec![Pres::Const; t]; v[i] = p; v }),
        1 => Just({ let mut v = vec![Pres::Same(0); t]; v[0] = Pres::Witness; v }),
    ]
    .boxed()
}
fn spec() -> BoxedStrategy<HashSpec> {
    gen::one_of(1..=7, |r| (gen::state(r), presentations(r + 1)).prop_map(|((words, _), pres)| HashSpec { words, pres }).boxed())
}
/// Small arities first, so that shrinking and cost stay reasonable.
pub fn programs(max: usize) -> BoxedStrategy<Program> {
    let some = |n: std::ops::RangeInclusive<usize>| proptest::collection::vec(spec(), n);
    let two = 2.min(max);
    // sometimes a hash has the values of an earlier one, all or all but one, presented anew
    let again = proptest::option::weighted(0.3, (any::<Index>(), proptest::option::weighted(0.3, (any::<Index>(), gen::fe()))));
    let before = prop_oneof![12 => Just(0usize), 2 => 1usize..20, 1 => 20usize..600];
    let unused = prop_oneof![5 => Just(0usize), 2 => 1usize..6, 1 => 6usize..40];
    (0u8..3, prop_oneof![4 => some(1..=1), 3 => some(two..=two), 1 => some(1..=max)], proptest::collection::vec(again, max), (before, unused))
        .prop_map(|(goal, mut hashes, again, (before, unused))| {
            for h in 1..hashes.len() {
                if let Some((g, change)) = &again[h] {
                    let mut words = hashes[g.index(h)].words.clone();
                    if let Some((i, x)) = change {
                        *i.get_mut(&mut words) = *x;
                    }
                    hashes[h].pres.resize(words.len(), Pres::Witness);
                    hashes[h].words = words;
                }
            }
            Program { goal, unused, before, hashes }.tidy()
        })
        .boxed()
}
/// Many hashes in one system, with many earlier ones to refer to, after up to 2^17 other constraints.
pub fn large_programs(hashes: std::ops::RangeInclusive<usize>, before: usize) -> BoxedStrategy<Program> {
    let far = (any::<Index>(), 0u8..12, 0usize..8);
    let before = prop_oneof![1 => Just(0usize), 1 => 0..=before, 1 => Just(before)];
    (0u8..3, proptest::collection::vec((spec(), far), hashes), before)
        .prop_map(|(goal, specs, before)| {
            let mut hashes = vec![];
            for (h, (mut s, (ix, what, j))) in specs.into_iter().enumerate() {
                if h > 0 {
                    let (g, n) = (ix.index(h), s.pres.len());
                    match what {
                        0 | 1 => s.pres[j % n] = Pres::Out(h - 1),
                        2 => s.pres[j % n] = Pres::Out(g),
                        3 => s.pres[j % n] = Pres::SameAs(g, j),
                        4 => s.pres[0] = Pres::SameAs(0, 0),
                        _ => {}
                    }
                }
                hashes.push(s);
            }
            Program { goal, unused: 0, before, hashes }.tidy()
        })
        .boxed()
}

impl Program {
    /// Replace impossible references by plain witnesses; bits need a word 0 or 1.
    pub fn tidy(mut self) -> Program {
        let lens: Vec<usize> = self.hashes.iter().map(|h| h.words.len()).collect();
        for (h, s) in self.hashes.iter_mut().enumerate() {
            for j in 0..s.pres.len() {
                let ok = match &s.pres[j] {
                    Pres::Same(i) => *i < j,
                    Pres::SameAs(g, i) => *g < h && *i < lens[*g],
                    Pres::Out(g) => *g < h,
                    _ => true,
                };
                if !ok {
                    s.pres[j] = Pres::Witness;
                }
                if s.pres[j] == Pres::Bit {
                    s.words[j] = F::from_u64(s.words[j].limbs()[0] & 1);
                }
            }
        }
        self
    }
    pub fn resolve(&self) -> Values {
        let mut v = Values { words: vec![], outs: vec![] };
        for s in &self.hashes {
            let mut w: Vec<F> = vec![];
            for (x, p) in s.words.iter().zip(&s.pres) {
                w.push(match p {
                    Pres::Same(i) => w[*i],
                    Pres::SameAs(g, i) => v.words[*g][*i],
                    Pres::Out(g) => v.outs[*g],
                    _ => *x,
                });
            }
            v.outs.push(model::hash(&w[0], &w[1..]));
            v.words.push(w);
        }
        v
    }
    /// The same circuit with other values for the words that are not constants.
    pub fn with_values(&self, other: &[Vec<F>]) -> Program {
        let mut p = self.clone();
        for (s, o) in p.hashes.iter_mut().zip(other) {
            for j in 0..s.words.len() {
                if s.pres[j] != Pres::Const {
                    s.words[j] = o[j];
                }
            }
        }
        p.tidy()
    }
    pub fn goal(&self) -> OptimizationGoal {
        match self.goal {
            0 => OptimizationGoal::None,
            1 => OptimizationGoal::Constraints,
            _ => OptimizationGoal::Weight,
        }
    }
    /// Arity and kinds of presentation, for the tallies.
    pub fn classes(&self) -> Vec<String> {
        let mut c: Vec<String> = vec![format!("hashes-{}", self.hashes.len()), format!("goal-{}", self.goal)];
        if self.before > 0 {
            c.push("constraints-before".into());
        }
        if self.unused > 0 {
            c.push("unused-variables".into());
        }
        for h in &self.hashes {
            c.push(format!("arity-{}", h.words.len() - 1));
            let k = |p: &Pres| format!("{p:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
            let mut ks: Vec<String> = h.pres.iter().map(k).collect();
            ks.sort();
            ks.dedup();
            if ks.len() == 1 {
                c.push(format!("all-{}", ks[0]));
            } else {
                c.extend(ks.into_iter().map(|k| format!("some-{k}")));
            }
        }
        c
    }
}

pub struct Built {
    pub cs: ConstraintSystemRef<Fq>,
    pub outs: Vec<FqVar>,
    /// Ranges of witness and instance variable indices allocated by the gadgets themselves.
    pub inside_w: Vec<std::ops::Range<usize>>,
    pub inside_i: Vec<std::ops::Range<usize>>,
    /// Instance index of the public copy of each output, if asked for.
    pub out_inputs: Vec<usize>,
}

pub fn call_gadget(cs: ConstraintSystemRef<Fq>, v: &[FqVar]) -> Result<FqVar, SynthesisError> {
    let d = &v[0];
    let x = |i: usize| v[i].clone();
    match v.len() - 1 {
        1 => gadget::hash_1(cs, d, x(1)),
        2 => gadget::hash_2(cs, d, (x(1), x(2))),
        3 => gadget::hash_3(cs, d, (x(1), x(2), x(3))),
        4 => gadget::hash_4(cs, d, (x(1), x(2), x(3), x(4))),
        5 => gadget::hash_5(cs, d, (x(1), x(2), x(3), x(4), x(5))),
        6 => gadget::hash_6(cs, d, (x(1), x(2), x(3), x(4), x(5), x(6))),
        7 => gadget::hash_7(cs, d, (x(1), x(2), x(3), x(4), x(5), x(6), x(7))),
        n => panic!("no gadget of arity {n}"),
    }
}

/// Present a word of value `w` (ignored when `setup`).
pub fn present(cs: &ConstraintSystemRef<Fq>, p: &Pres, w: &F, setup: bool) -> Result<FqVar, SynthesisError> {
    let val = |x: F| move || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(&x)) };
    let wit = |x: F| FqVar::new_witness(cs.clone(), val(x));
    let inp = |x: F| FqVar::new_input(cs.clone(), val(x));
    let con = |x: &F| FqVar::constant(fq(x));
    Ok(match p {
        Pres::Const => con(w),
        Pres::Witness => wit(*w)?,
        Pres::Input => inp(*w)?,
        Pres::LinWitness { c, k } => wit(w.sub(k).mul(&c.inv()))? * con(c) + con(k),
        Pres::LinInput { c, k } => inp(w.sub(k).mul(&c.inv()))? * con(c) + con(k),
        Pres::Sum { a } => wit(*a)? + wit(w.sub(a))?,
        Pres::Diff { a } => inp(*a)? - wit(a.sub(w))?,
        Pres::Product { a } => wit(*a)? * wit(w.mul(&a.inv()))?,
        Pres::Bit => FqVar::from(Boolean::new_witness(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(!w.is_zero()) })?),
        Pres::Same(_) | Pres::SameAs(..) | Pres::Out(_) => unreachable!(),
    })
}

/// Synthesize the circuit into `cs`. `values`: none in setup mode. `publish`: allocate each output as a public
/// input with the value in `values.outs` and force it equal.
pub fn synthesize(p: &Program, cs: &ConstraintSystemRef<Fq>, values: Option<&Values>, publish: bool) -> Result<Built, SynthesisError> {
    let setup = values.is_none();
    let mut b = Built { cs: cs.clone(), outs: vec![], inside_w: vec![], inside_i: vec![], out_inputs: vec![] };
    let mut vars: Vec<Vec<FqVar>> = vec![];
    for i in 0..p.unused {
        let val = || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(Fq::from(1000 + i as u64)) };
        if i % 3 == 2 {
            FqVar::new_witness(cs.clone(), val)?;
        } else {
            FqVar::new_input(cs.clone(), val)?;
        }
    }
    for i in 0..p.before {
        // x * x = y for a witness x and a variable y of either kind
        let at = |x: u64| move || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(Fq::from(x)) };
        let x = FqVar::new_witness(cs.clone(), at(i as u64))?;
        let y = if i % 7 == 3 { FqVar::new_input(cs.clone(), at((i * i) as u64))? } else { FqVar::new_witness(cs.clone(), at((i * i) as u64))? };
        x.mul_equals(&x, &y)?;
    }
    for (h, s) in p.hashes.iter().enumerate() {
        let mut v: Vec<FqVar> = vec![];
        for (j, pr) in s.pres.iter().enumerate() {
            let var = match pr {
                Pres::Same(i) => v[*i].clone(),
                Pres::SameAs(g, i) => vars[*g][*i].clone(),
                Pres::Out(g) => b.outs[*g].clone(),
                _ => {
                    let w = match values {
                        Some(x) => x.words[h][j],
                        None if *pr == Pres::Const => s.words[j],
                        None => F::ZERO,
                    };
                    present(cs, pr, &w, setup)?
                }
            };
            v.push(var);
        }
        let (w0, i0) = (cs.num_witness_variables(), cs.num_instance_variables());
        let out = call_gadget(cs.clone(), &v)?;
        b.inside_w.push(w0..cs.num_witness_variables());
        b.inside_i.push(i0..cs.num_instance_variables());
        if publish {
            b.out_inputs.push(cs.num_instance_variables());
            let o = FqVar::new_input(cs.clone(), || values.map(|x| fq(&x.outs[h])).ok_or(SynthesisError::AssignmentMissing))?;
            o.enforce_equal(&out)?;
        }
        b.outs.push(out);
        vars.push(v);
    }
    Ok(b)
}
pub fn new_cs(goal: OptimizationGoal, mode: SynthesisMode) -> ConstraintSystemRef<Fq> {
    let cs = ConstraintSystem::new_ref();
    cs.set_optimization_goal(goal);
    cs.set_mode(mode);
    cs
}
pub const PROVE: SynthesisMode = SynthesisMode::Prove { construct_matrices: true };

/// Full assignment, instance variables first, after finalisation.
pub fn assignment(cs: &ConstraintSystemRef<Fq>) -> Vec<F> {
    let b = cs.borrow().expect("cs");
    b.instance_assignment.iter().chain(&b.witness_assignment).map(native::ff).collect()
}
