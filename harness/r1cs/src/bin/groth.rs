//! C20: Groth16 proofs of hash preimages, with the committed and with fresh keys.
use ark_groth16::{r1cs_to_qap::LibsnarkReduction, Groth16, PreparedVerifyingKey, ProvingKey, VerifyingKey};
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, SynthesisMode};
use ark_serialize::CanonicalDeserialize;
use ark_snark::SNARK;
use decaf377::r1cs::FqVar;
use decaf377::{Bls12_377, Fq};
use native::{ff, fq, hash};
use proptest::prelude::*;
use r1cs::*;
use rand_chacha::ChaCha20Rng;
use rand_core::SeedableRng;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use vcore::gen;
use vcore::run::{must, Check, Info};
use vcore::F;

type G = Groth16<Bls12_377, LibsnarkReduction>;

fn domain() -> F {
    ff(&Fq::from_montgomery_limbs([15545862963729521748, 8301038308012579564, 6940338389606830037, 431207966161902270]))
}

/// The circuit of the committed keys: seven witnesses, then the seven public hashes of their prefixes.
#[derive(Clone)]
struct Committed {
    preimages: Vec<F>,
    outs: Vec<F>,
}
impl ConstraintSynthesizer<Fq> for Committed {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fq>) -> Result<(), SynthesisError> {
        let mut v = vec![];
        for x in &self.preimages {
            v.push(FqVar::new_witness(cs.clone(), || Ok(fq(x)))?);
        }
        let d = FqVar::new_constant(cs.clone(), fq(&domain()))?;
        let mut o = vec![];
        for x in &self.outs {
            o.push(FqVar::new_input(cs.clone(), || Ok(fq(x)))?);
        }
        for n in 1..=7 {
            let mut a = vec![d.clone()];
            a.extend(v[..n].iter().cloned());
            o[n - 1].enforce_equal(&call_gadget(cs.clone(), &a)?)?;
        }
        Ok(())
    }
}
fn keys() -> &'static (ProvingKey<Bls12_377>, PreparedVerifyingKey<Bls12_377>) {
    static K: OnceLock<(ProvingKey<Bls12_377>, PreparedVerifyingKey<Bls12_377>)> = OnceLock::new();
    K.get_or_init(|| {
        let dir = "/repo/poseidon-tests/test_vectors";
        let pk = std::fs::read(format!("{dir}/preimage_pk.bin")).expect("proving key");
        let vk = std::fs::read(format!("{dir}/preimage_vk.param")).expect("verifying key");
        let pk = ProvingKey::deserialize_uncompressed_unchecked(&pk[..]).expect("proving key");
        let vk = VerifyingKey::deserialize_uncompressed_unchecked(&vk[..]).expect("verifying key");
        (pk, G::process_vk(&vk).unwrap())
    })
}
fn verify(vk: &PreparedVerifyingKey<Bls12_377>, inputs: &[F], proof: &ark_groth16::Proof<Bls12_377>) -> bool {
    let i: Vec<Fq> = inputs.iter().map(fq).collect();
    G::verify_with_processed_vk(vk, &i, proof).unwrap_or(false)
}
/// Every single-position change, by several amounts, and exchanges of neighbours.
fn alterations(good: &[F], positions: std::ops::Range<usize>, x: &F) -> Vec<(String, Vec<F>)> {
    let mut v = vec![];
    for i in positions.clone() {
        let ys = [good[i].add(&F::ONE), good[i].neg(), *x];
        for (k, y) in ys.iter().enumerate() {
            if *y != good[i] && (k == 0 || i % 2 == k % 2) {
                let mut a = good.to_vec();
                a[i] = *y;
                v.push((format!("output {i} altered to {y:?}"), a));
            }
        }
        if i + 1 < positions.end && good[i] != good[i + 1] {
            let mut a = good.to_vec();
            a.swap(i, i + 1);
            v.push((format!("outputs {i} and {} exchanged", i + 1), a));
        }
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proof {
    words: Vec<F>,
    altered: F,
    seed: u64,
}
fn c20(c: &mut Check) {
    let n = if c.variant.ends_with("checked") { 16 } else { 128 };
    c.part(
        "committed-keys",
        "seven preimages as for C01; a proof made with the committed proving key must verify with the committed verifying key for the native hashes, and not with any one output altered or two exchanged; non-trivial: not all preimages zero",
        n,
        20,
        || (gen::words(7), gen::fe(), any::<u64>()).prop_map(|((words, _), altered, seed)| Proof { words, altered, seed }).boxed(),
        |k| {
            let (pk, vk) = keys();
            let outs: Vec<F> = (1..=7).map(|n| must("hash", || hash(&domain(), &k.words[..n]))).collect::<Result<_, _>>()?;
            let circuit = Committed { preimages: k.words.clone(), outs: outs.clone() };
            let mut rng = ChaCha20Rng::seed_from_u64(k.seed);
            let proof = must("prover", || G::prove(pk, circuit, &mut rng))?.map_err(|e| format!("preimages {:?}: no proof: {e}", k.words))?;
            if !verify(vk, &outs, &proof) {
                return Err(format!("preimages {:?}: the proof does not verify for the native hashes {outs:?}", k.words));
            }
            for (what, a) in alterations(&outs, 0..7, &k.altered) {
                if verify(vk, &a, &proof) {
                    return Err(format!("preimages {:?}: the proof verifies with {what}", k.words));
                }
            }
            Ok(Info::new(k.words.iter().any(|w| !w.is_zero())))
        },
    );
    let n = if c.variant.ends_with("checked") { 8 } else { 120 };
    c.part(
        "fresh-keys",
        "a circuit of hash gadgets with generated presentations and public outputs; keys made in setup mode; proofs for two assignments of values must verify for their native outputs, and not with any one output altered; non-trivial: at least two different assignments",
        n,
        20,
        fresh,
        |k| {
            let mut rng = ChaCha20Rng::seed_from_u64(k.seed);
            let q = k.p.with_values(&k.other);
            let setup = Fresh { p: k.p.clone(), v: None };
            let (pk, vk) = must("setup", || G::circuit_specific_setup(setup, &mut rng))?.map_err(|e| format!("no keys: {e}"))?;
            let vk = G::process_vk(&vk).unwrap();
            let (va, vb) = (k.p.resolve(), q.resolve());
            for (p, v) in [(&k.p, &va), (&q, &vb)] {
                let proof = must("prover", || G::prove(&pk, Fresh { p: p.clone(), v: Some(v.clone()) }, &mut rng))?.map_err(|e| format!("no proof: {e}"))?;
                // public inputs in order: those of the presentations, and the outputs
                let cs = new_cs(p.goal(), PROVE);
                let b = synthesize(p, &cs, Some(v), true).map_err(|e| format!("gadget failed: {e}"))?;
                // (the statement has no others: what a gadget might allocate for itself is not the verifier's)
                let n = cs.num_instance_variables();
                let own: Vec<usize> = (1..n).filter(|i| !b.inside_i.iter().any(|r| r.contains(i))).collect();
                let mut inputs: Vec<F> = own.iter().map(|i| ff(&cs.borrow().unwrap().instance_assignment[*i])).collect();
                let out_at: Vec<usize> = b.out_inputs.iter().map(|i| own.iter().position(|k| k == i).unwrap()).collect();
                for (h, i) in out_at.iter().enumerate() {
                    inputs[*i] = must("hash", || hash(&v.words[h][0], &v.words[h][1..]))?;
                }
                if !verify(&vk, &inputs, &proof) {
                    return Err(format!("{:?}: the proof for {:?} does not verify", p.hashes.iter().map(|h| &h.pres).collect::<Vec<_>>(), v.words));
                }
                for i in &out_at {
                    for (what, a) in alterations(&inputs, *i..i + 1, &k.altered) {
                        if verify(&vk, &a, &proof) {
                            return Err(format!("the proof for {:?} verifies with public {what}", v.words));
                        }
                    }
                }
            }
            let mut i = Info::new(va.words != vb.words);
            i.classes.extend(k.p.classes());
            Ok(i)
        },
    );
    let n = if c.variant.ends_with("checked") { 500 } else { 6_000 };
    c.part(
        "public-inputs",
        "circuits of hash gadgets with generated presentations, in setup and proving mode: the public inputs, their order and their values are those the caller allocates; non-trivial: at least one",
        n,
        20,
        || programs(3),
        |p| {
            let v = p.resolve();
            for values in [None, Some(&v)] {
                let mode = if values.is_none() { SynthesisMode::Setup } else { PROVE };
                let cs = new_cs(p.goal(), mode);
                let b = must("gadget", || synthesize(p, &cs, values, true))?.map_err(|e| format!("gadget failed: {e}"))?;
                if let Some(h) = b.inside_i.iter().position(|r| !r.is_empty()) {
                    return Err(format!("{:?} after {} public inputs: hash {h} adds {} public inputs of its own", p.hashes[h].pres, b.inside_i[h].start - 1, b.inside_i[h].len()));
                }
                cs.finalize();
                if values.is_some() {
                    let got: Vec<F> = b.out_inputs.iter().map(|i| ff(&cs.borrow().unwrap().instance_assignment[*i])).collect();
                    if got != v.outs {
                        return Err(format!("public outputs are {got:?} instead of {:?}", v.outs));
                    }
                }
            }
            let mut i = Info::new(true);
            i.classes.extend(p.classes());
            Ok(i)
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreshCase {
    p: Program,
    other: Vec<Vec<F>>,
    altered: F,
    seed: u64,
}
fn fresh() -> BoxedStrategy<FreshCase> {
    let prefixes = (gen::words(8), prop_oneof![Just(Pres::Const), Just(Pres::Witness), Just(Pres::Input)]).prop_map(|((w, _), d)| Program {
        goal: 1,
        unused: 0,
        before: 0,
        hashes: (1..=7)
            .map(|n| {
                let mut pres = vec![];
                for j in 0..=n {
                    pres.push(if n == 1 { if j == 0 { d.clone() } else { Pres::Witness } } else if j < n { Pres::SameAs(n - 2, j) } else { Pres::Witness });
                }
                HashSpec { words: w[..=n].to_vec(), pres }
            })
            .collect(),
    });
    // Groth16 needs at least one variable besides the outputs to be meaningful; all-constant circuits are covered by C06.
    prop_oneof![1 => prefixes, 2 => programs(2)]
        .prop_flat_map(|mut p| {
            p.before %= 20;
            p.goal = 1; // what the Groth16 implementation sets
            if p.hashes.iter().all(|h| h.pres.iter().all(|x| *x == Pres::Const)) {
                p.hashes[0].pres[0] = Pres::Witness;
            }
            let o: Vec<_> = p.hashes.iter().map(|h| gen::state_again(h.words.len() - 1).prop_map(|x| x.0)).collect();
            (Just(p), o, gen::fe(), any::<u64>()).prop_map(|(p, other, altered, seed)| FreshCase { p, other, altered, seed })
        })
        .boxed()
}
struct Fresh {
    p: Program,
    v: Option<Values>,
}
impl ConstraintSynthesizer<Fq> for Fresh {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fq>) -> Result<(), SynthesisError> {
        synthesize(&self.p, &cs, self.v.as_ref(), true).map(|_| ())
    }
}

fn main() {
    let mut c = Check::from_args();
    c20(&mut c);
    c.finish()
}
