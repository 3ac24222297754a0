//! C03: the permutation with arbitrary well-formed parameter sets.
use native::params::run_generic;
use native::Entry;
use native::gencase::{case, GenCase};
use vcore::model::*;
use vcore::run::{must, Check, Info};
use vcore::F;

pub type RunFn = fn(&Params, &Opt, &[(Entry, Vec<F>)]) -> Vec<(F, Vec<F>)>;
macro_rules! shapes {
    ($(($t:literal, $rf:literal, $rp:literal)),* $(,)?) => {
        /// (width, full rounds, partial rounds, runner) for every compiled shape.
        pub const SHAPES: &[(usize, usize, usize, RunFn)] = &[
            $( ($t, $rf, $rp, run_generic::<$t, {$t - 1}, {$t * $t}, {($t - 1) * ($t - 1)}, {$rf + $rp}, $t, {($rf + $rp) * $t}, $rp>) ),*
        ];
    };
}
shapes! {
    (2, 2, 1), (2, 2, 2), (2, 4, 3), (2, 8, 31), (2, 8, 57), (2, 6, 10),
    (3, 2, 1), (3, 4, 2), (3, 8, 31), (3, 8, 57), (3, 6, 5), (3, 10, 4),
    (4, 2, 3), (4, 8, 56), (4, 6, 2), (4, 8, 31),
    (5, 2, 1), (5, 8, 60), (5, 4, 7),
    (6, 4, 1), (6, 8, 31), (6, 2, 4),
    (7, 6, 3), (7, 8, 22),
    (8, 2, 2), (8, 8, 31), (8, 4, 9), (8, 10, 1),
    (9, 2, 3), (9, 8, 63), (10, 4, 2), (11, 2, 5), (12, 8, 57), (12, 2, 1), (16, 4, 6), (17, 2, 2),
    (2, 2, 65), (2, 8, 300), (3, 8, 130), (3, 8, 257), (2, 20, 3), (3, 12, 4), (4, 18, 66), (2, 260, 2), (20, 2, 3), (24, 2, 1),
}
pub fn shape_index(t: usize, rf: usize, rp: usize) -> usize {
    SHAPES.iter().position(|s| (s.0, s.1, s.2) == (t, rf, rp)).expect("shape")
}

pub fn c03(c: &mut Check) {
    let n = if c.variant == "checked" { 4_000 } else { 24_000 };
    c.part(
        "generic-parameters",
        "a compiled shape (width, rounds), S-box, invertible matrix, round constants and a state, optionally built backwards from a chosen intermediate state; both entry points and the full state against the model; non-trivial: the optimised derivation exists and every S-box is defined",
        n,
        25,
        || case(SHAPES.iter().map(|s| (s.0, s.1, s.2)).collect(), true),
        |k: &GenCase| {
            let p = k.params();
            let Some(o) = p.optimise() else { return Ok(Info::new(false).class("no optimised form")) };
            let (input, back) = k.input(&p);
            let (a, b) = (run(&p.ops_textbook(), p.sbox, &input), run(&p.ops_optimised(&o), p.sbox, &input));
            // S-box undefined on the way (1/0): outside the domain.
            let (Some(want), Some(want_o)) = (a, b) else { return Ok(Info::new(false).class("S-box undefined")) };
            assert_eq!(want, want_o, "model forms disagree");
            let f = SHAPES[shape_index(k.t, k.r_f, k.r_p)].3;
            let calls = vec![(Entry::Optimised, input.clone()), (Entry::Textbook, input.clone()), (Entry::Textbook, input.clone()), (Entry::Optimised, input.clone())];
            let got = must("permutation", || f(&p, &o, &calls))?;
            for (i, (out, st)) in got.iter().enumerate() {
                if *st != want {
                    return Err(format!("width {} rounds {}+{} {:?}: {:?} gives {st:?}, the parameters define {want:?}", k.t, k.r_f, k.r_p, k.sbox, calls[i].0));
                }
                if *out != want[1] {
                    return Err(format!("width {}: returned word {out:?} is not word 1 of {want:?}", k.t));
                }
            }
            let mut inf = Info::new(true).class(format!("t={}", k.t)).class(k.mds_kind.clone());
            inf = inf.class(match k.sbox { Sbox::Inv => "inverse".to_string(), Sbox::Exp(e) if e < 20 => format!("x^{e}"), _ => "x^large".into() });
            Ok(if back { inf.class("backward") } else { inf })
        },
    );
}
