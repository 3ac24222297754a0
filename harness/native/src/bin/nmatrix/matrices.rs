//! C11-C14: matrix types against a plain vector-of-rows model.
use native::{ff, ffs, fq, fqs, params::dynmat};
use poseidon377::Fq;
use poseidon_parameters::v1::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model::{self, flatten, unflatten, Mat};
use vcore::run::{must, subject, Check, Info, Verdict};
use vcore::F;

/// Contents of an r x c matrix.
pub fn contents(r: usize, c: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    let n = r * c;
    prop_oneof![
        2 => proptest::collection::vec((0u64..6).prop_map(F::from_u64), n).prop_map(|v| (v, "small")),
        3 => proptest::collection::vec(gen::fe(), n).prop_map(|v| (v, "special")),
        2 => proptest::collection::vec(prop_oneof![2 => Just(F::ZERO), 1 => gen::fe()], n).prop_map(|v| (v, "sparse")),
        1 => Just(((0..n).map(|k| if k / c == k % c { F::ONE } else { F::ZERO }).collect(), "identity-like")),
        1 => gen::fe().prop_map(move |x| (vec![x; n], "constant")),
        1 => Just(((0..n).map(|k| F::from_u64(k as u64)).collect(), "counting")),
        2 => proptest::collection::vec(gen::uniform(), n).prop_map(|v| (v, "uniform")),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C11 programs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Set(u16, u16, F),
    Scale(F),
    Hadamard(Vec<F>),
    /// element-wise product with itself
    Square,
    /// transpose twice
    Flip,
    Row(u16),
    Clone,
    /// compare with a matrix of related contents: see `related`
    Compare(u8, u16, u16, F),
}
/// Contents that agree with `e` under some lossy summary: the same multiset, the same sum, the
/// same up to one factor, the same prefix or suffix, or the very same.
fn related(e: &[F], how: u8, i: u16, j: u16, v: &F) -> Vec<F> {
    let n = e.len();
    let (i, j) = (i as usize % n, j as usize % n);
    let mut o = e.to_vec();
    match how % 8 {
        0 => o.swap(i, j),
        1 => {
            o[i] = o[i].add(v);
            o[j] = o[j].sub(v);
        }
        2 => o.rotate_left(i),
        3 => o.reverse(),
        4 => o.iter_mut().for_each(|x| *x = x.mul(v)),
        5 => o[i..].iter_mut().for_each(|x| *x = x.add(v)),
        6 => o[i] = o[i].neg(),
        _ => (),
    }
    o
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    kind: String,
    r: usize,
    c: usize,
    recipe: String,
    elems: Vec<F>,
    steps: Vec<Step>,
}
/// What a matrix type can do beyond the common trait, as plain functions.
struct Api<M> {
    ctors: Vec<(&'static str, Box<dyn Fn(&[Fq]) -> M>)>,
    transpose: fn(&M) -> (Mat, Vec<usize>),
    flip: fn(&M) -> M,
    scale: Option<fn(M, Fq) -> M>,
    row: Option<fn(&M, usize) -> Mat>,
}
fn look<M: MatrixOperations>(m: &M, w: &Mat) -> Result<(), String> {
    let (r, c) = (w.len(), w[0].len());
    if (m.n_rows(), m.n_cols()) != (r, c) {
        return Err(format!("reports {}x{} instead of {r}x{c}", m.n_rows(), m.n_cols()));
    }
    if ffs(m.elements()) != flatten(w) {
        return Err(format!("elements {:?} instead of {:?}", ffs(m.elements()), flatten(w)));
    }
    for i in 0..r {
        for j in 0..c {
            if ff(&m.get_element(i, j)) != w[i][j] {
                return Err(format!("element ({i},{j}) reads {:?} instead of {:?}", ff(&m.get_element(i, j)), w[i][j]));
            }
        }
    }
    let rows: Vec<Vec<F>> = m.iter_rows().map(ffs).collect();
    if rows != *w {
        return Err(format!("rows {rows:?} instead of {w:?}"));
    }
    Ok(())
}
fn program<M: MatrixOperations + Clone + PartialEq + std::fmt::Debug>(p: &Prog, api: Api<M>) -> Verdict {
    let mut w: Mat = unflatten(&p.elems, p.c);
    let q = fqs(&p.elems);
    let mut m: Option<M> = None;
    for (n, f) in &api.ctors {
        let x = must(n, || f(&q))?;
        must("accessors", || look(&x, &w))?.map_err(|e| format!("{} {}x{} from {n}: {e}", p.kind, p.r, p.c))?;
        if let Some(y) = &m {
            if *y != x {
                return Err(format!("{n}: equal matrices compare unequal"));
            }
        }
        m = Some(x);
    }
    let mut m = m.unwrap();
    for (k, s) in p.steps.iter().enumerate() {
        let at = |e: String| format!("{} {}x{} step {k} {s:?}: {e}", p.kind, p.r, p.c);
        match s {
            Step::Set(i, j, v) => {
                let (i, j) = (*i as usize % p.r, *j as usize % p.c);
                let old = m.clone();
                must("set_element", || m.set_element(i, j, fq(v))).map_err(at)?;
                let changed = w[i][j] != *v;
                w[i][j] = *v;
                if (m == old) == changed {
                    return Err(at("equality does not follow the contents".into()));
                }
            }
            Step::Scale(x) => {
                if let Some(f) = api.scale {
                    m = must("scalar product", || f(m.clone(), fq(x))).map_err(at)?;
                    w.iter_mut().flatten().for_each(|e| *e = e.mul(x));
                }
            }
            Step::Hadamard(o) => {
                let other = must("new", || api.ctors[0].1(&fqs(o))).map_err(at)?;
                let res = must("hadamard_product", || m.hadamard_product(&other)).map_err(at)?.map_err(|e| at(format!("failed: {e}")))?;
                look(&m, &w).map_err(|e| at(format!("operand changed: {e}")))?;
                look(&other, &unflatten(o, p.c)).map_err(|e| at(format!("operand changed: {e}")))?;
                m = res;
                let mut it = o.iter();
                w.iter_mut().flatten().for_each(|e| *e = e.mul(it.next().unwrap()));
            }
            Step::Square => {
                m = must("hadamard_product", || m.hadamard_product(&m)).map_err(at)?.map_err(|e| at(format!("failed: {e}")))?;
                w.iter_mut().flatten().for_each(|e| *e = e.sq());
            }
            Step::Flip => {
                let (t, dims) = must("transpose", || (api.transpose)(&m)).map_err(at)?;
                if t != model::transpose(&w) || dims != [p.c, p.r] {
                    return Err(at(format!("transpose is {t:?} ({dims:?})")));
                }
                look(&m, &w).map_err(|e| at(format!("operand changed: {e}")))?;
                m = must("transpose", || (api.flip)(&m)).map_err(at)?;
            }
            Step::Row(i) => {
                if let Some(f) = api.row {
                    let i = *i as usize % p.r;
                    let r = must("row_vector", || f(&m, i)).map_err(at)?;
                    if r != vec![w[i].clone()] {
                        return Err(at(format!("row {i} is {r:?} instead of {:?}", w[i])));
                    }
                }
            }
            Step::Clone => m = m.clone(),
            Step::Compare(how, i, j, v) => {
                let e = flatten(&w);
                let o = related(&e, *how, *i, *j, v);
                let other = must("new", || api.ctors[api.ctors.len() - 1].1(&fqs(&o))).map_err(at)?;
                if (m == other) != (e == o) || (other == m) != (e == o) || (m != other) != (e != o) {
                    return Err(at(format!("equality with a matrix of contents {o:?} does not follow the contents")));
                }
            }
        }
        must("accessors", || look(&m, &w)).map_err(at)?.map_err(at)?;
    }
    Ok(Info::new(p.r * p.c > 1 && !p.steps.is_empty()).class(p.kind.clone()).class(if p.r == p.c { "square shape" } else { "rectangular shape" }).class(p.recipe.clone()))
}
fn arr<const N: usize>(e: &[Fq]) -> [Fq; N] {
    e.try_into().unwrap()
}
fn dims<M: MatrixOperations>(m: &M) -> Vec<usize> {
    vec![m.n_rows(), m.n_cols()]
}
fn rect<const R: usize, const C: usize, const N: usize>(p: &Prog) -> Verdict {
    match p.kind.as_str() {
        "Matrix" => program::<Matrix<R, C, N>>(
            p,
            Api {
                ctors: vec![("new", Box::new(|e| Matrix::new(e))), ("new_from_known", Box::new(|e| Matrix::new_from_known(arr(e)))), ("literal", Box::new(|e| Matrix { elements: arr(e) }))],
                transpose: |m| { let t = m.transpose(); (dynmat(&t), dims(&t)) },
                flip: |m| m.transpose().transpose(),
                scale: Some(|m, x| m * x),
                row: Some(|m, i| dynmat(&m.row_vector(i))),
            },
        ),
        "ArcMatrix" => program::<ArcMatrix<R, C, N>>(
            p,
            Api {
                ctors: vec![("new", Box::new(|e| ArcMatrix::new(e))), ("new_from_known", Box::new(|e| ArcMatrix::new_from_known(arr(e)))), ("wrap", Box::new(|e| { let m = ArcMatrix(Matrix::new(e)); assert_eq!(ffs(&m.inner_elements()), ffs(e), "inner_elements"); m }))],
                transpose: |m| { let t = m.transpose(); (dynmat(&t), dims(&t)) },
                flip: |m| m.transpose().transpose(),
                scale: None,
                row: Some(|m, i| dynmat(&m.0.row_vector(i))),
            },
        ),
        _ => program::<OptimizedArcMatrix<R, C, N>>(
            p,
            Api {
                ctors: vec![("new", Box::new(|e| OptimizedArcMatrix::new(e))), ("new_from_known", Box::new(|e| OptimizedArcMatrix::new_from_known(arr(e))))],
                transpose: |m| { let t = m.transpose(); (dynmat(&t), dims(&t)) },
                flip: |m| m.transpose().transpose(),
                scale: None,
                row: Some(|m, i| dynmat(&m.0 .0.row_vector(i))),
            },
        ),
    }
}
fn sq<const T: usize, const TT: usize, const T1: usize, const TT1: usize>(p: &Prog) -> Verdict {
    match p.kind.as_str() {
        "SquareMatrix" => {
            let id = must("identity", || SquareMatrix::<T, TT>::identity())?;
            look(&id, &model::identity(T)).map_err(|e| format!("identity {T}: {e}"))?;
            program::<SquareMatrix<T, TT>>(
                p,
                Api {
                    ctors: vec![
                        ("new", Box::new(|e| SquareMatrix::new(e))),
                        ("new_from_known", Box::new(|e| SquareMatrix::new_from_known(arr(e)))),
                        ("wrap", Box::new(|e| SquareMatrix(Matrix::new(e)))),
                    ],
                    transpose: |m| { let t = m.transpose(); (dynmat(&t), dims(&t)) },
                    flip: |m| m.transpose().transpose(),
                    scale: Some(|m, x| m * x),
                    row: Some(|m, i| dynmat(&m.row_vector(i))),
                },
            )
        }
        _ => program::<MdsMatrix<T, T1, TT, TT1>>(
            p,
            Api {
                ctors: vec![
                    ("new", Box::new(|e| MdsMatrix::new(e))),
                    ("from_elements", Box::new(|e| MdsMatrix::from_elements(e))),
                    ("new_from_known", Box::new(|e| MdsMatrix::new_from_known(arr(e)))),
                    ("wrap", Box::new(|e| MdsMatrix(SquareMatrix::new(e)))),
                ],
                transpose: |m| { let t = m.transpose(); (dynmat(&t), dims(&t)) },
                flip: |m| m.transpose().transpose(),
                scale: None,
                row: Some(|m, i| dynmat(&m.0.row_vector(i))),
            },
        ),
    }
}
macro_rules! rects { ($(($r:literal, $c:literal)),*) => {
    const RECTS: &[(usize, usize, fn(&Prog) -> Verdict)] = &[$(($r, $c, rect::<$r, $c, {$r * $c}>)),*];
} }
rects! { (1,1),(1,2),(2,1),(1,7),(7,1),(2,2),(2,3),(3,2),(3,3),(3,5),(5,3),(4,4),(4,6),(6,4),(5,5),(6,6),(7,7),(8,8),(2,8),(8,2),(9,5),(5,9),(39,2),(3,17),(13,13),(16,1),(1,16),(39,8),(70,3),(3,70),(1,100),(100,1),(130,2),(33,32),(65,8),(300,1),(20,20) }
macro_rules! squares { ($($t:literal),*) => {
    const SQUARES: &[(usize, fn(&Prog) -> Verdict)] = &[$(($t, sq::<$t, {$t * $t}, {$t - 1}, {($t - 1) * ($t - 1)}>)),*];
} }
squares! { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 20 }

fn step(r: usize, c: usize) -> BoxedStrategy<Step> {
    prop_oneof![
        3 => (any::<u16>(), any::<u16>(), gen::fe()).prop_map(|(a, b, f)| Step::Set(a, b, f)),
        2 => gen::fe().prop_map(Step::Scale),
        2 => contents(r, c).prop_map(|(v, _)| Step::Hadamard(v)),
        1 => Just(Step::Square),
        2 => Just(Step::Flip),
        2 => any::<u16>().prop_map(Step::Row),
        1 => Just(Step::Clone),
        2 => (any::<u8>(), any::<u16>(), any::<u16>(), gen::fe()).prop_map(|(h, i, j, v)| Step::Compare(h, i, j, v)),
    ]
    .boxed()
}
fn progs() -> BoxedStrategy<Prog> {
    let on = |r: usize, c: usize, kinds: &'static [&'static str]| {
        (contents(r, c), proptest::collection::vec(step(r, c), 0..8), proptest::sample::select(kinds))
            .prop_map(move |((elems, recipe), steps, kind)| Prog { kind: kind.into(), r, c, recipe: recipe.into(), elems, steps })
            .boxed()
    };
    prop_oneof![
        3 => gen::one_of(0..RECTS.len(), |i| on(RECTS[i].0, RECTS[i].1, &["Matrix", "ArcMatrix", "OptimizedArcMatrix"])),
        2 => gen::one_of(0..SQUARES.len(), |i| on(SQUARES[i].0, SQUARES[i].0, &["SquareMatrix", "MdsMatrix"])),
    ]
    .boxed()
}
fn run_prog(p: &Prog) -> Verdict {
    if p.kind == "SquareMatrix" || p.kind == "MdsMatrix" {
        SQUARES.iter().find(|s| s.0 == p.r).unwrap().1(p)
    } else {
        RECTS.iter().find(|s| (s.0, s.1) == (p.r, p.c)).unwrap().2(p)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prod {
    r: usize,
    c: usize,
    k: usize,
    square: bool,
    recipe: String,
    a: Vec<F>,
    b: Vec<F>,
}
fn prod<const R: usize, const C: usize, const K: usize, const RC: usize, const CK: usize, const RK: usize>(p: &Prod) -> Result<(Mat, Mat, Mat), String> {
    let (a, b) = (Matrix::<R, C, RC>::new(&fqs(&p.a)), Matrix::<C, K, CK>::new(&fqs(&p.b)));
    let r: Matrix<R, K, RK> = must("mat_mul", || mat_mul(&a, &b))?;
    Ok((dynmat(&r), dynmat(&a), dynmat(&b)))
}
fn sqprod<const T: usize, const TT: usize>(p: &Prod) -> Result<(Mat, Mat, Mat), String> {
    let (a, b) = (SquareMatrix::<T, TT>::new(&fqs(&p.a)), SquareMatrix::<T, TT>::new(&fqs(&p.b)));
    let r: SquareMatrix<T, TT> = must("square_mat_mul", || square_mat_mul(&a, &b))?;
    Ok((dynmat(&r), dynmat(&a), dynmat(&b)))
}
type ProdFn = fn(&Prod) -> Result<(Mat, Mat, Mat), String>;
macro_rules! prods { ($(($r:literal, $c:literal, $k:literal)),*) => {
    const PRODS: &[(usize, usize, usize, ProdFn)] = &[$(($r, $c, $k, prod::<$r, $c, $k, {$r * $c}, {$c * $k}, {$r * $k}>)),*];
} }
prods! { (1,1,1),(1,2,1),(2,1,2),(1,3,3),(3,3,1),(2,3,4),(4,3,2),(3,2,3),(2,2,2),(3,3,3),(5,4,3),(1,8,8),(8,8,1),(7,1,7),(1,7,1),(8,8,8),(2,7,5),(6,5,6),(39,3,3),(9,10,11),(4,1,1),(1,1,5),(5,2,1),(4,4,4),(1,70,1),(20,1,20),(2,100,2),(16,17,16),(65,8,8),(1,300,2) }
macro_rules! sqprods { ($($t:literal),*) => { const SQPRODS: &[(usize, ProdFn)] = &[$(($t, sqprod::<$t, {$t * $t}>)),*]; } }
sqprods! { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17 }
fn prods() -> BoxedStrategy<Prod> {
    let on = |r: usize, c: usize, k: usize, square: bool| {
        (contents(r, c), contents(c, k), 0..6usize).prop_map(move |((a, ra), (mut b, rb), rel)| {
            let mut recipe = format!("{ra} x {rb}");
            if r == k && rel == 0 {
                b = flatten(&model::transpose(&unflatten(&a, c)));
                recipe = "A x A^T".into();
            } else if r == c && c == k && rel == 1 {
                b = a.clone();
                recipe = "A x A".into();
            } else if r == c && c == k && rel == 2 {
                if let Some(i) = model::inverse(&unflatten(&a, c)) {
                    b = flatten(&i);
                    recipe = "A x A^-1".into();
                }
            }
            Prod { r, c, k, square, recipe, a, b }
        })
        .boxed()
    };
    prop_oneof![
        3 => gen::one_of(0..PRODS.len(), |i| on(PRODS[i].0, PRODS[i].1, PRODS[i].2, false)),
        2 => gen::one_of(0..SQPRODS.len(), |i| on(SQPRODS[i].0, SQPRODS[i].0, SQPRODS[i].0, true)),
    ]
    .boxed()
}

pub fn c11(c: &mut Check) {
    let checked = c.variant == "checked";
    c.part(
        "matrix-programs",
        "a shape, matrix type, contents and up to 7 operations (set, scale, element-wise product, transpose, row, clone); every accessor compared with a plain model after each step; non-trivial: more than one element and at least one operation",
        if checked { 16_000 } else { 250_000 },
        25,
        progs,
        run_prog,
    );
    c.part(
        "products",
        "rectangular and square products of related or independent contents against the definition; non-trivial: result or operands with more than one element",
        if checked { 16_000 } else { 250_000 },
        25,
        prods,
        |p| {
            let (a, b) = (unflatten(&p.a, p.c), unflatten(&p.b, p.k));
            let f = if p.square { SQPRODS.iter().find(|s| s.0 == p.r).unwrap().1 } else { PRODS.iter().find(|s| (s.0, s.1, s.2) == (p.r, p.c, p.k)).unwrap().3 };
            let (g, a2, b2) = f(p)?;
            let want = model::mat_mul(&a, &b);
            if g != want {
                return Err(format!("{}x{} times {}x{}: {g:?} instead of {want:?}", p.r, p.c, p.c, p.k));
            }
            if a2 != a || b2 != b {
                return Err("a product changed its operands".into());
            }
            Ok(Info::new(p.a.len() + p.b.len() > 2).class(if p.square { "square" } else { "rectangular" }).class(p.recipe.clone()))
        },
    );
    c.part("square-2x2", "the four-element constructor; all non-trivial", 400, 25, || contents(2, 2).boxed().prop_map(|(v, _)| v).boxed(), |v| {
        let q = fqs(v);
        let m = must("new_2x2", || SquareMatrix::<2, 4>::new_2x2(q[0], q[1], q[2], q[3]))?;
        look(&m, &unflatten(v, 2)).map_err(|e| format!("new_2x2: {e}"))?;
        Ok(Info::new(true))
    });
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SqCase {
    n: usize,
    recipe: String,
    elems: Vec<F>,
}
fn square_contents(n: usize) -> BoxedStrategy<(Vec<F>, &'static str)> {
    let full = move || contents(n, n);
    prop_oneof![
        4 => full(),
        3 => (0..n.max(1), proptest::collection::vec(gen::fe(), 2 * n * n)).prop_map(move |(rk, v)| {
            // product of n x rk and rk x n: rank at most rk < n
            let mut m = vec![F::ZERO; n * n];
            for i in 0..n { for j in 0..n { for k in 0..rk { m[i * n + j] = m[i * n + j].add(&v[i * n + k].mul(&v[n * n + k * n + j])); } } }
            (m, "rank-deficient")
        }),
        2 => (contents(n, n), 0..n, 0..n, any::<bool>(), gen::fe()).prop_map(move |((mut m, _), i, j, row, f)| {
            // row/column i becomes a multiple of row/column j
            for k in 0..n { if row { m[i * n + k] = m[j * n + k].mul(&f) } else { m[k * n + i] = m[k * n + j].mul(&f) } }
            (m, "dependent-line")
        }),
        2 => (contents(n, n), any::<bool>()).prop_map(move |((mut m, _), up)| { for i in 0..n { for j in 0..n { if (up && j < i) || (!up && j > i) { m[i * n + j] = F::ZERO } } } (m, "triangular") }),
        2 => (proptest::sample::subsequence((0..n).collect::<Vec<_>>(), n), proptest::collection::vec(gen::fe(), n), proptest::collection::vec(any::<prop::sample::Index>(), n)).prop_map(move |(mut pm, d, sw)| {
            for (i, s) in sw.iter().enumerate() { let j = s.index(n); pm.swap(i, j); }
            let mut m = vec![F::ZERO; n * n];
            for i in 0..n { m[i * n + pm[i]] = d[i]; }
            (m, "scaled-permutation")
        }),
        1 => (contents(n, n)).prop_map(move |(mut m, _)| { m[0] = F::ZERO; (m, "zero-corner") }),
        1 => (contents(n, n)).prop_map(move |(mut m, _)| { for k in 1..n { m[k] = F::ZERO; m[k * n] = F::ZERO; } (m, "block-diagonal") }),
        1 => (contents(n, n), 0..n).prop_map(move |((mut m, _), i)| { for k in 0..n { m[i * n + k] = F::ZERO; } (m, "zero-row") }),
        1 => proptest::collection::vec(gen::fe(), n).prop_map(move |x| { let mut m = vec![]; for i in 0..n { for j in 0..n { m.push(x[i].pow_u64(j as u64)) } } (m, "vandermonde") }),
        1 => Just((flatten(&model::cauchy(n)), "cauchy")),
    ]
    .boxed()
}
fn c12_case<const T: usize, const TT: usize>(k: &SqCase) -> Verdict {
    let w = unflatten(&k.elems, T);
    let m = SquareMatrix::<T, TT>::new(&fqs(&k.elems));
    let at = |s: String| format!("{T}x{T}: {s}");
    let d = model::det(&w);
    let g = ff(&must("determinant", || m.determinant()).map_err(at)?);
    if g != d {
        return Err(at(format!("determinant {g:?} instead of {d:?}")));
    }
    let cof = dynmat(&must("cofactors", || m.cofactors()).map_err(at)?);
    for i in 0..T {
        for j in 0..T {
            let e = if (i + j) % 2 == 0 { F::ONE } else { F::ONE.neg() };
            if cof[i][j] != e {
                return Err(at(format!("cofactor sign ({i},{j}) is {:?}", cof[i][j])));
            }
        }
    }
    if T >= 2 {
        let g = dynmat(&must("minors", || m.minors()).map_err(at)?);
        let e = model::minors(&w);
        if g != e {
            return Err(at(format!("minors {g:?} instead of {e:?}")));
        }
    }
    let inv = must("inverse", || m.inverse()).map_err(at)?;
    match (inv, model::inverse(&w)) {
        (Ok(_), None) => return Err(at("a singular matrix was inverted".into())),
        (Err(e), Some(_)) => return Err(at(format!("a regular matrix was refused: {e}"))),
        (Ok(g), Some(e)) => {
            if dynmat(&g) != e {
                return Err(at(format!("inverse {:?} instead of {e:?}", dynmat(&g))));
            }
        }
        (Err(_), None) => {}
    }
    if ffs(m.elements()) != k.elems {
        return Err(at("the operand was modified".into()));
    }
    Ok(Info::new(T >= 2).class(format!("size-{T}")).class(if d.is_zero() { "singular" } else { "regular" }).class(k.recipe.clone()))
}
macro_rules! c12s { ($($t:literal),*) => { fn c12_run(k: &SqCase) -> Verdict { match k.n { $($t => c12_case::<$t, {$t * $t}>(k),)* _ => unreachable!() } } } }
c12s! { 1, 2, 3, 4, 5, 6, 7, 8 }
pub fn c12(c: &mut Check) {
    let checked = c.variant == "checked";
    let gen = |lo: usize, hi: usize| move || gen::one_of(lo..=hi, |n| square_contents(n).prop_map(move |(elems, r)| SqCase { n, recipe: r.into(), elems }).boxed());
    let rule = "square matrices: dense, sparse, rank-deficient, dependent lines, triangular, permutation, block, zero lines; determinant, signs, minors, inverse against Gaussian elimination; non-trivial: size at least 2";
    c.part("sizes-1-to-5", rule, if checked { 12_000 } else { 200_000 }, 25, gen(1, 5), c12_run);
    c.part("sizes-6-to-7", rule, if checked { 400 } else { 6_000 }, 25, gen(6, 7), c12_run);
    c.part("size-8", rule, if checked { 48 } else { 800 }, 25, gen(8, 8), c12_run);
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase {
    what: usize,
    len: usize,
    recipe: String,
    /// enough material for every constructor
    elems: Vec<F>,
}
/// (description, declared shape is consistent with `len` elements, attempt)
type Attempt = (&'static str, fn(usize) -> bool, fn(&ShapeCase) -> Mat);
fn el<const N: usize>(k: &ShapeCase) -> [Fq; N] {
    let q = fqs(&k.elems);
    std::array::from_fn(|i| q[i % q.len()])
}
fn sl(k: &ShapeCase) -> Vec<Fq> {
    let q = fqs(&k.elems);
    (0..k.len).map(|i| q[i % q.len()]).collect()
}
macro_rules! attempts {
    (ctor: $(($r:literal, $c:literal, $n:literal)),*; sq: $(($t:literal, $tt:literal)),*; mds: $(($m:literal, $m1:literal, $mm:literal, $mm1:literal)),*; mul: $(($a:literal, $b:literal, $ab:literal, $d:literal, $e:literal, $de:literal, $res:literal)),*; sqmul: $(($p:literal, $pp:literal, $q:literal, $qq:literal, $rr:literal)),*) => {
        const ATTEMPTS: &[Attempt] = &[
            $(
                (concat!("Matrix ", $r, "x", $c, "/", $n, " new"), |l| $r * $c == $n && l == $n, |k| dynmat(&Matrix::<$r, $c, $n>::new(&sl(k)))),
                (concat!("ArcMatrix ", $r, "x", $c, "/", $n, " new"), |l| $r * $c == $n && l == $n, |k| dynmat(&ArcMatrix::<$r, $c, $n>::new(&sl(k)))),
                (concat!("OptimizedArcMatrix ", $r, "x", $c, "/", $n, " new"), |l| $r * $c == $n && l == $n, |k| dynmat(&OptimizedArcMatrix::<$r, $c, $n>::new(&sl(k)))),
                (concat!("Matrix ", $r, "x", $c, "/", $n, " new_from_known"), |_| $r * $c == $n, |k| dynmat(&Matrix::<$r, $c, $n>::new_from_known(el::<$n>(k)))),
                (concat!("ArcMatrix ", $r, "x", $c, "/", $n, " new_from_known"), |_| $r * $c == $n, |k| dynmat(&ArcMatrix::<$r, $c, $n>::new_from_known(el::<$n>(k)))),
                (concat!("OptimizedArcMatrix ", $r, "x", $c, "/", $n, " new_from_known"), |_| $r * $c == $n, |k| dynmat(&OptimizedArcMatrix::<$r, $c, $n>::new_from_known(el::<$n>(k)))),
            )*
            $(
                (concat!("SquareMatrix ", $t, "/", $tt, " new"), |l| $t * $t == $tt && l == $tt, |k| dynmat(&SquareMatrix::<$t, $tt>::new(&sl(k)))),
                (concat!("SquareMatrix ", $t, "/", $tt, " new_from_known"), |_| $t * $t == $tt, |k| dynmat(&SquareMatrix::<$t, $tt>::new_from_known(el::<$tt>(k)))),
            )*
            $(
                (concat!("MdsMatrix ", $m, ",", $m1, ",", $mm, ",", $mm1, " new"), |l| $m == $m1 + 1 && $m * $m == $mm && $m1 * $m1 == $mm1 && l == $mm, |k| dynmat(&MdsMatrix::<$m, $m1, $mm, $mm1>::new(&sl(k)))),
            )*
            $(
                (concat!("mat_mul ", $a, "x", $b, " * ", $d, "x", $e, " -> ", $res), |_| $b == $d && $a * $e == $res, |k| {
                    let (x, y) = (Matrix::<$a, $b, $ab>::new(&el::<$ab>(k)), Matrix::<$d, $e, $de>::new(&el::<$de>(k)));
                    let r: Matrix<$a, $e, $res> = mat_mul(&x, &y);
                    dynmat(&r)
                }),
            )*
            $(
                (concat!("square_mat_mul ", $p, " * ", $q, " -> ", $rr), |_| $p == $q && $p * $p == $rr, |k| {
                    let (x, y) = (SquareMatrix::<$p, $pp>::new(&el::<$pp>(k)), SquareMatrix::<$q, $qq>::new(&el::<$qq>(k)));
                    let r: SquareMatrix<$p, $rr> = square_mat_mul(&x, &y);
                    dynmat(&r)
                }),
            )*
            // from_elements has the square shape but no other declared dimension to check here
            ("MdsMatrix 3 from_elements", |l| l == 9, |k| dynmat(&MdsMatrix::<3, 2, 9, 4>::from_elements(&sl(k)))),
            ("MdsMatrix 5 from_elements", |l| l == 25, |k| dynmat(&MdsMatrix::<5, 4, 25, 16>::from_elements(&sl(k)))),
            ("MdsMatrix 3 new_from_known", |_| true, |k| dynmat(&MdsMatrix::<3, 2, 9, 4>::new_from_known(el::<9>(k)))),
            ("MdsMatrix 3 new_from_known with 8", |_| false, |k| dynmat(&MdsMatrix::<3, 2, 8, 4>::new_from_known(el::<8>(k)))),
            ("MdsMatrix 3 new_from_known with 10", |_| false, |k| dynmat(&MdsMatrix::<3, 2, 10, 4>::new_from_known(el::<10>(k)))),
        ];
    };
}
attempts! {
    ctor: (1,1,1),(1,1,2),(2,2,4),(2,2,3),(2,2,5),(2,3,6),(3,2,6),(2,3,5),(2,3,7),(3,2,9),(1,4,4),(4,1,4),(4,1,5),(1,4,3),(3,3,9),(3,3,6),(3,3,10),(3,3,8),(5,4,20),(5,4,25),(5,4,16),(4,4,16),(4,4,15),(4,4,17),(2,8,16),(8,2,16),(8,2,10),(39,2,78),(39,2,77),(2,2,0);
    sq: (1,1),(1,2),(2,4),(2,3),(2,5),(2,2),(3,9),(3,8),(3,10),(3,6),(4,16),(4,12),(4,17),(5,25),(5,24),(8,64),(8,63),(9,81);
    mds: (2,1,4,1),(3,2,9,4),(3,1,9,4),(3,3,9,9),(3,2,9,3),(3,2,9,9),(3,2,8,4),(4,3,16,9),(4,2,16,9),(4,3,15,9),(4,3,16,8),(4,4,16,16),(4,2,16,4),(5,4,25,16),(5,4,25,25),(8,7,64,49),(8,7,64,48),(8,6,64,36),(2,2,4,4),(2,1,4,2),(2,0,4,0);
    mul: (2,3,6,3,2,6,4),(2,3,6,3,2,6,3),(2,3,6,3,2,6,5),(2,3,6,3,2,6,6),(2,3,6,2,3,6,6),(2,3,6,2,3,6,4),(2,3,6,2,2,4,4),(2,3,6,4,2,8,4),(3,2,6,3,2,6,6),(3,2,6,2,3,6,9),(3,2,6,2,3,6,4),(1,4,4,4,1,4,1),(1,4,4,1,4,4,4),(1,4,4,1,4,4,1),(4,1,4,4,1,4,4),(4,1,4,1,4,4,16),(1,3,3,3,3,9,3),(1,3,3,2,3,6,3),(3,3,9,3,1,3,3),(3,3,9,3,1,3,9),(3,3,9,1,3,3,9),(2,2,4,3,3,9,6),(2,2,4,2,3,6,6),(2,2,4,3,2,6,4),(5,2,10,2,4,8,20),(5,2,10,3,4,12,20),(5,3,15,2,4,8,20),(1,1,1,1,1,1,1),(1,1,1,2,1,2,1),(1,2,2,1,1,1,1),(1,1,1,1,1,1,2);
    sqmul: (2,4,2,4,4),(2,4,2,4,5),(2,4,2,4,9),(2,4,3,9,4),(3,9,2,4,9),(3,9,2,4,6),(2,4,3,9,6),(3,9,3,9,9),(3,9,3,9,4),(1,1,1,1,1),(1,1,2,4,1),(2,4,1,1,4),(1,1,2,4,2),(4,16,4,16,16),(4,16,5,25,16),(5,25,4,16,25),(8,64,8,64,64),(8,64,7,49,64)
}
pub fn c13(c: &mut Check) {
    let strat = || {
        (0..ATTEMPTS.len(), contents(1, 7), prop_oneof![3 => 0usize..100, 2 => Just(usize::MAX)])
            .prop_map(|(what, (elems, r), len)| {
                // half the time, a length that fits or almost fits
                let fits: Vec<usize> = (0..100).filter(|l| (ATTEMPTS[what].1)(*l)).collect();
                let len = if len == usize::MAX { fits.first().copied().unwrap_or(4) } else { len };
                ShapeCase { what, len, recipe: r.into(), elems }
            })
            .boxed()
    };
    let run = |k: &ShapeCase| {
        let (name, ok, f) = &ATTEMPTS[k.what];
        let good = ok(k.len);
        let res = subject(|| f(k));
        match (&res, good) {
            (Ok(m), false) => return Err(format!("{name} with {} elements was accepted and gave {m:?}", k.len)),
            (Err(e), true) => return Err(format!("{name} with {} elements is well-shaped but was rejected: {e}", k.len)),
            _ => {}
        }
        Ok(Info::new(true).class(if good { "well-shaped" } else { "ill-shaped" }).class(name.split(' ').next().unwrap()).class(if name.contains("known") { "new_from_known" } else { "other" }))
    };
    let n = if c.variant == "checked" { 60_000 } else { 600_000 };
    c.part("shapes", "a declared shape (matching or not), an operation, a number of elements (matching or not) and contents; accepted exactly when everything matches; all are non-trivial", n, 25, strat, run);
    let mut all = vec![];
    for what in 0..ATTEMPTS.len() {
        for len in (0..=40).chain([48, 63, 64, 65, 77, 78, 79, 80, 81, 82]) {
            for e in [F::ZERO, F::ONE, F::from_limbs([7, 7, 7, 7])] {
                all.push(ShapeCase { what, len, recipe: "fixed".into(), elems: vec![e] });
            }
        }
    }
    c.exhaustive("all-shapes-and-lengths", "every declared shape with every length 0..40 and some larger, three fills", all, run);
}

// ---------------------------------------------------------------- C14

fn c14_case<const T: usize, const T1: usize, const TT: usize, const TT1: usize>(k: &SqCase, ctor: u8) -> Verdict {
    let w = unflatten(&k.elems, T);
    let q = fqs(&k.elems);
    let m: MdsMatrix<T, T1, TT, TT1> = must("constructor", || match ctor % 4 {
        0 => MdsMatrix::new(&q),
        1 => MdsMatrix::from_elements(&q),
        2 => MdsMatrix::new_from_known(arr(&q)),
        _ => {
            let mut m = MdsMatrix::new(&vec![Fq::from(1u64); TT]);
            for i in 0..T {
                for j in 0..T {
                    m.set_element(i, j, q[i * T + j]);
                }
            }
            m
        }
    })?;
    let at = |s: String| format!("width {T}: {s}");
    let chk = |n: &str, g: Mat, e: Mat| if g == e { Ok(()) } else { Err(at(format!("{n} is {g:?} instead of {e:?}"))) };
    let v = must("v", || m.v()).map_err(at)?;
    let wv = must("w", || m.w()).map_err(at)?;
    let h = must("hat", || m.hat()).map_err(at)?;
    chk("v", dynmat(&v), vec![w[0][1..].to_vec()])?;
    chk("w", dynmat(&wv), w[1..].iter().map(|r| vec![r[0]]).collect())?;
    chk("hat", dynmat(&h), model::hat(&w))?;
    let t = must("transpose", || m.transpose()).map_err(at)?;
    chk("transpose", dynmat(&t), model::transpose(&w))?;
    chk("v of transpose", model::transpose(&dynmat(&must("v", || t.v()).map_err(at)?)), dynmat(&wv))?;
    // reassembly
    let mut re = model::prime(&dynmat(&h));
    re[0][0] = ff(&m.get_element(0, 0));
    for i in 1..T {
        re[0][i] = ff(&v.get_element(0, i - 1));
        re[i][0] = ff(&wv.get_element(i - 1, 0));
    }
    chk("reassembled matrix", re, w.clone())?;
    let mut inf = Info::new(true).class(format!("width-{T}")).class(k.recipe.clone());
    if T <= 8 {
        if let Some(e) = model::inverse(&w) {
            chk("inverse", dynmat(&must("inverse", || m.inverse()).map_err(at)?), e)?;
            inf = inf.class("inverted");
        }
    }
    if ffs(m.elements()) != k.elems {
        return Err(at("an accessor modified the matrix".into()));
    }
    Ok(inf)
}
macro_rules! c14s { ($($t:literal),*) => { fn c14_run(k: &(SqCase, u8)) -> Verdict { match k.0.n { $($t => c14_case::<$t, {$t - 1}, {$t * $t}, {($t - 1) * ($t - 1)}>(&k.0, k.1),)* _ => unreachable!() } } } }
c14s! { 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 18, 20, 24, 33 }
pub fn c14(c: &mut Check) {
    let checked = c.variant == "checked";
    let gen = |ns: &'static [usize]| move || {
        gen::one_of(ns.iter().copied(), |n| (square_contents(n), any::<u8>()).prop_map(move |((elems, r), u)| (SqCase { n, recipe: r.into(), elems }, u)).boxed())
    };
    let rule = "MDS-typed matrices of every constructor, regular and singular contents; all accessors against the definition; all are non-trivial";
    c.part("widths-2-to-6", rule, if checked { 10_000 } else { 200_000 }, 25, gen(&[2, 3, 4, 5, 6, 9, 10, 12, 16]), c14_run);
    c.part("widths-7-8", rule, if checked { 100 } else { 3_000 }, 25, gen(&[7, 8]), c14_run);
    c.part("widths-17-to-33", rule, if checked { 300 } else { 6_000 }, 25, gen(&[17, 18, 20, 24, 33]), c14_run);
}
