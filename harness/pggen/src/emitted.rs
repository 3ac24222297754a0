//! Reads the emitted source back.
use crate::check::{b, of};
use ark_ff::PrimeField;
use num_bigint::BigUint as B;
use poseidon_parameters::v1::{Alpha, MatrixOperations, PoseidonParameters};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::{Expr, Item};

/// A value of the emitted expressions.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(B),
    /// Field element.
    E(B),
    List(Vec<V>),
    Call(String, Vec<V>),
    Struct(String, BTreeMap<String, V>),
    Path(String),
}
pub struct Function {
    pub name: String,
    pub value: V,
}
fn text(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
fn value(e: &Expr) -> Result<V, String> {
    Ok(match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => V::N(i.base10_digits().parse().map_err(|e| format!("{e}"))?),
            _ => return Err(format!("unexpected literal {}", text(e))),
        },
        Expr::Path(p) => V::Path(text(p)),
        Expr::Macro(m) if text(&m.mac.path) == "vec" => {
            let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            let l = syn::parse::Parser::parse2(p, m.mac.tokens.clone()).map_err(|e| format!("vec!: {e}"))?;
            V::List(l.iter().map(value).collect::<Result<_, _>>()?)
        }
        // F::from_str("...").map_err(...).unwrap()
        Expr::MethodCall(m) if m.method == "unwrap" || m.method == "map_err" || m.method == "expect" => value(&m.receiver)?,
        Expr::Call(c) => {
            let f = text(&c.func);
            if f == "F::from_str" {
                let s: syn::LitStr = syn::parse2(c.args[0].to_token_stream()).map_err(|e| format!("from_str: {e}"))?;
                return Ok(V::E(s.value().parse().map_err(|e| format!("{}: {e}", s.value()))?));
            }
            V::Call(f, c.args.iter().map(value).collect::<Result<_, _>>()?)
        }
        Expr::Struct(s) => {
            let mut m = BTreeMap::new();
            for f in &s.fields {
                if m.insert(text(&f.member), value(&f.expr)?).is_some() {
                    return Err(format!("{} given twice", text(&f.member)));
                }
            }
            V::Struct(text(&s.path), m)
        }
        _ => return Err(format!("unexpected expression {}", text(e))),
    })
}
pub fn read(code: &str) -> Result<Vec<Function>, String> {
    let f = syn::parse_file(code).map_err(|e| format!("the emitted source is not Rust: {e}"))?;
    let mut out = vec![];
    for i in f.items {
        match i {
            Item::Use(_) => {}
            Item::Fn(f) => {
                let e = match f.block.stmts.as_slice() {
                    [syn::Stmt::Expr(e, None)] => e.clone(),
                    _ => return Err("a function that is not a single expression".into()),
                };
                out.push(Function { name: f.sig.ident.to_string(), value: value(&e)? });
            }
            other => return Err(format!("unexpected item {}", text(other))),
        }
    }
    Ok(out)
}
fn n(x: usize) -> V {
    V::N(B::from(x))
}
fn elements<G: PrimeField, X: MatrixOperations<G>>(m: &X) -> V {
    V::List(of(m).concat().into_iter().map(V::E).collect())
}
fn matrix<G: PrimeField, X: MatrixOperations<G>>(kind: &str, m: &X) -> V {
    V::Call(format!("{kind}::new"), vec![n(m.n_rows()), n(m.n_cols()), elements(m)])
}
pub fn expected<G: PrimeField>(q: &PoseidonParameters<G>, t: usize) -> V {
    let s = |name: &str, f: Vec<(&str, V)>| V::Struct(name.into(), f.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let o = &q.optimized_mds;
    s(
        "PoseidonParameters",
        vec![
            ("M", n(q.M)),
            ("t", n(t)),
            ("arc", matrix("ArcMatrix", &q.arc)),
            ("mds", V::Call("MdsMatrix::from_elements".into(), vec![elements(&q.mds)])),
            (
                "alpha",
                match q.alpha {
                    Alpha::Exponent(e) => V::Call("Alpha::Exponent".into(), vec![n(e as usize)]),
                    Alpha::Inverse => V::Path("Alpha::Inverse".into()),
                },
            ),
            ("rounds", s("RoundNumbers", vec![("r_P", n(q.rounds.partial())), ("r_F", n(q.rounds.full()))])),
            (
                "optimized_mds",
                s(
                    "OptimizedMdsMatrices",
                    vec![
                        ("M_hat", matrix("SquareMatrix", &o.M_hat)),
                        ("v", matrix("Matrix", &o.v)),
                        ("w", matrix("Matrix", &o.w)),
                        ("M_prime", matrix("SquareMatrix", &o.M_prime)),
                        ("M_doubleprime", matrix("SquareMatrix", &o.M_doubleprime)),
                        ("M_inverse", matrix("SquareMatrix", &o.M_inverse)),
                        ("M_hat_inverse", matrix("SquareMatrix", &o.M_hat_inverse)),
                        ("M_00", V::E(b(&o.M_00))),
                        ("M_i", matrix("Matrix", &o.M_i)),
                        ("v_collection", V::List(o.v_collection.iter().map(|m| matrix("Matrix", m)).collect())),
                        ("w_hat_collection", V::List(o.w_hat_collection.iter().map(|m| matrix("Matrix", m)).collect())),
                    ],
                ),
            ),
            ("optimized_arc", matrix("OptimizedArcMatrix", &q.optimized_arc)),
        ],
    )
}
/// Where two values differ.
fn difference(at: &str, a: &V, b: &V) -> Option<String> {
    match (a, b) {
        _ if a == b => None,
        (V::Struct(x, f), V::Struct(y, g)) if x == y && f.keys().eq(g.keys()) => f.iter().find_map(|(k, v)| difference(&format!("{at}.{k}"), v, &g[k])),
        (V::Call(x, f), V::Call(y, g)) if x == y && f.len() == g.len() => f.iter().zip(g).enumerate().find_map(|(i, (v, w))| difference(&format!("{at}({i})"), v, w)),
        (V::List(f), V::List(g)) if f.len() == g.len() => f.iter().zip(g).enumerate().find_map(|(i, (v, w))| difference(&format!("{at}[{i}]"), v, w)),
        _ => Some(format!("{at}: {} instead of {}", vcore::run::short(a), vcore::run::short(b))),
    }
}
impl Function {
    pub fn compare(&self, want: &V) -> Result<(), String> {
        difference("", &self.value, want).map_or(Ok(()), Err)
    }
}
