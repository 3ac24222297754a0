//! Copies poseidon-paramgen's sources to OUT_DIR/pg with the const arguments of matrix and parameter types
//! erased. The crate's signatures were half converted to const-generic types while its bodies
//! still use the older types generic in the field (`SquareMatrix<F>`); erasing the arguments makes
//! both agree. What a body computes is not touched, but for two things that have no meaning without the
//! arguments: `STATE_SIZE` and the like as a value become the width at hand, and `SquareMatrix::identity()`
//! gets that width as its argument.
use quote::ToTokens;
use std::{collections::HashSet, env, fs, path::Path};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const TYPES: [&str; 8] = ["Matrix", "SquareMatrix", "MdsMatrix", "ArcMatrix", "OptimizedArcMatrix", "OptimizedMdsMatrices", "PoseidonParameters", "V2PoseidonParameters"];

#[derive(Default)]
struct Erase {
    consts: HashSet<String>,
    width: Option<Expr>,
}
impl Erase {
    fn is_const(&self, t: &str) -> bool {
        let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        self.consts.contains(&t) || self.consts.iter().any(|c| t.contains(c.as_str())) || t.parse::<usize>().is_ok()
    }
    fn mentions(&self, e: &Expr) -> bool {
        e.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.consts.contains(w))
    }
    fn generics(&mut self, g: &mut Generics) -> Vec<String> {
        let mut own = vec![];
        let kept: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| match p {
                GenericParam::Const(c) => {
                    own.push(c.ident.to_string());
                    false
                }
                _ => true,
            })
            .cloned()
            .collect();
        g.params = kept.into_iter().collect();
        own
    }
    /// Runs `f` with the const parameters of `g` known, and removes them.
    fn scope(&mut self, g: &mut Generics, width: Option<Expr>, f: impl FnOnce(&mut Self)) {
        let own = self.generics(g);
        let old = (self.consts.clone(), self.width.clone());
        self.consts.extend(own);
        if width.is_some() {
            self.width = width;
        }
        f(self);
        (self.consts, self.width) = old;
    }
}
fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}
fn width_of(sig: &Signature) -> Option<Expr> {
    let names: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()),
            _ => None,
        })
        .collect();
    if names.iter().any(|n| n == "t") {
        Some(parse_quote!(t))
    } else if names.iter().any(|n| n == "input") {
        Some(parse_quote!(input.t))
    } else if names.iter().any(|n| n == "mds") {
        Some(parse_quote!(mds.n_rows()))
    } else {
        None
    }
}
impl VisitMut for Erase {
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        let w = width_of(&i.sig);
        let mut g = std::mem::take(&mut i.sig.generics);
        self.scope(&mut g, w, |s| visit_mut::visit_item_fn_mut(s, i));
        self.scope(&mut g.clone(), None, |s| s.visit_generics_mut(&mut g));
        i.sig.generics = g;
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        let w = width_of(&i.sig);
        let mut g = std::mem::take(&mut i.sig.generics);
        self.scope(&mut g, w, |s| visit_mut::visit_impl_item_fn_mut(s, i));
        i.sig.generics = g;
    }
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        // only so that the checks can call what is in it
        if matches!(i.vis, Visibility::Inherited) {
            i.vis = parse_quote!(pub(crate));
        }
        visit_mut::visit_item_mod_mut(self, i);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let mut g = std::mem::take(&mut i.generics);
        self.scope(&mut g, None, |s| visit_mut::visit_item_impl_mut(s, i));
        i.generics = g;
    }
    fn visit_item_struct_mut(&mut self, i: &mut ItemStruct) {
        let mut g = std::mem::take(&mut i.generics);
        self.scope(&mut g, None, |s| visit_mut::visit_item_struct_mut(s, i));
        i.generics = g;
    }
    fn visit_path_mut(&mut self, p: &mut Path_) {
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            let ours = TYPES.contains(&s.ident.to_string().as_str());
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let kept: Vec<GenericArgument> = a.args.iter().filter(|x| !self.is_const(&x.to_token_stream().to_string())).cloned().collect();
                if kept.len() == a.args.len() {
                    continue;
                }
                if kept.is_empty() {
                    if ours {
                        a.args = std::iter::once::<GenericArgument>(parse_quote!(F)).collect();
                    } else {
                        s.arguments = PathArguments::None;
                    }
                } else {
                    a.args = kept.into_iter().collect();
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Array(a) = t {
            if self.is_const(&a.len.to_token_stream().to_string()) && a.len.to_token_stream().to_string().parse::<usize>().is_err() {
                let e = &a.elem;
                *t = parse_quote!(Vec<#e>);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string();
            if f.starts_with("SquareMatrix") && f.ends_with("identity") && c.args.is_empty() {
                let w = self.width.clone().unwrap_or(parse_quote!(t));
                c.args.push(w);
            }
        }
        let repeated = matches!(e, Expr::Repeat(r) if self.mentions(&r.len));
        visit_mut::visit_expr_mut(self, e);
        if let (true, Expr::Repeat(r)) = (repeated, &*e) {
            let (x, n) = (&r.expr, &r.len);
            *e = parse_quote!(ark_std::vec![#x; #n]);
        }
        if let Expr::Path(p) = e {
            if let Some(name) = p.path.get_ident().map(|i| i.to_string()).filter(|n| self.consts.contains(n)) {
                let w = self.width.clone().unwrap_or(parse_quote!(t));
                match name.as_str() {
                    "STATE_SIZE" => *e = w,
                    "STATE_SIZE_MINUS_1" => *e = parse_quote!((#w - 1)),
                    "NUM_MDS_ELEMENTS" => *e = parse_quote!((#w * #w)),
                    "NUM_STATE_SIZE_MINUS_1_ELEMENTS" => *e = parse_quote!(((#w - 1) * (#w - 1))),
                    _ => {}
                }
            }
        }
    }
}
type Path_ = syn::Path;

fn convert(text: &str) -> String {
    let mut f = match parse_file(text) {
        Ok(f) => f,
        Err(e) => return format!("compile_error!({:?});", e.to_string()),
    };
    f.attrs.clear();
    f.items.retain(|i| match i {
        Item::Mod(m) => !cfg_test(&m.attrs),
        Item::Fn(m) => !cfg_test(&m.attrs),
        Item::Use(m) => !cfg_test(&m.attrs),
        _ => true,
    });
    Erase::default().visit_file_mut(&mut f);
    f.into_token_stream().to_string()
}
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    println!("cargo:rerun-if-changed={}", from.display());
    for e in fs::read_dir(from).unwrap().flatten() {
        let (p, q) = (e.path(), to.join(e.file_name()));
        if p.is_dir() {
            copy(&p, &q);
        } else {
            println!("cargo:rerun-if-changed={}", p.display());
            if p.extension().map_or(false, |x| x == "rs") {
                let q = if e.file_name() == "lib.rs" { to.join("root.rs") } else { q };
                fs::write(q, convert(&fs::read_to_string(&p).unwrap())).unwrap();
            }
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("pg");
    let _ = fs::remove_dir_all(&out);
    copy(Path::new("/repo/poseidon-paramgen/src"), &out);
}
