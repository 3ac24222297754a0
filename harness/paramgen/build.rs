//! Copies poseidon-paramgen's sources to OUT_DIR/pg and writes OUT_DIR/pg/root.rs: its lib.rs without
//! the modules that need the interface that no longer exists.
use std::{env, fs, path::Path};
const DROP: [&str; 5] = ["v1", "v2", "appendix_g", "mds", "poseidon_build"];
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    println!("cargo:rerun-if-changed={}", from.display());
    for e in fs::read_dir(from).unwrap().flatten() {
        let (p, q) = (e.path(), to.join(e.file_name()));
        if p.is_dir() {
            copy(&p, &q);
        } else {
            println!("cargo:rerun-if-changed={}", p.display());
            fs::copy(&p, &q).unwrap();
        }
    }
}
fn main() {
    let src = Path::new("/repo/poseidon-paramgen/src");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("pg");
    let _ = fs::remove_dir_all(&out);
    copy(src, &out);
    let mut root = String::new();
    let mut pending: Vec<&str> = vec![];
    let lib = fs::read_to_string(src.join("lib.rs")).unwrap();
    for l in lib.lines() {
        let t = l.trim();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        if t.starts_with("///") || t.starts_with("#[") {
            pending.push(l);
            continue;
        }
        let w: Vec<&str> = t.split_whitespace().collect();
        let m = w.iter().position(|x| *x == "mod").and_then(|i| w.get(i + 1)).map(|x| x.trim_end_matches(';'));
        if t.ends_with(';') && m.map_or(false, |m| DROP.contains(&m)) {
            pending.clear();
            continue;
        }
        for p in pending.drain(..) {
            root += p;
            root += "\n";
        }
        root += l;
        root += "\n";
    }
    fs::write(out.join("root.rs"), root).unwrap();
}
