//! C19: width-3 states, the library against the Sage reference committed in the repository.
use native::{hash, instance, Entry};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vcore::run::{must, Check, Info, Verdict};
use vcore::{gen, F};

struct Reference {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
impl Drop for Reference {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
thread_local! {
    static REF: RefCell<Option<Reference>> = RefCell::new(None);
}
/// A failure of the stand-in for Sage is an error of the harness, hence a panic.
fn reference(f: &str, st: &[F]) -> Vec<F> {
    REF.with(|r| {
        let mut r = r.borrow_mut();
        let r = r.get_or_insert_with(|| {
            let mut child = Command::new("python3")
                .arg(std::env::var("VERIF_SAGE_REF").expect("VERIF_SAGE_REF"))
                .arg("/repo/poseidonperm_x17.sage")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("python3");
            let (stdin, stdout) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            let mut r = Reference { child, stdin, stdout };
            let mut l = String::new();
            r.stdout.read_line(&mut l).unwrap();
            assert_eq!(l.trim(), "ready", "the Sage file could not be loaded");
            r
        });
        let words: Vec<String> = st.iter().map(|x| x.hex()).collect();
        writeln!(r.stdin, "{f} {}", words.join(" ")).unwrap();
        r.stdin.flush().unwrap();
        let mut l = String::new();
        r.stdout.read_line(&mut l).unwrap();
        assert!(!l.starts_with("error") && !l.is_empty(), "{f}: {l}");
        l.split_whitespace().map(F::from_hex).collect()
    })
}
fn check(st: &Vec<F>) -> Verdict {
    let (a, b) = (reference("perm", st), reference("perm_original", st));
    if a != b {
        return Err(format!("the two permutations of the Sage file differ: {a:?}, {b:?}"));
    }
    for e in [Entry::Optimised, Entry::Textbook] {
        let (w, out) = must(&format!("{e:?} permutation"), || {
            let mut i = instance(2);
            let w = i.call(e, st);
            (w, i.output())
        })?;
        if out != a || w != a[1] {
            return Err(format!("{e:?} permutation: state {out:?}, output {w:?}; the Sage reference gives {a:?}"));
        }
    }
    let h = must("hash_2", || hash(&st[0], &st[1..]))?;
    if h != a[1] {
        return Err(format!("hash_2 is {h:?}; the Sage reference gives {:?}", a[1]));
    }
    Ok(Info::new(st.iter().any(|x| !x.is_zero())))
}
fn main() {
    let mut c = Check::from_args();
    let k = if c.variant == "checked" { 5 } else { 1 };
    c.exhaustive("small states", "a word is not zero", (0..125u64).map(|i| vec![F::from_u64(i % 5), F::from_u64(i / 5 % 5), F::from_u64(i / 25)]).collect(), check);
    c.part("states", "a word is not zero", 12000 / k, 25, || { use proptest::strategy::Strategy; gen::state(2).prop_map(|(s, _)| s).boxed() }, check);
    c.finish()
}
