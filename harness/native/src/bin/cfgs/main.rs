//! C15: the same requests to the library built in many configurations.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vcore::gen;
use vcore::model;
use vcore::run::{Check, Info};
use vcore::F;

struct Worker {
    name: String,
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
fn start(name: &str) -> Worker {
    let dir = std::env::var("VERIF_WORKERS").expect("VERIF_WORKERS");
    let mut child = Command::new(format!("{dir}/cfgworker-{name}")).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("worker");
    let (stdin, stdout) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Worker { name: name.into(), child, stdin, stdout }
}
thread_local! {
    static WORKERS: RefCell<Vec<Worker>> = RefCell::new(vec![]);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Request {
    op: String,
    words: Vec<F>,
}
fn requests() -> BoxedStrategy<Request> {
    let op = |s: &'static str| gen::any_state().prop_map(move |(_, words, _)| Request { op: s.into(), words });
    prop_oneof![
        6 => op("hash"),
        4 => op("optimised"),
        4 => op("textbook"),
        1 => op("circuit"),
        3 => gen::one_of(1..6, |n| prop_oneof![
            3 => proptest::collection::vec(gen::fe(), n * n),
            1 => proptest::collection::vec(gen::uniform(), n * n),
            1 => proptest::collection::vec((0u64..3).prop_map(F::from_u64), n * n),
        ].prop_map(|words| Request { op: "square".into(), words }).boxed()),
    ]
    .boxed()
}
fn expected(r: &Request) -> Option<String> {
    let show = |v: &[F]| v.iter().map(|x| x.hex()).collect::<Vec<_>>().join(" ");
    Some(match r.op.as_str() {
        "hash" => model::hash(&r.words[0], &r.words[1..]).hex(),
        "circuit" => format!("{} true", model::hash(&r.words[0], &r.words[1..]).hex()),
        "optimised" | "textbook" => {
            let s = model::permute(r.words.len() - 1, &r.words);
            format!("{} {}", s[1].hex(), show(&s))
        }
        "square" => {
            let n = (1..6).find(|n| n * n == r.words.len()).unwrap();
            let m = model::unflatten(&r.words, n);
            let d = model::det(&m);
            let i = model::inverse(&m).map(|i| show(&model::flatten(&i))).unwrap_or("singular".into());
            format!("{} | {} | {}", d.hex(), i, show(&model::flatten(&model::mat_mul(&m, &model::transpose(&m)))))
        }
        _ => return None,
    })
}
fn ask(r: &Request, names: &[String]) -> Result<Vec<(String, String)>, String> {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_empty() {
            *w = names.iter().map(|n| start(n)).collect();
        }
        let mut line = r.op.clone();
        for x in &r.words {
            line += " ";
            line += &x.hex();
        }
        line += "\n";
        let mut dead = None;
        for k in w.iter_mut() {
            if k.stdin.write_all(line.as_bytes()).and_then(|_| k.stdin.flush()).is_err() {
                dead = Some(k.name.clone());
            }
        }
        let mut out = vec![];
        for k in w.iter_mut() {
            let mut s = String::new();
            match k.stdout.read_line(&mut s) {
                Ok(n) if n > 0 => out.push((k.name.clone(), s.trim().to_string())),
                _ => dead = Some(k.name.clone()),
            }
        }
        if let Some(d) = dead {
            w.clear(); // restart everything for the next request
            return Err(format!("configuration {d}: the process died on {r:?}"));
        }
        Ok(out)
    })
}

fn main() {
    let mut c = Check::from_args();
    let names: Vec<String> = std::env::var("VERIF_CONFIGS").expect("VERIF_CONFIGS").split(',').map(|s| s.to_string()).collect();
    let check = |r: &Request| {
        let answers: Vec<_> = ask(r, &names)?.into_iter().filter(|(_, a)| a != "unsupported").collect();
        let want = expected(r).unwrap_or_else(|| answers[0].1.clone());
        for (n, a) in &answers {
            if *a != want {
                let agree: Vec<_> = answers.iter().filter(|x| x.1 == want).map(|x| x.0.as_str()).collect();
                return Err(format!("configuration {n}: {} of {:?} gives {}, expected {} (as in {agree:?})", r.op, r.words, vcore::run::short(a), vcore::run::short(&want)));
            }
        }
        Ok(Info::new(answers.len() > 1).class(r.op.clone()))
    };
    c.exhaustive(
        "parameters",
        "every published parameter set dumped by every configuration, compared; all non-trivial",
        (2..=8).map(|t| Request { op: "params".into(), words: vec![F::ZERO; t] }).collect(),
        check,
    );
    c.part(
        "requests",
        "hashes, both permutations with their full state, gadgets and square-matrix operations on generated inputs, sent to the library built in every configuration; all answers equal the model's; non-trivial: at least two configurations answered",
        16_000,
        20,
        requests,
        check,
    );
    c.finish()
}
