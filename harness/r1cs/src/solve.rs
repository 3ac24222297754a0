//! Search for other satisfying assignments of a rank-1 constraint system, given the values of
//! some variables.
use ark_relations::r1cs::ConstraintMatrices;
use decaf377::Fq;
use native::ff;
use vcore::F;

type Lc = Vec<(usize, F)>;
pub struct System {
    pub n: usize,
    pub cons: Vec<[Lc; 3]>,
    occ: Vec<Vec<u32>>,
    /// variables of each constraint, without repetition
    vars: Vec<Vec<usize>>,
}
impl System {
    pub fn new(m: &ConstraintMatrices<Fq>) -> System {
        let n = m.num_instance_variables + m.num_witness_variables;
        let conv = |row: &Vec<(Fq, usize)>| -> Lc { row.iter().map(|(c, i)| (*i, ff(c))).collect() };
        let cons: Vec<[Lc; 3]> = (0..m.num_constraints).map(|k| [conv(&m.a[k]), conv(&m.b[k]), conv(&m.c[k])]).collect();
        let mut occ = vec![vec![]; n];
        let mut vars = vec![];
        for (k, c) in cons.iter().enumerate() {
            let mut vs: Vec<usize> = c.iter().flatten().map(|x| x.0).collect();
            vs.sort();
            vs.dedup();
            for v in &vs {
                occ[*v].push(k as u32);
            }
            vars.push(vs);
        }
        System { n, cons, occ, vars }
    }
    fn lc(l: &Lc, z: &[F]) -> F {
        l.iter().fold(F::ZERO, |s, (i, c)| s.add(&c.mul(&z[*i])))
    }
    /// First violated constraint.
    pub fn violated(&self, z: &[F]) -> Option<usize> {
        self.cons.iter().position(|[a, b, c]| Self::lc(a, z).mul(&Self::lc(b, z)) != Self::lc(c, z))
    }
}

enum Step {
    Ok,
    Conflict,
}
/// One partial assignment with undo.
struct Search<'a> {
    s: &'a System,
    val: Vec<Option<F>>,
    unknown: Vec<u32>,
    trail: Vec<usize>,
    queue: Vec<u32>,
    /// constraints that are quadratic in their single unknown
    quad: Vec<u32>,
}
impl<'a> Search<'a> {
    fn set(&mut self, v: usize, x: F) {
        self.val[v] = Some(x);
        self.trail.push(v);
        for &k in &self.s.occ[v] {
            self.unknown[k as usize] -= 1;
            if self.unknown[k as usize] <= 1 {
                self.queue.push(k);
            }
        }
    }
    fn undo_to(&mut self, mark: usize) {
        while self.trail.len() > mark {
            let v = self.trail.pop().unwrap();
            self.val[v] = None;
            for &k in &self.s.occ[v] {
                self.unknown[k as usize] += 1;
            }
        }
        self.queue.clear();
    }
    fn split(&self, l: &Lc) -> (F, F) {
        let (mut c0, mut c1) = (F::ZERO, F::ZERO);
        for (i, c) in l {
            match &self.val[*i] {
                Some(x) => c0 = c0.add(&c.mul(x)),
                None => c1 = c1.add(c),
            }
        }
        (c0, c1)
    }
    /// a*x^2 + b*x + c of a constraint with one unknown (or none: a = b = 0).
    fn poly(&self, k: usize) -> (F, F, F) {
        let [a, b, c] = &self.s.cons[k];
        let ((a0, a1), (b0, b1), (c0, c1)) = (self.split(a), self.split(b), self.split(c));
        (a1.mul(&b1), a0.mul(&b1).add(&a1.mul(&b0)).sub(&c1), a0.mul(&b0).sub(&c0))
    }
    fn unknown_of(&self, k: usize) -> Option<usize> {
        self.s.vars[k].iter().copied().find(|v| self.val[*v].is_none())
    }
    fn propagate(&mut self) -> Step {
        while let Some(k) = self.queue.pop() {
            let k = k as usize;
            if self.unknown[k] > 1 {
                continue;
            }
            let (a, b, c) = self.poly(k);
            match self.unknown_of(k) {
                None => {
                    if !c.is_zero() {
                        self.queue.clear();
                        return Step::Conflict;
                    }
                }
                Some(v) => {
                    if !a.is_zero() {
                        self.quad.push(k as u32);
                    } else if !b.is_zero() {
                        self.set(v, c.neg().mul(&b.inv()));
                    } else if !c.is_zero() {
                        self.queue.clear();
                        return Step::Conflict;
                    }
                }
            }
        }
        Step::Ok
    }
}

pub struct Outcome {
    /// Everything that occurs in a constraint followed from the fixed values.
    pub determined: bool,
    /// An assignment satisfying all constraints in which a target differs.
    pub other: Option<Vec<F>>,
    pub nodes: usize,
}

/// `honest`: a satisfying assignment; `fixed`: variables whose honest values are given;
/// `targets`: variables that must be determined by them. `choices` drives the search.
pub fn search(s: &System, honest: &[F], fixed: &[bool], targets: &[usize], choices: &[u64], budget: usize) -> Outcome {
    let mut w = Search { s, val: vec![None; s.n], unknown: s.vars.iter().map(|v| v.len() as u32).collect(), trail: vec![], queue: vec![], quad: vec![] };
    for k in 0..s.cons.len() {
        if w.unknown[k] <= 1 {
            w.queue.push(k as u32);
        }
    }
    for v in 0..s.n {
        if fixed[v] {
            w.set(v, honest[v]);
        }
    }
    let mut nodes = 0;
    if let Step::Conflict = w.propagate() {
        // cannot happen with a satisfying honest assignment
        return Outcome { determined: true, other: None, nodes };
    }
    let differs = |z: &[Option<F>]| targets.iter().any(|t| z[*t].map_or(false, |x| x != honest[*t]));
    let relevant = |w: &Search| (0..s.n).any(|v| w.val[v].is_none() && !s.occ[v].is_empty());
    if !relevant(&w) {
        let z: Vec<F> = (0..s.n).map(|v| w.val[v].unwrap_or(honest[v])).collect();
        let other = (differs(&w.val) && s.violated(&z).is_none()).then_some(z);
        return Outcome { determined: true, other, nodes };
    }
    // Something is left open: try to reach a full assignment with a different target.
    let base = w.trail.len();
    let all_open: Vec<usize> = (0..s.n).filter(|v| w.val[*v].is_none() && !s.occ[*v].is_empty()).collect();
    let is_target: std::collections::HashSet<usize> = targets.iter().copied().collect();
    let budget = budget + 3 * all_open.len();
    for (round, &seed) in choices.iter().enumerate() {
        w.undo_to(base);
        w.quad.clear();
        for k in 0..s.cons.len() {
            if w.unknown[k] <= 1 {
                w.queue.push(k as u32);
            }
        }
        let mut rng = seed | 1;
        let mut next = move || {
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            rng
        };
        // Two of four rounds branch freely; two follow the order of allocation with honest values, but for one
        // deviation. Odd rounds: insist on one wrong output from the start.
        let orderly = round % 4 >= 2;
        let mut start = None;
        if orderly && round % 2 == 0 {
            let v = if next() % 2 == 0 { all_open[0] } else { all_open[(next() % all_open.len() as u64) as usize] };
            start = Some(v);
        }
        if round % 2 == 1 {
            let t = targets[(next() % targets.len() as u64) as usize];
            if w.val[t].is_none() {
                let d = if next() % 2 == 0 { F::ONE } else { F::from_u64(next()) };
                w.set(t, honest[t].add(&d));
            }
        }
        if let Step::Conflict = w.propagate() {
            continue;
        }
        // Depth-first with bounded backtracking.
        let mut stack: Vec<(usize, usize, Vec<F>)> = vec![]; // (mark, variable, remaining candidates)
        let mut deviated = false;
        let mut local = 0;
        loop {
            local += 1;
            nodes += 1;
            if local > budget {
                break;
            }
            // a quadratic with one unknown?
            let mut choice: Option<(usize, Vec<F>)> = None;
            let mut dead = false;
            let quads = w.quad.clone();
            for &k in quads.iter().rev() {
                let k = k as usize;
                if w.unknown[k] != 1 {
                    continue;
                }
                let Some(v) = w.unknown_of(k) else { continue };
                let (a, b, c) = w.poly(k);
                if a.is_zero() {
                    continue;
                }
                let four = F::from_u64(4);
                let disc = b.sq().sub(&four.mul(&a).mul(&c));
                match disc.sqrt() {
                    None => dead = true,
                    Some(r) => {
                        let d = a.add(&a).inv();
                        let (x, y) = (b.neg().add(&r).mul(&d), b.neg().sub(&r).mul(&d));
                        let mut c = if x == y { vec![x] } else { vec![x, y] };
                        // candidates are taken from the end: prefer the dishonest root
                        if (c.len() == 2 && !deviated && c[1] == honest[v]) || (deviated && next() % 2 == 0) {
                            c.reverse();
                        }
                        choice = Some((v, c));
                    }
                }
                break;
            }
            if !dead && choice.is_none() {
                let many = orderly || all_open.len() > 3000;
                let open: Vec<usize> = if many {
                    // the first few in order, other than targets if there are any
                    let mut o: Vec<usize> = all_open.iter().copied().filter(|v| w.val[*v].is_none() && !is_target.contains(v)).take(8).collect();
                    if o.is_empty() {
                        o = all_open.iter().copied().filter(|v| w.val[*v].is_none()).collect();
                    }
                    o
                } else {
                    all_open.iter().copied().filter(|v| w.val[*v].is_none()).collect()
                };
                if open.is_empty() {
                    let z: Vec<F> = (0..s.n).map(|v| w.val[v].unwrap_or(honest[v])).collect();
                    if s.violated(&z).is_none() && differs(&w.val) {
                        return Outcome { determined: false, other: Some(z), nodes };
                    }
                    dead = true;
                } else if let (true, Some(v)) = (orderly, start.take().filter(|v| w.val[*v].is_none())) {
                    choice = Some((v, vec![honest[v].add(&F::from_u64(next())), honest[v].add(&F::ONE)]));
                } else if orderly {
                    let v = open[0];
                    choice = Some((v, vec![F::from_u64(next()), honest[v]]));
                } else {
                    // prefer variables allocated early; sometimes any
                    let nontarget: Vec<usize> = open.iter().copied().filter(|v| !is_target.contains(v)).collect();
                    let pool = if nontarget.is_empty() { &open } else { &nontarget };
                    let v = if next() % 3 == 0 { pool[(next() % pool.len() as u64) as usize] } else { *pool.iter().min_by_key(|v| s.occ[**v].iter().map(|k| w.unknown[*k as usize]).min()).unwrap() };
                    let h = honest[v];
                    let mut c = vec![h, F::ZERO, h.neg(), F::ONE, F::from_u64(next()), h.add(&F::ONE)];
                    if deviated && next() % 2 == 0 {
                        c.reverse();
                    } else if next() % 2 == 0 {
                        let i = 1 + (next() % 4) as usize;
                        c.swap(i, 5);
                    }
                    choice = Some((v, c));
                }
            }
            let mut advance = choice.filter(|_| !dead);
            if let Some((v, c)) = advance.take() {
                stack.push((w.trail.len(), v, c));
            }
            // take the next candidate of the innermost choice that has one
            let mut progressed = false;
            while let Some((mark, v, mut c)) = stack.pop() {
                w.undo_to(mark);
                if let Some(x) = c.pop() {
                    stack.push((mark, v, c));
                    if x != honest[v] {
                        deviated = true;
                    }
                    w.set(v, x);
                    match w.propagate() {
                        Step::Ok => {
                            progressed = true;
                            break;
                        }
                        Step::Conflict => {
                            nodes += 1;
                            local += 1;
                            if local > budget {
                                break;
                            }
                        }
                    }
                }
            }
            if !progressed {
                break;
            }
        }
    }
    Outcome { determined: false, other: None, nodes }
}
