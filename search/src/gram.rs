//! Grammar table, recogniser (all derivations, no lookahead tricks) and generator.
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Debug, Clone)]
pub enum E { Not(&'static str), Tok(&'static str), Rule(usize), Seq(Vec<E>), Alt(Vec<E>), Opt(Box<E>), Star(Box<E>) }
pub struct Grammar { pub names: Vec<&'static str>, pub body: Vec<E>, pub min: Vec<usize>, nfa: Vec<Nfa> }
#[derive(Clone, Copy)]
enum Sym { Not(&'static str), Tok(&'static str), Rule(usize) }
#[derive(Default)]
struct Nfa { eps: Vec<Vec<usize>>, sym: Vec<Option<(Sym, usize)>>, start: usize, end: usize }
impl Nfa {
    fn st(&mut self) -> usize { self.eps.push(vec![]); self.sym.push(None); self.eps.len() - 1 }
    fn add(&mut self, e: &E) -> (usize, usize) {
        match e {
            E::Tok(t) => { let a = self.st(); let b = self.st(); self.sym[a] = Some((Sym::Tok(t), b)); (a, b) }
            E::Not(t) => { let a = self.st(); let b = self.st(); self.sym[a] = Some((Sym::Not(t), b)); (a, b) }
            E::Rule(r) => { let a = self.st(); let b = self.st(); self.sym[a] = Some((Sym::Rule(*r), b)); (a, b) }
            E::Seq(v) => { let a = self.st(); let mut c = a; for x in v { let (p, q) = self.add(x); self.eps[c].push(p); c = q } (a, c) }
            E::Alt(v) => { let a = self.st(); let b = self.st(); for x in v { let (p, q) = self.add(x); self.eps[a].push(p); self.eps[q].push(b) } (a, b) }
            E::Opt(x) => { let a = self.st(); let b = self.st(); let (p, q) = self.add(x); self.eps[a].push(p); self.eps[q].push(b); self.eps[a].push(b); (a, b) }
            E::Star(x) => { let a = self.st(); let (p, q) = self.add(x); self.eps[a].push(p); self.eps[q].push(a); (a, a) }
        }
    }
}
fn parse_e(t: &[&'static str], i: &mut usize, names: &[&'static str]) -> E {
    let mut alts = vec![];
    let mut seq = vec![];
    while *i < t.len() && !["]", ")", "}"].contains(&t[*i]) {
        match t[*i] {
            "|" => { *i += 1; alts.push(E::Seq(std::mem::take(&mut seq))) }
            "[" => { *i += 1; let e = parse_e(t, i, names); seq.push(E::Opt(Box::new(e))); *i += 1 }
            "(" => { *i += 1; let e = parse_e(t, i, names); seq.push(e); *i += 1 }
            "{" => { *i += 1; let e = parse_e(t, i, names); seq.push(E::Star(Box::new(e))); *i += 1 }
            w => { *i += 1; seq.push(if let Some(k) = w.strip_prefix("!'") { E::Not(k) } else if let Some(k) = w.strip_prefix('\'') { E::Tok(k) } else { E::Rule(names.iter().position(|n| *n == w).expect(w)) }) }
        }
    }
    if alts.is_empty() { E::Seq(seq) } else { alts.push(E::Seq(seq)); E::Alt(alts) }
}
pub fn load() -> Grammar {
    let text = include_str!("../../spec/grammar.txt");
    let lines: Vec<&'static str> = text.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()).collect();
    let names: Vec<&'static str> = lines.iter().map(|l| l.split(':').next().unwrap()).collect();
    let body: Vec<E> = lines.iter().map(|l| {
        let toks: Vec<&'static str> = l.split_once(':').unwrap().1.split_whitespace().collect();
        parse_e(&toks, &mut 0, &names)
    }).collect();
    let mut min = vec![1_000_000usize; names.len()];
    loop {
        let mut ch = false;
        for r in 0..names.len() { let m = min_e(&body[r], &min) + 1; if m < min[r] { min[r] = m; ch = true } }
        if !ch { break }
    }
    let nfa = body.iter().map(|b| { let mut n = Nfa::default(); let (s, e) = n.add(b); n.start = s; n.end = e; n }).collect();
    Grammar { names, body, min, nfa }
}
fn min_e(e: &E, min: &[usize]) -> usize {
    match e {
        E::Tok(_) | E::Not(_) => 0, E::Rule(r) => min[*r],
        E::Seq(v) => v.iter().map(|x| min_e(x, min)).max().unwrap_or(0),
        E::Alt(v) => v.iter().map(|x| min_e(x, min)).min().unwrap(),
        E::Opt(_) | E::Star(_) => 0,
    }
}
#[derive(Debug)]
pub struct T { pub kind: &'static str, pub ch: Vec<C>, pub first: usize, pub last: usize }
#[derive(Debug, Clone)]
pub enum C { Tok(usize), Tree(Rc<T>) }
impl T {
    pub fn has(&self, k: &str) -> bool { self.ch.iter().any(|c| matches!(c, C::Tree(t) if t.kind == k || t.has(k))) }
}
type Ends = Rc<Vec<(usize, Rc<T>)>>;
pub struct Rec<'a> { g: &'a Grammar, toks: &'a [&'static str], memo: HashMap<(usize, usize), Ends>, pub far: usize }
impl<'a> Rec<'a> {
    pub fn new(g: &'a Grammar, toks: &'a [&'static str]) -> Self { Rec { g, toks, memo: HashMap::new(), far: 0 } }
    pub fn run(&mut self, r: usize) { self.parse(r, 0); }
    fn parse(&mut self, r: usize, i: usize) -> Ends {
        if let Some(e) = self.memo.get(&(r, i)) { return e.clone() }
        let g = self.g;
        let nfa = &g.nfa[r];
        let mut seen: HashMap<(usize, usize), Vec<C>> = HashMap::new();
        let mut work = vec![(nfa.start, i)];
        seen.insert((nfa.start, i), vec![]);
        let mut ends = vec![];
        while let Some((s, p)) = work.pop() {
            let ch = seen[&(s, p)].clone();
            if s == nfa.end {
                let last = if p > i { p - 1 } else { i };
                ends.push((p, Rc::new(T { kind: g.names[r], ch: ch.clone(), first: i, last })));
            }
            for &q in &nfa.eps[s] { if !seen.contains_key(&(q, p)) { seen.insert((q, p), ch.clone()); work.push((q, p)) } }
            match nfa.sym[s] {
                Some((Sym::Tok(k), q)) => if { if p < self.toks.len() && self.toks[p] == k { self.far = self.far.max(p + 1) } true } && p < self.toks.len() && self.toks[p] == k && !seen.contains_key(&(q, p + 1)) {
                    let mut c = ch.clone(); c.push(C::Tok(p)); seen.insert((q, p + 1), c); work.push((q, p + 1));
                },
                Some((Sym::Rule(x), q)) => for (e, t) in self.parse(x, p).iter() {
                    if !seen.contains_key(&(q, *e)) {
                        let mut c = ch.clone();
                        if !t.ch.is_empty() { c.push(C::Tree(t.clone())) }
                        seen.insert((q, *e), c); work.push((q, *e));
                    }
                },
                Some((Sym::Not(k), q)) => if (p >= self.toks.len() || self.toks[p] != k) && !seen.contains_key(&(q, p)) { seen.insert((q, p), ch.clone()); work.push((q, p)) },
                None => (),
            }
        }
        let ends = Rc::new(ends);
        self.memo.insert((r, i), ends.clone());
        ends
    }
}
impl Grammar {
    pub fn rule(&self, n: &str) -> usize { self.names.iter().position(|x| *x == n).unwrap() }
    /// Derivation of the whole token sequence from the rule, if there is one
    pub fn derive(&self, rule: &str, toks: &[&'static str]) -> Option<Rc<T>> {
        let mut r = Rec::new(self, toks);
        let e = r.parse(self.rule(rule), 0);
        e.iter().find(|x| x.0 == toks.len()).map(|x| x.1.clone())
    }
    /// May a node of this kind have these children (None = token kind, Some = node kind)?
    pub fn rhs_ok(&self, rule: &str, ch: &[(bool, &str)], nullable: &dyn Fn(&str) -> bool) -> bool {
        let nfa = &self.nfa[self.rule(rule)];
        let mut cur = vec![nfa.start];
        let close = |cur: &mut Vec<usize>| {
            let mut i = 0;
            while i < cur.len() {
                let s = cur[i];
                for &q in &nfa.eps[s] { if !cur.contains(&q) { cur.push(q) } }
                if let Some((Sym::Not(_), q)) = nfa.sym[s] { if !cur.contains(&q) { cur.push(q) } }
                // nodes that derive nothing are left out of the tree
                if let Some((Sym::Rule(x), q)) = nfa.sym[s] { if nullable(self.names[x]) && !cur.contains(&q) { cur.push(q) } }
                i += 1;
            }
        };
        close(&mut cur);
        for &(is_tree, k) in ch {
            let mut next = vec![];
            for &s in &cur {
                match nfa.sym[s] {
                    Some((Sym::Tok(t), q)) if !is_tree && t == k => next.push(q),
                    Some((Sym::Rule(x), q)) if is_tree && self.names[x] == k => next.push(q),
                    _ => (),
                }
            }
            cur = next;
            close(&mut cur);
        }
        cur.contains(&nfa.end)
    }
}
pub struct Rng(pub u64, pub f64); // .1: how often an operand is a single token
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, p: f64) -> bool { (self.next() % 1_000_000) as f64 / 1e6 < p }
    pub fn pick<'a, X: ?Sized>(&mut self, v: &[&'a X]) -> &'a X { v[self.below(v.len())] }
}
/// Random sentence of the rule; `fuel` limits its size
pub fn gen(g: &Grammar, r: usize, rng: &mut Rng, fuel: &mut i64, out: &mut Vec<&'static str>) { gen_e(g, &g.body[r], rng, fuel, out) }
pub fn gen_pub(g: &Grammar, e: &E, rng: &mut Rng, fuel: &mut i64, out: &mut Vec<&'static str>) { gen_e(g, e, rng, fuel, out) }
fn gen_e(g: &Grammar, e: &E, rng: &mut Rng, fuel: &mut i64, out: &mut Vec<&'static str>) {
    *fuel -= 1;
    match e {
        E::Not(_) => (),
        E::Tok(k) => out.push(k),
        E::Rule(r) if rng.1 > 0.0 && matches!(g.names[*r], "Expression" | "LogicalTerm" | "LogicalFactor" | "ArithmeticExpression" | "Term" | "Factor" | "Primary") && rng.chance(rng.1) => out.push(["Identifier", "UInt", "Identifier", "Bool", "UReal", "String"][rng.below(6)]),
        E::Rule(r) => gen(g, *r, rng, fuel, out),
        E::Seq(v) => for x in v { gen_e(g, x, rng, fuel, out) },
        E::Alt(v) => {
            let k = if *fuel > 0 { rng.below(v.len()) } else { let m = v.iter().map(|x| min_e(x, &g.min)).min().unwrap(); let c: Vec<usize> = (0..v.len()).filter(|&i| min_e(&v[i], &g.min) == m).collect(); c[rng.below(c.len())] };
            gen_e(g, &v[k], rng, fuel, out)
        }
        E::Opt(x) => if *fuel > 0 && rng.chance(0.4) { gen_e(g, x, rng, fuel, out) },
        E::Star(x) => { let mut n = 0; let (most, p) = if rng.chance(0.03) { (60, 0.95) } else { (4, if rng.1 > 0.0 { 0.6 } else { 0.45 }) }; while *fuel > 0 && n < most && rng.chance(p) { gen_e(g, x, rng, fuel, out); n += 1 } }
    }
}
