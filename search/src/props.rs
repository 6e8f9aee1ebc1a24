//! One decision procedure per property, on the real code.
use crate::fmto::{self, Gap, Lay, Out};
use crate::gram::{Grammar, Rec, T};
use crate::lexo::{self, Item};
use crate::names;
use mofmt::hooks::{Child, Marker, Tree};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
#[derive(Clone, Debug)]
pub struct Case { pub entry: &'static str, pub text: String }
pub type Res = Result<bool, String>; // Ok(non-trivial) or what is wrong
const NAME: &str = "dir/some file.mo";
struct Tok { text: String, kind: &'static str, start: lexo::Pos, end: lexo::Pos, idx: usize }
struct Parsed { tokens: Vec<Tok>, comments: Vec<Tok>, errors: Vec<String>, raw: Option<(Vec<mofmt::hooks::Token>, Vec<mofmt::hooks::Token>, Vec<mofmt::hooks::SyntaxEvent>)> }
fn conv(v: &[mofmt::hooks::Token]) -> Vec<Tok> {
    v.iter().map(|t| Tok { text: t.text.clone(), kind: names::tok_name(t.kind), start: lexo::Pos { pos: t.start.pos, line: t.start.line, col: t.start.col }, end: lexo::Pos { pos: t.end.pos, line: t.end.line, col: t.end.col }, idx: t.idx }).collect()
}
fn real_parse(c: &Case) -> Result<Parsed, String> {
    let k = names::kind(c.entry);
    match catch_unwind(AssertUnwindSafe(|| mofmt::parse(NAME, &c.text, k))) {
        Ok(p) => Ok(Parsed { tokens: conv(&p.tokens), comments: conv(&p.comments), errors: p.errors, raw: Some((p.tokens, p.comments, p.events)) }),
        Err(e) => Err(panic_text(e)),
    }
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()) }
fn err_pos(e: &str) -> Option<(usize, usize)> {
    let r = e.strip_prefix(NAME)?.strip_prefix(':')?;
    let mut it = r.splitn(3, ':');
    let l = it.next()?; let c = it.next()?; let t = it.next()?;
    let num = |s: &str| if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None };
    if !t.starts_with(' ') || t.trim().is_empty() { return None }
    Some((num(l)?, num(c)?))
}
/// furthest token that any derivation can reach
fn viable(g: &Grammar, entry: &str, toks: &[&'static str]) -> usize { let mut r = Rec::new(g, toks); r.run(g.rule(entry)); r.far }
fn kinds(l: &lexo::Lexed) -> Vec<&'static str> { l.tokens.iter().map(|t| t.kind).collect() }

pub fn c01(c: &Case) -> Res {
    let p = match real_parse(c) { Ok(p) => p, Err(_) => return Ok(false) };
    let nerr = lexo::lex(&c.text).errors.len();
    let mut all: Vec<&Tok> = p.tokens.iter().chain(p.comments.iter()).collect();
    all.sort_by_key(|t| t.start.pos);
    for v in [&p.tokens, &p.comments] { if v.windows(2).any(|w| w[0].start.pos >= w[1].start.pos) { return Err("tokens or comments are not in source order".into()) } }
    let mut at = 0;
    let mut gaps = vec![];
    for (n, t) in all.iter().enumerate() {
        if t.idx != n { return Err(format!("item {:?} has number {} instead of {}", t.text, t.idx, n)) }
        if t.start.pos < at { return Err(format!("{:?} overlaps what precedes it", t.text)) }
        if t.end.pos <= t.start.pos || c.text.get(t.start.pos..t.end.pos) != Some(&t.text[..]) { return Err(format!("text {:?} is not that of its span {}..{}", t.text, t.start.pos, t.end.pos)) }
        gaps.push((at, t.start.pos));
        at = t.end.pos;
    }
    gaps.push((at, c.text.len()));
    // what belongs to no token must be white space or be reported
    let errs: Vec<(usize, usize)> = p.errors.iter().filter_map(|e| err_pos(e)).collect();
    let errs = if errs.len() == p.errors.len() { errs } else { return Ok(true) };
    let mut starts = vec![];
    for (a, b) in gaps {
        let s = match c.text.get(a..b) { Some(s) => s, None => return Err("span cuts a character".into()) };
        if let Some(k) = s.find(|ch: char| !ch.is_ascii_whitespace()) {
            let q = a + k;
            let line = 1 + unify(&c.text[..q]).matches('\n').count();
            let col = 1 + unify(&c.text[..q]).chars().rev().take_while(|x| *x != '\n').count();
            starts.push((line, col));
        }
    }
    for s in &starts { if !errs.contains(s) { return Err(format!("characters at {}:{} are in no token, comment or reported error", s.0, s.1)) } }
    if nerr == 0 && !starts.is_empty() { return Err("characters are dropped".into()) }
    Ok(all.len() > 1)
}
pub fn c02(c: &Case) -> Res {
    let p = match real_parse(c) { Ok(p) => p, Err(_) => return Ok(false) };
    let o = lexo::lex(&c.text);
    for (what, r, e) in [("token", &p.tokens, &o.tokens), ("comment", &p.comments, &o.comments)] {
        for (a, b) in r.iter().zip(e.iter()) {
            if a.kind != b.kind || a.text != b.text { return Err(format!("{} {:?} {} where the lexical rules give {:?} {}", what, a.text, a.kind, b.text, b.kind)) }
        }
        if r.len() != e.len() { return Err(format!("{} {}s where the lexical rules give {}", r.len(), what, e.len())) }
    }
    let (n, errs) = (o.errors.len(), &p.errors);
    if errs.len() < n { return Err(format!("{} lexical errors but {} messages", n, errs.len())) }
    let lexical = errs.iter().filter(|e| e.contains(": unclosed ") || e.contains(": unexpected character")).count();
    if lexical != n { return Err(format!("{} lexical errors reported instead of {}", lexical, n)) }
    Ok(o.tokens.len() + o.comments.len() > 0)
}
pub fn c03(g: &Grammar, c: &Case) -> Res {
    let p = match real_parse(c) { Ok(p) => p, Err(_) => return Ok(false) };
    let mut map = std::collections::HashMap::new();
    let (mut line, mut col) = (1, 1);
    for (i, ch) in c.text.char_indices() { map.insert(i, (line, col)); col += 1; if ch == '\n' || ch == '\r' && !c.text[i + 1..].starts_with('\n') { line += 1; col = 1 } }
    map.insert(c.text.len(), (line, col));
    for t in p.tokens.iter().chain(p.comments.iter()) {
        for (w, x) in [("start", t.start), ("end", t.end)] {
            if map.get(&x.pos) != Some(&(x.line, x.col)) { return Err(format!("{} of {:?} is given as {}:{} (byte {}), which is {:?}", w, t.text, x.line, x.col, x.pos, map.get(&x.pos))) }
        }
        if t.end.pos - t.start.pos != t.text.len() { return Err(format!("span of {:?} has the wrong length", t.text)) }
    }
    let o = lexo::lex(&c.text);
    for (a, b) in p.tokens.iter().zip(o.tokens.iter()).chain(p.comments.iter().zip(o.comments.iter())) {
        if a.text == b.text && (a.start.pos != b.start.pos || a.end.pos != b.end.pos) { return Err(format!("{:?} is at bytes {}..{} instead of {}..{}", a.text, a.start.pos, a.end.pos, b.start.pos, b.end.pos)) }
    }
    let mut pos = vec![];
    for e in &p.errors { match err_pos(e) { Some(x) => pos.push(x), None => return Err(format!("message {:?} is not `file:line:column: text`", e)) } }
    for (i, (a, b)) in pos.iter().zip(o.errors.iter()).enumerate() { if a != b { return Err(format!("error {:?} should be at {}:{}", p.errors[i], b.0, b.1)) } }
    let same = p.tokens.len() == o.tokens.len() && p.tokens.iter().zip(o.tokens.iter()).all(|(a, b)| a.kind == b.kind);
    if same && pos.len() > o.errors.len() {
        let perr = &pos[o.errors.len()..];
        let idx: Vec<usize> = perr.iter().map(|x| o.tokens.iter().position(|t| (t.start.line, t.start.col) == *x).unwrap_or(usize::MAX)).collect();
        let n = o.tokens.len();
        if n == 0 { if perr.iter().any(|x| *x != (1, 1)) { return Err("error of an empty source is not at 1:1".into()) } }
        else {
            if let Some(k) = idx.iter().position(|i| *i == usize::MAX) { return Err(format!("error {:?} is not at the start of a token", p.errors[o.errors.len() + k])) }
            if idx.windows(2).any(|w| w[0] > w[1]) { return Err("errors go backwards".into()) }
            if n < 120 {
                let v = viable(g, c.entry, &kinds(&o));
                if v >= n { if idx[0] + 3 < n { return Err(format!("source ends too early, but the error {:?} is not at its last token", p.errors[o.errors.len()])) } }
                else if idx[0] > v || idx[0] + 2 < v { return Err(format!("first error {:?} is not at the token where parsing fails ({:?} at {}:{})", p.errors[o.errors.len()], o.tokens[v].text, o.tokens[v].start.line, o.tokens[v].start.col)) }
            }
        }
    }
    Ok(o.tokens.len() > 0)
}
pub fn c04(g: &Grammar, c: &Case) -> Res {
    let o = lexo::lex(&c.text);
    if !o.errors.is_empty() { return Ok(false) }
    let p = match real_parse(c) { Ok(p) => p, Err(_) => return Ok(false) };
    let k = kinds(&o);
    if p.tokens.len() != k.len() || p.tokens.iter().zip(k.iter()).any(|(a, b)| a.kind != *b) { return Ok(false) }
    let ok = g.derive(c.entry, &k).is_some();
    match (ok, p.errors.is_empty()) {
        (true, false) => Err(format!("valid {} is rejected: {}", c.entry, p.errors[0])),
        (false, true) => Err(format!("invalid {} is accepted", c.entry)),
        _ => Ok(!k.is_empty()),
    }
}
fn nullable(n: &str) -> bool { matches!(n, "DescriptionString" | "Description" | "BasePrefix" | "TypePrefix" | "ElementList" | "OutputExpressionList" | "Composition" | "StoredDefinition") }
fn check_tree(g: &Grammar, t: &Tree, root: bool, leaves: &mut Vec<(usize, String)>) -> Result<(), String> {
    let name = names::kind_name(&t.kind);
    if name == "?" || name == "Error" { return Err("node without a grammar rule".into()) }
    if t.children.is_empty() && !root { return Err(format!("empty node {}", name)) }
    let ch: Vec<(bool, &str)> = t.children.iter().map(|c| match c { Child::Token(k) => (false, names::tok_name(k.kind)), Child::Tree(t) => (true, names::kind_name(&t.kind)) }).collect();
    if !g.rhs_ok(name, &ch, &nullable) { return Err(format!("children {:?} are no right-hand side of {}", ch.iter().map(|c| c.1).collect::<Vec<_>>(), name)) }
    for c in &t.children { match c { Child::Token(k) => leaves.push((k.idx, k.text.clone())), Child::Tree(t) => check_tree(g, t, false, leaves)? } }
    Ok(())
}
pub fn c05(g: &Grammar, c: &Case) -> Res {
    let mut p = match real_parse(c) { Ok(p) => p, Err(_) => return Ok(false) };
    if !p.errors.is_empty() { return Ok(false) }
    let (toks, _, ev) = p.raw.take().unwrap();
    let t = catch_unwind(AssertUnwindSafe(|| mofmt::build_tree(toks, ev))).map_err(|e| format!("no tree: {}", panic_text(e)))?;
    if names::kind_name(&t.kind) != c.entry { return Err(format!("root is labelled {} instead of {}", names::kind_name(&t.kind), c.entry)) }
    let mut leaves = vec![];
    check_tree(g, &t, true, &mut leaves)?;
    let exp: Vec<(usize, String)> = p.tokens.iter().map(|t| (t.idx, t.text.clone())).collect();
    if leaves != exp { return Err(format!("leaves {:?} are not the tokens", leaves.iter().map(|l| &l.1).collect::<Vec<_>>())) }
    Ok(p.tokens.len() > 1)
}
pub fn c06(c: &Case) -> Res { match real_parse(c) { Ok(p) => Ok(!p.tokens.is_empty()), Err(e) => Err(format!("panic: {}", e)) } }

pub struct Formatted { out: String, src: lexo::Lexed }
fn fmt(c: &Case) -> Result<Option<Formatted>, String> {
    if c.entry != "StoredDefinition" { return Ok(None) }
    let mut p = match real_parse(c) { Ok(p) => p, Err(_) => return Ok(None) };
    if !p.errors.is_empty() { return Ok(None) }
    let (t, cm, ev) = p.raw.take().unwrap();
    let out = catch_unwind(AssertUnwindSafe(|| mofmt::pretty_print(t, cm, ev))).map_err(panic_text)?;
    Ok(Some(Formatted { out, src: lexo::lex(&c.text) }))
}
pub fn c07(c: &Case) -> Res { match fmt(c) { Ok(x) => Ok(x.is_some()), Err(e) => Err(format!("panic: {}", e)) } }
/// Output split along the source's tokens
pub struct Seg { ws: String, text: String, tok: Option<usize>, com: Option<usize> }
pub fn align(out: &str, src: &lexo::Lexed) -> Result<Vec<Seg>, String> {
    let mut segs = vec![];
    let mut p = 0;
    let mut used = 0; // next comment
    for i in 0..=src.tokens.len() {
        loop {
            let rest = &out[p..];
            let k = rest.find(|c: char| !c.is_ascii_whitespace()).unwrap_or(rest.len());
            let (ws, body) = rest.split_at(k);
            let is_com = body.starts_with("//") || body.starts_with("/*");
            if is_com {
                let lim = src.tokens.get(i).map_or(usize::MAX, |t| t.idx);
                let whole = if body.starts_with("//") { body.find(|c| c == '\n' || c == '\r').unwrap_or(body.len()) } else { body[2..].find("*/").map_or(body.len(), |k| k + 4) };
                let cand: Vec<usize> = (used..src.comments.len()).filter(|&j| src.comments[j].idx < lim && (i == 0 || src.comments[j].idx > src.tokens[i - 1].idx)).collect();
                let hit = cand.iter().copied().find(|&j| body[..whole] == src.comments[j].text).or(cand.iter().copied().find(|&j| body.starts_with(&src.comments[j].text)));
                let len = match hit { Some(j) => src.comments[j].text.len(), None => { let l = lexo::lex(body); match l.comments.first() { Some(c) if c.start.pos == 0 => c.text.len(), _ => 2 } } };
                if let Some(j) = hit { used = j + 1 }
                segs.push(Seg { ws: ws.into(), text: body[..len].into(), tok: None, com: hit });
                p += k + len;
                continue;
            }
            match src.tokens.get(i) {
                Some(t) if body.starts_with(&t.text) => { segs.push(Seg { ws: ws.into(), text: t.text.clone(), tok: Some(i), com: None }); p += k + t.text.len() }
                Some(t) => return Err(format!("token {:?} (at {}:{}) is missing, or something is in its place: {:?}", t.text, t.start.line, t.start.col, body.chars().take(20).collect::<String>())),
                None if body.is_empty() => if !ws.is_empty() { segs.push(Seg { ws: ws.into(), text: String::new(), tok: None, com: Some(usize::MAX) }) },
                None => return Err(format!("{:?} is added at the end", body)),
            }
            break;
        }
    }
    Ok(segs)
}
pub fn c08(c: &Case) -> Res { let f = match fmt(c) { Ok(Some(f)) => f, _ => return Ok(false) }; align(&f.out, &f.src).map(|_| f.src.tokens.len() > 1) }
pub fn c09(c: &Case) -> Res {
    let f = match fmt(c) { Ok(Some(f)) => f, _ => return Ok(false) };
    let segs = match align(&f.out, &f.src) { Ok(s) => s, Err(_) => return Ok(false) };
    let r = lexo::lex(&f.out);
    if !r.errors.is_empty() { return Err("the output has lexical errors".into()) }
    let a: Vec<&str> = segs.iter().filter(|s| s.tok.is_some()).map(|s| &s.text[..]).collect();
    let b: Vec<&str> = r.tokens.iter().map(|t| &t.text[..]).collect();
    if a != b { let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count(); return Err(format!("read again, the output gives other tokens: {:?} instead of {:?}", b.get(k), a.get(k))) }
    let a: Vec<&str> = segs.iter().filter(|s| s.tok.is_none() && !s.text.is_empty()).map(|s| &s.text[..]).collect();
    let b: Vec<&str> = r.comments.iter().map(|t| &t.text[..]).collect();
    if a != b { return Err(format!("read again, the output gives comments {:?} instead of {:?}", b, a)) }
    Ok(a.len() > 0)
}
pub fn c10(c: &Case) -> Res {
    let f = match fmt(c) { Ok(Some(f)) => f, _ => return Ok(false) };
    let segs = match align(&f.out, &f.src) { Ok(s) => s, Err(_) => return Ok(false) };
    let n = f.src.tokens.len();
    let mut seen = vec![false; f.src.comments.len()];
    let mut broken = vec![false; n + 1];
    broken[0] = true; broken[n] = true;
    let mut i = 0;
    for s in &segs {
        if s.tok.is_none() && s.com.is_none() { return Err(format!("comment {:?} is not one of the source at this place", s.text)) }
        if let Some(j) = s.com { if j < seen.len() { seen[j] = true } }
        if s.ws.contains('\n') { broken[i] = true }
        if let Some(k) = s.tok { i = k + 1 }
    }
    for (j, cm) in f.src.comments.iter().enumerate() {
        let k = f.src.tokens.iter().take_while(|t| t.idx < cm.idx).count();
        if broken[k] && !seen[j] { return Err(format!("comment {:?} (at {}:{}) is lost", cm.text, cm.start.line, cm.start.col)) }
    }
    Ok(!f.src.comments.is_empty())
}
struct Cmp { segs: Vec<Seg>, exp: Vec<Out>, pairs: Vec<(usize, usize)> }
fn layout(g: &Grammar, c: &Case) -> Option<Cmp> {
    let f = fmt(c).ok()??;
    let segs = align(&f.out, &f.src).ok()?;
    let k = kinds(&f.src);
    let t: Rc<T> = g.derive(c.entry, &k)?;
    let mut l = Lay::new(&f.src.tokens);
    l.node(&t, false);
    let exp = fmto::render(&l.out, &f.src.tokens, &f.src.comments);
    // pair up tokens and comments
    let mut pairs = vec![];
    let (mut a, mut b) = (0, 0);
    while a < segs.len() && b < exp.len() {
        if segs[a].tok.is_some() == exp[b].is_tok && segs[a].text == exp[b].text { pairs.push((a, b)); a += 1; b += 1 }
        else if segs[a].tok.is_none() { a += 1 } else { b += 1 }
    }
    Some(Cmp { segs, exp, pairs })
}
/// a carriage return without a line feed ends the line too
fn unify(s: &str) -> String { let c: Vec<char> = s.chars().collect(); (0..c.len()).map(|k| if c[k] == '\r' && c.get(k + 1) != Some(&'\n') { '\n' } else { c[k] }).collect() }
fn nl(ws: &str) -> usize { ws.matches('\n').count() }
fn tail(ws: &str) -> usize { ws.len() - ws.rfind('\n').map_or(0, |k| k + 1) }
fn near(m: &Cmp, a: usize) -> String { let p = if a > 0 { &m.segs[a - 1].text[..] } else { "" }; format!("{:?} after {:?}", m.segs[a].text, p) }
fn prev_same(m: &Cmp, k: usize) -> bool { k > 0 && { let (a, b) = m.pairs[k]; let (p, q) = m.pairs[k - 1]; p + 1 == a && q + 1 == b } || k == 0 && m.pairs[0] == (0, 0) }
pub fn c11(g: &Grammar, c: &Case) -> Res {
    let m = match layout(g, c) { Some(m) => m, None => return Ok(false) };
    let mut n = 0;
    for (a, b) in &m.pairs {
        let (s, e) = (&m.segs[*a], &m.exp[*b]);
        if nl(&s.ws) > 0 && e.nl > 0 {
            if tail(&s.ws) != e.sp { return Err(format!("{} is indented by {} instead of {} spaces", near(&m, *a), tail(&s.ws), e.sp)) }
            n += (e.sp > 0) as usize;
        }
    }
    Ok(n > 0)
}
pub fn c12(g: &Grammar, c: &Case) -> Res {
    let m = match layout(g, c) { Some(m) => m, None => return Ok(false) };
    for k in 0..m.pairs.len() {
        let (a, b) = m.pairs[k];
        let (s, e) = (&m.segs[a], &m.exp[b]);
        if nl(&s.ws) == 0 && e.nl == 0 && s.tok.is_some() && prev_same(&m, k) {
            let w = " ".repeat(e.sp);
            if s.ws != w { return Err(format!("{:?} before {} instead of {:?}", s.ws, near(&m, a), w)) }
        }
    }
    Ok(m.pairs.len() > 1)
}
pub fn c13(g: &Grammar, c: &Case) -> Res {
    let m = match layout(g, c) { Some(m) => m, None => return Ok(false) };
    for s in &m.segs { if nl(&s.ws) > 2 { return Err(format!("two blank lines before {:?}", s.text)) } }
    for k in 0..m.pairs.len() {
        let (a, b) = m.pairs[k];
        let (s, e) = (&m.segs[a], &m.exp[b]);
        if !prev_same(&m, k) { continue }
        let (x, y) = (nl(&s.ws), e.nl);
        if x != y && (!e.wrap || x > 0 && y > 0 || !e.is_tok) {
            return Err(format!("{} line ends before {} instead of {}", x, near(&m, a), y));
        }
    }
    if let Some(s) = m.segs.last() { if s.text.is_empty() { return Err("white space at the end".into()) } }
    Ok(m.exp.iter().any(|e| e.nl > 0))
}
pub fn c18(g: &Grammar, c: &Case) -> Res {
    let m = match layout(g, c) { Some(m) => m, None => return Ok(false) };
    let mut n = 0;
    // a comment in the gap makes no difference: look at whole gaps
    let mut real = vec![]; let mut exp = vec![];
    let mut brk = false;
    for s in &m.segs { brk |= nl(&s.ws) > 0; if s.tok.is_some() { real.push(brk); brk = false } }
    let mut first = true;
    for e in &m.exp { if e.is_tok { let b = matches!(e.gap, Gap::Break(..)); exp.push((b && !first, e.wrap, &e.text)); } first = false }
    for (i, r) in real.iter().enumerate() {
        if let Some((x, w, t)) = exp.get(i) { if *w { n += *x as usize; if r != x { return Err(format!("{} line break before {:?} (token {})", if *x { "no" } else { "a" }, t, i)) } } }
    }
    Ok(n > 0)
}
/// markers: T text, > indent, < dedent, s space, B blank, n break
pub fn c14(c: &Case) -> Res {
    let mut ms = vec![]; let mut exp = String::new(); let mut level = 0usize; let mut k = 0;
    for ch in c.text.chars() {
        match ch {
            '>' => { ms.push(Marker::Indent); level += 1 }
            '<' => if level > 0 { ms.push(Marker::Dedent); level -= 1 },
            's' => { ms.push(Marker::Space); exp.push(' ') }
            'n' => { ms.push(Marker::Break); exp.push('\n'); exp += &"  ".repeat(level) }
            'B' => { ms.push(Marker::Blank); exp.push('\n'); exp.push('\n'); exp += &"  ".repeat(level) }
            _ => { let t = ["a", "\"x\n y\"", "", "// c ", "'\u{105}'", "(", "/* a\n\nb */", "\t", "\"x\r\ny\"", "// c\t", "end", "\u{1F600}"][k % 12].to_string(); k += 1; exp += &t; ms.push(Marker::Token(t)) }
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| mofmt::hooks::print(ms))).map_err(|e| format!("panic: {}", panic_text(e)))?;
    if r != exp { return Err(format!("rendered as {:?} instead of {:?}", r, exp)) }
    Ok(c.text.len() > 1)
}
pub fn run(id: &str, g: &Grammar, c: &Case) -> Res {
    match id { "C01" => c01(c), "C02" => c02(c), "C03" => c03(g, c), "C04" => c04(g, c), "C05" => c05(g, c), "C06" => c06(c), "C07" => c07(c), "C08" => c08(c), "C09" => c09(c), "C10" => c10(c), "C11" => c11(g, c), "C12" => c12(g, c), "C13" => c13(g, c), "C14" => c14(c), "C18" => c18(g, c), _ => panic!("{}", id) }
}
#[allow(unused)]
fn _unused(_: &Item) {}
