//! Generation of sources: sentences of the grammar in random layouts, near misses, and noise.
use crate::gram::*;
use crate::lexo;
use crate::names::TOKS;
pub struct Gen { pub g: Grammar, dist: Vec<Vec<usize>> }
fn e_dist(e: &E, d: &[usize]) -> usize {
    match e { E::Tok(_) | E::Not(_) => usize::MAX / 2, E::Rule(r) => d[*r] + 1, E::Seq(v) | E::Alt(v) => v.iter().map(|x| e_dist(x, d)).min().unwrap_or(usize::MAX / 2), E::Opt(x) | E::Star(x) => e_dist(x, d) }
}
impl Gen {
    pub fn new() -> Gen {
        let g = load();
        let n = g.names.len();
        let dist = (0..n).map(|t| { let mut d = vec![usize::MAX / 2; n]; d[t] = 0; loop { let mut c = false; for r in 0..n { let x = e_dist(&g.body[r], &d).min(usize::MAX / 2); if x < d[r] { d[r] = x; c = true } } if !c { break } } d }).collect();
        Gen { g, dist }
    }
    /// sentence of `from` that contains a (random) `target`
    fn via(&self, e: &E, target: usize, rng: &mut Rng, fuel: &mut i64, out: &mut Vec<&'static str>) {
        let d = &self.dist[target];
        match e {
            E::Not(_) => (),
            E::Tok(k) => out.push(k),
            E::Rule(r) if *r == target => gen(&self.g, *r, rng, fuel, out),
            E::Rule(r) => self.via(&self.g.body[*r], target, rng, fuel, out),
            E::Seq(v) => {
                let m = v.iter().map(|x| e_dist(x, d)).min().unwrap();
                let c: Vec<usize> = (0..v.len()).filter(|&i| e_dist(&v[i], d) == m).collect();
                let k = c[rng.below(c.len())];
                for (i, x) in v.iter().enumerate() {
                    if i == k { self.via(x, target, rng, fuel, out) } else { let mut f = rng.below(8) as i64; gen_ex(&self.g, x, rng, &mut f, out) }
                }
            }
            E::Alt(v) => {
                let m = v.iter().map(|x| e_dist(x, d)).min().unwrap();
                let slack = rng.below(3);
                let c: Vec<usize> = (0..v.len()).filter(|&i| e_dist(&v[i], d) <= m + slack && e_dist(&v[i], d) < usize::MAX / 4).collect();
                self.via(&v[c[rng.below(c.len())]], target, rng, fuel, out)
            }
            E::Opt(x) => self.via(x, target, rng, fuel, out),
            E::Star(x) => {
                if rng.chance(0.3) { let mut f = 6; gen_ex(&self.g, x, rng, &mut f, out) }
                self.via(x, target, rng, fuel, out);
                if rng.chance(0.3) { let mut f = 6; gen_ex(&self.g, x, rng, &mut f, out) }
            }
        }
    }
    pub fn sentence(&self, from: &str, rng: &mut Rng) -> Vec<&'static str> {
        let mut out = vec![];
        let r = self.g.rule(from);
        let mut fuel = if rng.chance(0.02) { 4000 } else { [20, 60, 150, 400][rng.below(4)] };
        let target = rng.below(self.g.names.len());
        rng.1 = [0.0, 0.0, 0.5, 0.8][rng.below(4)];
        if rng.chance(0.25) || self.dist[target][r] > 1000 || target == r { gen(&self.g, r, rng, &mut fuel, &mut out) }
        else { self.via(&self.g.body[r], target, rng, &mut fuel, &mut out) }
        out
    }
}
pub fn gen_ex(g: &Grammar, e: &E, rng: &mut Rng, fuel: &mut i64, out: &mut Vec<&'static str>) { crate::gram::gen_pub(g, e, rng, fuel, out) }
pub fn mutate(v: &mut Vec<&'static str>, rng: &mut Rng) {
    for _ in 0..1 + rng.below(2) {
        let n = v.len();
        let k = TOKS[1 + rng.below(TOKS.len() - 1)];
        let k = if k == "LineComment" || k == "BlockComment" { "Identifier" } else { k };
        match rng.below(7) {
            0 if n > 0 => { v.remove(rng.below(n)); }
            1 => v.insert(rng.below(n + 1), k),
            2 if n > 0 => { let i = rng.below(n); v[i] = k }
            3 if n > 1 => { let i = rng.below(n - 1); v.swap(i, i + 1) }
            4 if n > 0 => { let i = rng.below(n); let x = v[i]; v.insert(i, x) }
            5 if n > 0 => v.truncate(rng.below(n)),
            _ if n > 1 => { let i = rng.below(n); let j = rng.below(n); v[i] = v[j] }
            _ => v.push(k),
        }
    }
}
/// arbitrary text from which `quote` cannot be read; no `\` at the end
fn body(quote: char, rng: &mut Rng) -> String {
    const F: &[&str] = &["a", "x1", "END", " ", "  ", "\t", "\n", "\r\n", "\r", " \n", "\n\n", "\n  ", "//", "/*", "*/", "\\\"", "\\'", "\\\\", "\\n", "{}", "{0}", "%s", ";", "=", "+", ",", "(", "é", "e\u{301}", "\u{a0}", "\u{200b}",
        "\u{2028}", "\u{1F468}\u{200D}\u{1F469}", "\u{feff}", "\u{7f}", "\u{1}", "within", "end", "0", "1e3", "$", "..", "ß", "İ"];
    let n = if rng.chance(0.1) { 30 + rng.below(60) } else { rng.below(7) };
    let mut s = String::new();
    for _ in 0..n { s += rng.pick(F) }
    if rng.chance(0.3) { s.push(if quote == '"' { '\'' } else { '"' }) }
    if rng.chance(0.2) { s += rng.pick(&[" ", "\n", "\t", "\r\n", "  "]) }
    s
}
fn text(k: &'static str, rng: &mut Rng) -> String {
    if k == "Identifier" {
        if rng.chance(0.05) { return format!("'{}'", body('\'', rng)) }
        if rng.chance(0.03) { return "n".repeat(1 + rng.below(150)) }
        return rng.pick(&["a", "b1", "_x", "Foo", "'q i'", "'\\'+'", "iff", "e5", "zeta", "_", "End", "IF", "within_", "_1", "x_y"]).to_string()
    }
    if k == "String" {
        if rng.chance(0.25) { return format!("\"{}\"", body('"', rng)) }
        return rng.pick(&["\"s\"", "\"\"", "\"a\\\"b\"", "\"two\nlines\"", "\"\u{105}\u{1F600}\"", "\"// no\"", "\"\\\\\""]).to_string()
    }
    if k == "UInt" { return rng.pick(&["0", "1", "42", "1", "0", "007", "10000000000000000000000"]).to_string() }
    if k == "UReal" { return rng.pick(&["1.5", "2.", "1e3", "3.0E-5", "1e+2", "00.00e00", "1.0E+10"]).to_string() }
    if k == "Bool" { return rng.pick(&["true", "false"]).to_string() }
    if let Some(x) = lexo::KEYWORDS.iter().find(|x| x.1 == k) { return x.0.into() }
    if let Some(x) = lexo::SYMBOLS.iter().find(|x| x.1 == k) { return x.0.into() }
    String::new()
}
fn comment(n: &mut usize, rng: &mut Rng) -> String {
    *n += 1;
    if rng.chance(0.15) {
        let b = body('"', rng);
        return if rng.chance(0.5) { format!("//{}{}", b.replace('\n', ""), rng.pick(&["\n", "\r\n"])) } else { format!("/*{}*/", b.replace("*/", "**")) }
    }
    match rng.below(6) { 0 | 1 => format!("// c{}\n", n), 2 => format!("//\u{17C} c{}\r\n", n), 3 => format!("/* c{} */", n), 4 => format!("/* c{}\n   more */", n), _ => format!("/*c{}*/", n) }
}
fn glue_ok(a: &str, b: &str) -> bool { let l = lexo::lex(&format!("{}{}", a, b)); l.errors.is_empty() && l.comments.is_empty() && l.tokens.len() == 2 && l.tokens[0].text == a }
/// Source text of a token sequence in a random layout
pub fn layout(v: &[&'static str], rng: &mut Rng) -> String {
    let style = rng.below(8);
    // a few line breaks and comments only
    let few: Vec<usize> = if style == 7 { (0..1 + rng.below(4)).map(|_| rng.below(v.len() + 1)).collect() } else { vec![] };
    let few_c = rng.chance(0.3);
    let (pn, pc, pg) = match style { 0 => (0.0, 0.0, 0.3), 1 => (0.05, 0.0, 0.2), 2 => (0.15, 0.03, 0.2), 3 => (0.4, 0.1, 0.1), 4 => (0.9, 0.05, 0.0), 5 => (0.1, 0.4, 0.1), 6 => (0.0, 0.1, 0.5), _ => (0.0, 0.0, 0.2) };
    let mut s = String::new();
    let mut n = 0;
    let mut prev = String::new();
    for i in 0..=v.len() {
        let (pn, pc, pg) = if few.contains(&i) { (1.0, if few_c { 0.5 } else { 0.0 }, 0.0) } else { (pn, pc, pg) };
        let t = if i < v.len() { text(v[i], rng) } else { String::new() };
        let mut sep = String::new();
        let edge = i == 0 || i == v.len();
        if edge && rng.chance(0.5) {
        } else if !edge && rng.chance(pg) && glue_ok(&prev, &t) {
        } else {
            loop {
                if rng.chance(pn) { sep += rng.pick(&["\n", "\n", "\n\n", "\n\n\n", "\n  ", " \r\n", "\n \n"]) } else if !edge || rng.chance(0.2) { sep += rng.pick(&[" ", " ", " ", "  ", "\t"]) }
                if rng.chance(pc) || edge && rng.chance(0.3) { if !sep.is_empty() || edge { sep += &comment(&mut n, rng) } else { sep += " "; sep += &comment(&mut n, rng) } } else { break }
            }
            // semicolons often end lines
            if i > 0 && v[i - 1] == "Semicolon" && style < 7 && rng.chance(0.5) { sep += rng.pick(&["\n", "\n\n", "\n\n\n"]) }
        }
        if sep.is_empty() && !edge && !glue_ok(&prev, &t) { sep = " ".into() }
        if prev == "/" && sep.starts_with('/') { sep.insert(0, ' ') }
        s += &sep;
        s += &t;
        prev = t;
    }
    s
}
pub fn noise(rng: &mut Rng) -> String {
    const F: &[&str] = &["a", "b", "_", "9", "0", ".", "..", "e", "E", "+", "-", "*", "/", "//", "/*", "*/", "**", "/*/", "\"", "\\", "\\\"", "'", "\\'", "=", "<", ">", ":", "<>", "<=", ">=", ":=", "==", ".*", "./", ".^", ".+", ".-", " ", "\n", "\r", "\r\n", "\t", "\x0c", "\u{b}", "\u{a0}", "\u{105}", "\u{1F600}", "\u{2028}", "!", "#", "@", "&", "?", "~", "|", "$", "%", "(", ")", "[", "]", "{", "}", ";", ",", "^", "in", "end", "true", "not", "model", "1.5", "1e5", "2.e-3", "'q'", "\"s\"", "\0", "1E+", "within", "\u{663}", "\u{b2}", "\u{ff11}", "\u{ff21}", "\u{aa}", "\u{85}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{17f}", "\u{2024}", "\u{2019}", "\u{8}", "\u{1c}", "\u{7f}"];
    let n = if rng.chance(0.002) { 200 + rng.below(2000) } else { rng.below(14) };
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(13) {
            3 => { let k = lexo::KEYWORDS[rng.below(lexo::KEYWORDS.len())].0; match rng.below(4) { 0 => s.push_str(&k.to_uppercase()), 1 => { s.push_str(&k[..1].to_uppercase()); s.push_str(&k[1..]) } 2 => { let c = rng.below(k.len()); s.push_str(&k[..c]); s.push_str(&k[c..].to_uppercase()) } _ => { s.push_str(k); s.push_str(lexo::KEYWORDS[rng.below(lexo::KEYWORDS.len())].0) } } }
            0 => s.push_str(lexo::KEYWORDS[rng.below(lexo::KEYWORDS.len())].0),
            1 => { let k = lexo::KEYWORDS[rng.below(lexo::KEYWORDS.len())].0; let cut = 1 + rng.below(k.len()); s.push_str(&k[..cut]); }
            2 => s.push(' '),
            _ => s.push_str(F[rng.below(F.len())]),
        }
    }
    s
}
