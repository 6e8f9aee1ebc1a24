//! Expected layout of an accepted source, read off the code style (code-style.md):
//! for every token the separator in front of it, and the indentation level there.
use crate::gram::{C, T};
use crate::lexo::Item;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Brk { Legal, Illegal, Required }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gap {
    None,
    Space,
    /// line break; `wrap`: it is there only because the source is wrapped
    Break(Brk, bool),
}
pub struct Lay<'a> { pub toks: &'a [Item], pub out: Vec<(Gap, i32, bool)>, pend: (Gap, i32, bool), level: i32 }
use Brk::*;
use Gap::{Break, None as NoGap, Space};
impl<'a> Lay<'a> {
    pub fn new(toks: &'a [Item]) -> Self { Lay { toks, out: vec![], pend: (NoGap, 0, false), level: 0 } }
    fn gap(&mut self, g: Gap) { self.pend = (g, self.level, false) }
    fn tok(&mut self, i: usize) { assert_eq!(i, self.out.len()); self.out.push(self.pend); self.pend = (NoGap, self.level, false) }
    fn prev(&self) -> &'static str { if self.out.is_empty() { "" } else { self.toks[self.out.len() - 1].kind } }
    fn k(&self, i: usize) -> &'static str { self.toks[i].kind }
    fn multi(&self, t: &T) -> bool { self.toks[t.first].start.line < self.toks[t.last].end.line }
    /// break when the construct is wrapped, otherwise a space
    fn bos(&mut self, ml: bool) { self.gap(if ml { Break(Illegal, true) } else { Space }); self.pend.2 = true }
    /// break when the construct is wrapped, otherwise nothing
    fn bon(&mut self, ml: bool) { self.gap(if ml { Break(Illegal, true) } else { NoGap }); self.pend.2 = true }
    /// lines of the opening and closing mark differ
    fn braces(&self, t: &T, open: &str, close: &str) -> bool {
        let mut o = Option::None;
        for c in &t.ch { if let C::Tok(i) = c {
            if o.is_none() && self.k(*i) == open { o = Some(*i) }
            else if let (Some(o), true) = (o, self.k(*i) == close) { return self.toks[*i].start.line > self.toks[o].start.line }
        } }
        false
    }
    fn own_line(&mut self, t: &T) { self.level += 1; self.gap(Break(Illegal, false)); self.node(t, false); self.level -= 1 }
    fn expr(&mut self, t: &T) { self.expression(t, false, false); }
    fn all(&mut self, t: &T, ml: bool) { for c in &t.ch { match c { C::Tok(i) => self.tok(*i), C::Tree(x) => self.node(x, ml) } } }
    /// every token separated by a space from what follows
    fn tok_space(&mut self, t: &T) { for c in &t.ch { match c { C::Tok(i) => { self.tok(*i); self.gap(Space) } C::Tree(x) => self.node(x, false) } } }
    fn items(&mut self, t: &T, ml: bool) { let ml = ml || self.multi(t); for c in &t.ch { match c { C::Tok(i) => { self.tok(*i); self.bos(ml) } C::Tree(x) => self.node(x, false) } } }
    fn rhs(&mut self, x: &T) { let m = self.multi(x) && self.k(x.first) == "If"; if m { self.level += 1 } self.bos(m); self.node(x, false); if m { self.level -= 1 } }
    pub fn node(&mut self, t: &T, ml: bool) {
        match t.kind {
            "StoredDefinition" => for c in &t.ch { match c {
                C::Tree(x) => { if x.kind == "ClassDefinition" && (self.prev() == "Semicolon" || self.prev() == "") { self.gap(Break(Legal, false)) } self.node(x, false) }
                C::Tok(i) => { match self.k(*i) { "Final" => self.gap(Break(Legal, false)), "Within" => self.gap(Break(Illegal, false)), _ => () }
                    self.tok(*i);
                    if matches!(self.k(*i), "Final" | "Within") { self.gap(Space) } }
            } },
            "ClassDefinition" => for c in &t.ch { match c { C::Tree(x) => { if x.kind == "ClassSpecifier" { self.gap(Space) } self.node(x, false) } C::Tok(i) => { self.tok(*i); self.gap(Space) } } },
            "ClassPrefixes" | "TypePrefix" => for (n, c) in t.ch.iter().enumerate() { if let C::Tok(i) = c { if n > 0 { self.gap(Space) } self.tok(*i) } },
            "LongClassSpecifier" => for c in &t.ch { match c {
                C::Tree(x) if x.kind == "DescriptionString" => self.own_line(x),
                C::Tree(x) => self.node(x, false),
                C::Tok(i) => { if self.k(*i) == "End" { self.gap(Break(Required, false)) } self.tok(*i); if matches!(self.k(*i), "End" | "Extends") { self.gap(Space) } }
            } },
            "ShortClassSpecifier" => { let mut ml = self.braces(t, "LParen", "RParen"); for c in &t.ch { match c {
                C::Tree(x) if x.kind == "BasePrefix" => { self.node(x, false); self.gap(Space) }
                C::Tree(x) if x.kind == "EnumList" => { ml = ml || x.has("Description"); if ml { self.level += 1 } self.bon(ml); self.items(x, ml); if ml { self.level -= 1 } }
                C::Tree(x) if x.kind == "Description" => self.own_line(x),
                C::Tree(x) => self.node(x, false),
                C::Tok(i) => { let e = self.k(*i) == "Equal"; if e { self.gap(Space) } self.tok(*i); if e { self.gap(Space) } }
            } } }
            "DerClassSpecifier" => { let ml = self.braces(t, "LParen", "RParen"); for c in &t.ch { match c {
                C::Tree(x) if x.kind == "TypeSpecifier" => { self.bon(ml); self.node(x, false) }
                C::Tree(x) => self.own_line(x),
                C::Tok(i) => { let k = self.k(*i);
                    if k == "Equal" { self.gap(Space) } else if k == "Identifier" && self.prev() == "Comma" { self.bos(ml) }
                    self.tok(*i);
                    match k { "Equal" => self.gap(Space), "LParen" => self.level += 1, "RParen" => self.level -= 1, _ => () } }
            } } }
            "EnumerationLiteral" => for c in &t.ch { match c { C::Tree(x) => self.own_line(x), C::Tok(i) => self.tok(*i) } },
            "Composition" => { let mut ext = false; for c in &t.ch { match c {
                C::Tree(x) => match x.kind {
                    "ElementList" | "ExternalFunctionCall" => { self.level += 1; self.gap(Break(Required, false)); self.node(x, false); self.level -= 1 }
                    "EquationSection" | "AlgorithmSection" => { self.gap(Break(Required, false)); self.node(x, false) }
                    "LanguageSpecification" => { self.gap(Space); self.node(x, false) }
                    _ => if ext { self.level += 2; self.gap(Break(Illegal, false)); self.node(x, false); self.level -= 2 } else { self.level += 1; self.gap(Break(Required, false)); self.node(x, false); self.level -= 1 },
                },
                C::Tok(i) => { let k = self.k(*i); if k == "External" { ext = true } if k == "Semicolon" { ext = false } if matches!(k, "Protected" | "Public" | "External") { self.gap(Break(Required, false)) } self.tok(*i) }
            } } }
            "ExternalFunctionCall" => { let ml = self.braces(t, "LParen", "RParen"); self.level += 1; for c in &t.ch { match c {
                C::Tree(x) if x.kind == "ExpressionList" => { self.bon(ml); self.items(x, ml) }
                C::Tree(x) => self.node(x, false),
                C::Tok(i) => { let e = self.k(*i) == "Equal"; if e { self.gap(Space) } self.tok(*i); if e { self.gap(Space) } }
            } } self.level -= 1 }
            "ElementList" => for c in &t.ch { match c { C::Tree(x) => { if self.prev() == "Semicolon" && x.first != t.first { self.gap(Break(Legal, false)) } self.node(x, false) } C::Tok(i) => self.tok(*i) } },
            "Element" => for c in &t.ch { match c {
                C::Tree(x) => match x.kind { "ConstrainingClause" | "Description" => self.own_line(x), _ => self.node(x, false) },
                C::Tok(i) => { self.tok(*i); self.gap(Space) }
            } },
            "ImportClause" => { let ml = self.braces(t, "LCurly", "RCurly"); for c in &t.ch { match c {
                C::Tree(x) if x.kind == "Description" => self.own_line(x),
                C::Tree(x) if x.kind == "ImportList" => { if ml { self.level += 1 } self.bon(ml); self.import_list(x, ml); if ml { self.level -= 1 } }
                C::Tree(x) => self.node(x, false),
                C::Tok(i) => { let k = self.k(*i); if k == "Equal" { self.gap(Space) } self.tok(*i); if matches!(k, "Import" | "Equal") { self.gap(Space) } }
            } } }
            "ExtendsClause" | "ElementReplaceable" => for c in &t.ch { match c {
                C::Tree(x) if matches!(x.kind, "AnnotationClause" | "ConstrainingClause") => self.own_line(x),
                C::Tree(x) => self.node(x, false),
                C::Tok(i) => { self.tok(*i); self.gap(Space) }
            } },
            "ConstrainingClause" | "ElementModificationOrReplaceable" | "ElementRedeclaration" | "AnnotationClause" | "ForIndices" => self.tok_space(t),
            "ConditionAttribute" => for c in &t.ch { match c { C::Tree(x) => self.expr(x), C::Tok(i) => { self.tok(*i); self.gap(Space) } } },
            "ClassModification" | "ClassOrInheritanceModification" => {
                let ml = self.multi(t) && t.ch.len() > 2 || t.kind == "ClassModification" && (t.has("DescriptionString") || t.has("Description"));
                self.level += 1;
                for c in &t.ch { match c { C::Tree(x) => { self.bon(ml); self.items(x, ml) } C::Tok(i) => self.tok(*i) } }
                self.level -= 1
            }
            "InheritanceModification" => for c in &t.ch { match c { C::Tree(x) => self.node(x, false), C::Tok(i) => { self.tok(*i); if self.k(*i) == "Break" { self.gap(Space) } } } },
            "ComponentClause" => for c in &t.ch { if let C::Tree(x) = c { self.node(x, false); if x.kind == "TypePrefix" { self.gap(Space) } } },
            "ComponentList" => { let m = self.multi(t) && t.ch.len() > 1; if m { self.level += 1 } for c in &t.ch { match c { C::Tree(x) => { self.bos(m); self.node(x, false) } C::Tok(i) => self.tok(*i) } } if m { self.level -= 1 } }
            "ComponentDeclaration" | "ComponentDeclaration1" | "ElementModification" => for c in &t.ch { if let C::Tree(x) = c { match x.kind {
                "Description" | "DescriptionString" => self.own_line(x),
                "ConditionAttribute" => { self.gap(Space); self.node(x, false) }
                _ => self.node(x, false),
            } } },
            "Modification" => for c in &t.ch { match c { C::Tree(x) if x.kind == "ModificationExpression" => self.rhs(x), C::Tree(x) => self.node(x, false), C::Tok(i) => { self.gap(Space); self.tok(*i) } } },
            "ComponentClause1" => for c in &t.ch { if let C::Tree(x) = c { if x.kind == "ComponentDeclaration1" || x.kind == "TypeSpecifier" && t.ch.len() > 2 { self.gap(Space) } self.node(x, false) } },
            "ShortClassDefinition" => for c in &t.ch { if let C::Tree(x) = c { if x.kind == "ShortClassSpecifier" { self.gap(Space) } self.node(x, false) } },
            "EquationSection" | "AlgorithmSection" => { self.level += 1; for c in &t.ch { match c {
                C::Tree(x) => { let first = self.prev() != "Semicolon"; self.gap(Break(if first { Required } else { Legal }, false)); self.node(x, false) }
                C::Tok(i) => { self.tok(*i); if self.k(*i) == "Initial" { self.gap(Space) } }
            } } self.level -= 1 }
            "Equation" | "Statement" => for c in &t.ch { match c {
                C::Tree(x) => match x.kind {
                    "SimpleExpression" => { if self.simple(x, false) { self.level -= 1 } }
                    "OutputExpressionList" => { if self.oel(x, false) { self.level -= 1 } }
                    "Expression" => self.rhs(x),
                    "Description" => self.own_line(x),
                    "ComponentReference" => { if self.prev() == "Assign" { self.gap(Space) } self.node(x, false) }
                    _ => self.node(x, false),
                },
                C::Tok(i) => { if matches!(self.k(*i), "Equal" | "Assign") { self.gap(Space) } self.tok(*i) }
            } },
            "IfEquation" | "IfStatement" | "ForEquation" | "ForStatement" | "WhileStatement" | "WhenEquation" | "WhenStatement" => for (n, c) in t.ch.iter().enumerate() { match c {
                C::Tree(x) => match x.kind {
                    "Expression" => { self.gap(Space); self.expr(x); self.gap(Space) }
                    "ForIndices" => { self.gap(Space); self.node(x, false); self.gap(Space) }
                    _ => { self.level += 1; self.gap(Break(Legal, false)); self.node(x, false); self.level -= 1 }
                },
                C::Tok(i) => { match self.k(*i) { "ElseIf" | "Else" | "ElseWhen" | "End" => self.gap(Break(Legal, false)), "If" | "For" | "While" | "When" if n > 0 => self.gap(Space), _ => () } self.tok(*i) }
            } },
            "ForIndex" => for c in &t.ch { match c { C::Tree(x) => self.expr(x), C::Tok(i) => { let e = self.k(*i) == "In"; if e { self.gap(Space) } self.tok(*i); if e { self.gap(Space) } } } },
            "ConnectEquation" => { let ml = self.multi(t); self.level += 1; for (n, c) in t.ch.iter().enumerate() { match c { C::Tree(x) => { if n == 2 { self.bon(ml) } else { self.bos(ml) } self.node(x, false) } C::Tok(i) => self.tok(*i) } } self.level -= 1 }
            "Expression" => self.expr(t),
            "FunctionCallArgs" | "FunctionPartialApplication" => {
                let f = t.kind == "FunctionPartialApplication";
                let ml = if f { self.braces(t, "LParen", "RParen") } else { self.multi(t) };
                if !f { self.level += 1 }
                for c in &t.ch { match c { C::Tree(x) if x.kind == "TypeSpecifier" => { self.gap(Space); self.node(x, false) } C::Tree(x) => { self.bon(ml); self.node(x, ml) } C::Tok(i) => self.tok(*i) } }
                if !f { self.level -= 1 }
            }
            "FunctionArguments" | "FunctionArgumentsNonFirst" | "ArrayArguments" | "ArrayArgumentsNonFirst" | "NamedArguments" => for c in &t.ch { match c {
                C::Tree(x) => { if self.prev() == "Comma" && x.first > t.first { self.bos(ml) } if x.kind == "Expression" { self.expr(x) } else { self.node(x, ml) } }
                C::Tok(i) => { let f = self.k(*i) == "For"; if f { self.bos(ml) } self.tok(*i); if f { self.gap(Space) } }
            } },
            "NamedArgument" => for c in &t.ch { match c { C::Tree(x) => self.rhs(x), C::Tok(i) => { if self.k(*i) == "Equal" { self.gap(Space) } self.tok(*i) } } },
            "ArraySubscripts" => { let ml = self.multi(t); self.level += 1; for (n, c) in t.ch.iter().enumerate() { match c { C::Tree(x) => { if n == 1 { self.bon(ml) } else { self.bos(ml) } self.node(x, false) } C::Tok(i) => self.tok(*i) } } self.level -= 1 }
            "Description" => for c in &t.ch { if let C::Tree(x) = c { if x.first > t.first { self.gap(Break(Illegal, false)) } self.node(x, false) } },
            "DescriptionString" => { let ml = self.multi(t); self.level += 1; for c in &t.ch { if let C::Tok(i) = c { let p = self.k(*i) == "Plus"; if p { self.bos(ml) } self.tok(*i); if p { self.gap(Space) } } } self.level -= 1 }
            _ => self.all(t, ml),
        }
    }
    fn import_list(&mut self, t: &T, ml: bool) { let ml = ml || self.multi(t); for (n, c) in t.ch.iter().enumerate() { if let C::Tok(i) = c { if self.k(*i) == "Identifier" && n > 0 { self.bos(ml) } self.tok(*i) } } }
    fn expression(&mut self, t: &T, mut w: bool, in_oel: bool) -> bool {
        let ml = self.multi(t);
        let mut branch = false;
        for (n, c) in t.ch.iter().enumerate() { match c {
            C::Tree(x) if x.kind == "Expression" => {
                if branch { self.level += 1; self.bos(ml); self.expr(x); self.level -= 1; if n + 1 < t.ch.len() { self.bos(ml) } } else { self.gap(Space); self.expr(x); self.gap(Space) }
            }
            C::Tree(x) => w = self.simple(x, w),
            C::Tok(i) => { self.tok(*i); branch = matches!(self.k(*i), "Then" | "Else") }
        } }
        if w && !in_oel { self.level -= 1 }
        w
    }
    fn simple(&mut self, t: &T, mut w: bool) -> bool {
        for c in &t.ch { match c { C::Tree(x) => w = self.oper(x, w), C::Tok(i) => { self.gap(Space); self.tok(*i); self.gap(Space) } } }
        w
    }
    /// binary operator: line break before it, if the source has one next to it
    fn op(&mut self, first: usize, w: bool) -> bool {
        // `first` is the operator token; its right operand follows
        let m = self.toks[first + 1].start.line > self.toks[first - 1].end.line;
        if m && !w { self.level += 1 }
        self.bos(m);
        w || m
    }
    fn oper(&mut self, t: &T, mut w: bool) -> bool {
        match t.kind {
            "Primary" => return self.primary(t, w),
            "LogicalFactor" => { for c in &t.ch { match c { C::Tree(x) => w = self.oper(x, w), C::Tok(i) => { self.tok(*i); self.gap(Space) } } } }
            _ => for (n, c) in t.ch.iter().enumerate() {
                match c {
                    C::Tree(x) if matches!(x.kind, "AddOperator" | "MulOperator" | "RelationalOperator") => {
                        if n > 0 { w = self.op(x.first, w) }
                        self.node(x, false);
                        if n > 0 { self.gap(Space) }
                    }
                    C::Tree(x) => w = self.oper(x, w),
                    C::Tok(i) => { w = self.op(*i, w); self.tok(*i); self.gap(Space) }
                }
            },
        }
        w
    }
    fn primary(&mut self, t: &T, mut w: bool) -> bool {
        let ml = self.multi(t);
        let n = t.ch.len();
        for c in &t.ch { match c {
            C::Tok(i) => match self.k(*i) {
                "Semicolon" => { self.tok(*i); self.bos(ml) }
                "LCurly" | "LBracket" => { self.tok(*i); self.level += 1; self.bon(ml) }
                "RCurly" | "RBracket" => { self.level -= 1; self.tok(*i) }
                _ => self.tok(*i),
            },
            C::Tree(x) => match x.kind {
                "ExpressionList" => self.items(x, ml && n == 3),
                "OutputExpressionList" => w = self.oel(x, w),
                _ => self.node(x, ml),
            },
        } }
        w
    }
    fn oel(&mut self, t: &T, mut w: bool) -> bool {
        for c in &t.ch { match c {
            C::Tree(x) => w = self.expression(x, w, true),
            C::Tok(i) => { if self.prev() == "LParen" { self.gap(Space) } self.tok(*i); self.gap(Space) }
        } }
        // the closing parenthesis follows
        w
    }
}
/// One printed item: token (true) or comment, with the white space in front
#[derive(Debug, Clone)]
pub struct Out { pub text: String, pub is_tok: bool, pub nl: usize, pub sp: usize, pub wrap: bool, pub inline: bool, pub gap: Gap }
pub fn render(lay: &[(Gap, i32, bool)], toks: &[Item], comments: &[Item]) -> Vec<Out> {
    let mut out: Vec<Out> = vec![];
    let mut ci = 0;
    let mut prev_line = 1;
    for (i, &(gap, level, wrapb)) in lay.iter().enumerate() {
        let t = &toks[i];
        let mut cs = vec![];
        while ci < comments.len() && comments[ci].idx < t.idx { cs.push(&comments[ci]); ci += 1 }
        let sp = 2 * level.max(0) as usize;
        match gap {
            Gap::None => out.push(Out { text: t.text.clone(), is_tok: true, nl: 0, sp: 0, wrap: wrapb, inline: false, gap }),
            Gap::Space => out.push(Out { text: t.text.clone(), is_tok: true, nl: 0, sp: 1, wrap: wrapb, inline: false, gap }),
            Gap::Break(k, wrap) => {
                let mut line = prev_line;
                let mut after = false;
                for c in &cs {
                    if c.start.line == prev_line {
                        out.push(Out { text: c.text.clone(), is_tok: false, nl: 0, sp: 1, wrap, inline: true, gap });
                    } else {
                        let nl = if k == Brk::Required && !after { 2 } else if c.start.line - line > 1 { 2 } else { 1 };
                        out.push(Out { text: c.text.clone(), is_tok: false, nl, sp, wrap, inline: false, gap });
                        after = true;
                    }
                    line = c.end.line;
                }
                let nl = match k {
                    Brk::Illegal => 1,
                    Brk::Required if !after => 2,
                    _ => if t.start.line - line > 1 { 2 } else { 1 },
                };
                out.push(Out { text: t.text.clone(), is_tok: true, nl, sp, wrap, inline: false, gap });
            }
        }
        prev_line = t.end.line;
    }
    let mut line = prev_line;
    for c in &comments[ci..] {
        let inline = c.start.line == prev_line;
        out.push(Out { text: c.text.clone(), is_tok: false, nl: if inline { 0 } else if c.start.line - line > 1 { 2 } else { 1 }, sp: if inline { 1 } else { 0 }, wrap: false, inline, gap: Gap::Break(Brk::Legal, false) });
        line = c.end.line;
    }
    if let Some(o) = out.first_mut() { o.nl = 0; o.sp = 0 }
    out
}
