//! Mechanical extraction of the functions of mofmt into the subset of Rust
//! that Verus accepts. Every rewrite is listed in DESIGN.md ("What the
//! extraction changes"). Output: one JSON document on stdout.
//!
//! usage: extract FILE.rs ...
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod inline;

// ---------------------------------------------------------------- printing

/// Token printer that keeps the line structure of the source.
struct Out {
    text: String,
    line: usize,
    col0: bool,
    /// for every line of `text`: the source line it came from (0: none)
    map: Vec<usize>,
    joint: bool,
}
impl Out {
    fn new() -> Self {
        Out { text: String::new(), line: 0, col0: true, map: vec![0], joint: false }
    }
    fn put(&mut self, s: &str, line: usize) {
        if line > 0 && line != self.line {
            if !self.text.is_empty() {
                self.text.push('\n');
                self.map.push(line);
            } else {
                self.map[0] = line;
            }
            self.line = line;
            self.col0 = true;
        }
        if !self.col0 && !self.joint {
            self.text.push(' ');
        }
        self.text.push_str(s);
        self.col0 = false;
        self.joint = false;
    }
    fn stream(&mut self, ts: TokenStream) {
        for t in ts {
            let l = t.span().start().line;
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() {
                        self.put(a, g.span_open().start().line);
                    }
                    self.stream(g.stream());
                    if !b.is_empty() {
                        self.put(b, g.span_close().start().line);
                    }
                }
                TokenTree::Ident(i) => self.put(&i.to_string(), l),
                TokenTree::Literal(x) => self.put(&x.to_string(), l),
                TokenTree::Punct(p) => {
                    self.put(&p.as_char().to_string(), l);
                    if p.spacing() == Spacing::Joint {
                        self.joint = true;
                    }
                }
            }
        }
    }
}
fn print(ts: TokenStream) -> (String, Vec<usize>) {
    let mut o = Out::new();
    o.stream(ts);
    (o.text, o.map)
}

// --------------------------------------------------------------- knowledge

#[derive(Default)]
struct Know {
    /// structs that had a `Cell` field: `&self` becomes `&mut self`
    cell_structs: BTreeSet<String>,
    cell_fields: BTreeSet<String>,
    /// methods of those structs that took `&self`
    demoted: BTreeSet<String>,
    /// enums whose derived equality is not structural (they carry data)
    data_enums: BTreeSet<String>,
    str_consts: BTreeSet<String>,
    /// functions and methods that return String
    string_fns: BTreeSet<String>,
    string_fields: BTreeSet<String>,
    /// functions that (transitively) act on the outside world
    world: BTreeSet<String>,
}

fn type_has(ty: &Type, name: &str) -> bool {
    let s = ty.to_token_stream().to_string();
    s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name)
}

// ---------------------------------------------------------------- rewriting

struct Rw<'k> {
    k: &'k Know,
    n: usize,
    kinds: Vec<&'static str>,
    loops: usize,
    /// local variables known to hold a `String`
    strings: BTreeSet<String>,
    /// hoisted constants of the current function
    consts: Vec<(String, ItemConst)>,
    fn_name: String,
    unsupported: Vec<String>,
    rewrites: BTreeMap<&'static str, usize>,
}

fn is_path(e: &Expr, name: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(name))
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn path_name(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        _ => None,
    }
}
fn is_range(e: &Expr) -> bool {
    matches!(strip(e), Expr::Range(_))
}
const SOURCES: [&str; 6] = ["iter", "into_iter", "iter_mut", "chars", "char_indices", "drain"];
const ADAPTERS: [&str; 10] = [
    "map", "filter", "filter_map", "enumerate", "by_ref", "cloned", "copied", "inspect", "flat_map", "flatten",
];

/// Is this expression an iterator chain (as far as its shape tells)?
fn is_iter(e: &Expr) -> bool {
    match strip(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            SOURCES.contains(&n.as_str())
                || n == "by_ref"
                || n == "peekable"
                || (ADAPTERS.contains(&n.as_str()) && is_iter(&m.receiver))
        }
        _ => false,
    }
}

impl<'k> Rw<'k> {
    fn hit(&mut self, r: &'static str) {
        *self.rewrites.entry(r).or_insert(0) += 1;
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("__{}{}", p, self.n), proc_macro2::Span::call_site())
    }
    fn bad(&mut self, s: String) {
        self.unsupported.push(s);
    }

    /// Apply a closure (or path) to one argument expression, giving an
    /// expression.
    fn apply(&mut self, f: &Expr, arg: TokenStream) -> TokenStream {
        match strip(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut pat = c.inputs[0].clone();
                if let Pat::Type(t) = pat {
                    pat = *t.pat;
                }
                let body = &c.body;
                match &pat {
                    Pat::Wild(_) => quote!({ let _ = #arg; #body }),
                    _ => quote!((match #arg { #pat => #body })),
                }
            }
            e => quote!(#e(#arg)),
        }
    }

    /// Desugar an iterator chain into a loop whose body is produced by
    /// `sink` for each item.
    fn chain_loop(&mut self, e: &Expr, sink: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream) -> TokenStream {
        match strip(e) {
            Expr::MethodCall(m) if ADAPTERS.contains(&m.method.to_string().as_str()) && m.method != "by_ref" && m.method != "enumerate" => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                self.chain_loop(&recv, &mut |me, item| match name.as_str() {
                    "map" => {
                        let x = me.apply(&args[0], item);
                        let v = me.fresh("m");
                        let rest = sink(me, quote!(#v));
                        quote!(let #v = #x; #rest)
                    }
                    "filter_map" => {
                        let x = me.apply(&args[0], item);
                        let v = me.fresh("m");
                        let rest = sink(me, quote!(#v));
                        quote!(if let Some(#v) = #x { #rest })
                    }
                    "filter" => {
                        let v = me.fresh("m");
                        let x = me.apply(&args[0], quote!(&#v));
                        let rest = sink(me, quote!(#v));
                        quote!(let #v = #item; if #x { #rest })
                    }
                    "inspect" => {
                        let v = me.fresh("m");
                        let x = me.apply(&args[0], quote!(&#v));
                        let rest = sink(me, quote!(#v));
                        quote!(let #v = #item; #x; #rest)
                    }
                    "flat_map" => {
                        let x = me.apply(&args[0], item);
                        let x: Expr = parse2(x).unwrap();
                        let v = me.fresh("m");
                        let rest = sink(me, quote!(#v));
                        quote!(for #v in #x { #rest })
                    }
                    "flatten" => {
                        let v = me.fresh("m");
                        let rest = sink(me, quote!(#v));
                        quote!(for #v in #item { #rest })
                    }
                    _ => sink(me, quote!((#item).clone())),
                })
            }
            src => {
                let v = self.fresh("x");
                let body = sink(self, quote!(#v));
                quote!(for #v in #src { #body })
            }
        }
    }

    fn fmt_macro(&mut self, mac: &Macro) -> Option<Expr> {
        // format!(lit, args...)
        let args: punctuated::Punctuated<Expr, Token![,]> =
            mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        self.fmt_args(args.iter().cloned().collect())
    }
    fn fmt_args(&mut self, args: Vec<Expr>) -> Option<Expr> {
        let mut args = args.into_iter();
        let lit = match args.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        let mut pos = Vec::new();
        for a in args {
            if let Expr::Assign(x) = &a {
                named.insert(path_name(&x.left)?, (*x.right).clone());
            } else {
                pos.push(a);
            }
        }
        let s = self.fresh("s");
        let mut pre = TokenStream::new();
        let mut stmts = TokenStream::new();
        // arguments are evaluated before anything is formatted
        let mut names = Vec::new();
        for a in &pos {
            let v = self.fresh("a");
            pre.extend(match a {
                Expr::MethodCall(_) | Expr::Call(_) | Expr::Binary(_) => quote!(let #v = #a;),
                _ => quote!(let #v = &#a;),
            });
            let isref = !matches!(a, Expr::MethodCall(_) | Expr::Call(_) | Expr::Binary(_));
            names.push((v, isref));
        }
        let mut next = 0usize;
        let mut buf = String::new();
        let mut it = lit.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    buf.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    buf.push('}');
                }
                '{' => {
                    let mut spec = String::new();
                    for d in it.by_ref() {
                        if d == '}' {
                            break;
                        }
                        spec.push(d);
                    }
                    let (arg, form) = match spec.split_once(':') {
                        Some((a, f)) => (a.to_string(), f.to_string()),
                        None => (spec, String::new()),
                    };
                    if !buf.is_empty() {
                        stmts.extend(quote!(v_lit(&mut #s, #buf);));
                        buf.clear();
                    }
                    let val = if arg.is_empty() {
                        let (v, r) = names.get(next)?.clone();
                        next += 1;
                        if r { quote!(#v) } else { quote!(&#v) }
                    } else if let Ok(i) = arg.parse::<usize>() {
                        let (v, r) = names.get(i)?.clone();
                        if r { quote!(#v) } else { quote!(&#v) }
                    } else if let Some(e) = named.get(&arg) {
                        quote!(&#e)
                    } else {
                        let i = Ident::new(&arg, proc_macro2::Span::call_site());
                        quote!(&#i)
                    };
                    match form.as_str() {
                        "" => stmts.extend(quote!(v_disp(&mut #s, #val);)),
                        "?" => stmts.extend(quote!(v_debug(&mut #s, #val);)),
                        _ => return None,
                    }
                }
                c => buf.push(c),
            }
        }
        if !buf.is_empty() {
            stmts.extend(quote!(v_lit(&mut #s, #buf);));
        }
        self.hit("format! expanded into its pieces");
        parse2(quote!({ #pre let mut #s = String::new(); #stmts #s })).ok()
    }

    fn is_stringish(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(_) => path_name(e).map_or(false, |n| self.strings.contains(&n)),
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string();
                s == "String :: from" || s == "String :: new" || s.starts_with("v_string")
                    || path_name(&c.func).map_or(false, |n| self.k.string_fns.contains(&n))
            }
            Expr::MethodCall(m) => {
                ["to_string", "to_owned", "repeat", "join", "concat"].contains(&m.method.to_string().as_str())
                    || self.k.string_fns.contains(&m.method.to_string())
            }
            Expr::Field(f) => match &f.member {
                Member::Named(i) => self.k.string_fields.contains(&i.to_string()),
                _ => false,
            },
            Expr::Binary(b) => self.is_stringish(&b.left),
            Expr::Macro(m) => m.mac.path.is_ident("format"),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => {
                    path_name(e).map_or(false, |n| n.starts_with("__s"))
                }
                _ => false,
            },
            _ => false,
        }
    }
    fn is_strish(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
            Expr::Path(_) => path_name(e).map_or(false, |n| self.k.str_consts.contains(&n)),
            _ => false,
        }
    }
}


// ---------------------------------------------------------------- the outside world

/// Functions of the command line driver act on files, arguments and the exit
/// code. They get one more parameter, `w`, that stands for all of these; the
/// std functions become specified wrappers that take it too.
struct World<'k> {
    k: &'k Know,
    bad: Vec<String>,
    hits: usize,
}
const WORLD_MACROS: [&str; 6] = ["println", "eprintln", "print", "eprint", "writeln", "write"];
fn path_str(e: &Expr) -> String {
    match strip(e) {
        Expr::Path(p) => {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let v: Vec<String> = if v.len() > 2 && v[0] == "std" { v[1..].to_vec() } else { v };
            v.join("::")
        }
        _ => String::new(),
    }
}
fn world_fn(p: &str) -> Option<&'static str> {
    Some(match p {
        "fs::read_dir" => "v_read_dir",
        "fs::read_to_string" => "v_read",
        "fs::write" => "v_write",
        "process::exit" => "v_exit",
        "env::args" => "v_args",
        _ => return None,
    })
}
impl<'k> World<'k> {
    /// the text of messages is not modelled: the arguments must not act
    fn quiet(&mut self, mac: &Macro) {
        struct Q<'a>(&'a Know, bool);
        impl<'a, 'b> syn::visit::Visit<'b> for Q<'a> {
            fn visit_expr_call(&mut self, c: &'b ExprCall) {
                let p = path_str(&c.func);
                if self.0.world.contains(&p) || p.starts_with("fs::") || p.starts_with("process::") {
                    self.1 = true;
                }
                syn::visit::visit_expr_call(self, c);
            }
        }
        let args: std::result::Result<punctuated::Punctuated<Expr, Token![,]>, _> = mac.parse_body_with(punctuated::Punctuated::parse_terminated);
        match args {
            Ok(args) => {
                let mut q = Q(self.k, false);
                for a in &args {
                    syn::visit::Visit::visit_expr(&mut q, a);
                }
                if q.1 {
                    self.bad.push("a message that acts".into());
                }
            }
            Err(_) => self.bad.push("print macro".into()),
        }
    }
    fn is_str_lit(e: &Expr) -> bool {
        matches!(strip(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
    }
}
impl<'k> VisitMut for World<'k> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        // the handle of the standard output
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => !l.init.as_ref().map_or(false, |i| {
                let t = i.expr.to_token_stream().to_string().replace(' ', "");
                ["stdout()", "stdout().lock()", "io::stdout()", "io::stdout().lock()", "std::io::stdout()", "std::io::stdout().lock()"].contains(&t.as_str())
            }),
            _ => true,
        });
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let semi = m.semi_token.is_some();
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, if semi || diverging(&m.mac) { Some(Default::default()) } else { None });
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if WORLD_MACROS.iter().any(|n| m.mac.path.is_ident(n)) {
                let mac = m.mac.clone();
                self.quiet(&mac);
                self.hits += 1;
                let f = Ident::new(if mac.path.is_ident("writeln") || mac.path.is_ident("write") { "v_outr" } else { "v_out" }, mac.path.segments[0].ident.span());
                *e = parse2(quote!(#f(w))).unwrap();
                return;
            }
        }
        // collect() of the arguments
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.receiver.to_token_stream().to_string().replace(' ', "").ends_with("env::args()") {
                self.hits += 1;
                *e = parse2(quote!(v_args(w))).unwrap();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                let p = path_str(&c.func);
                if let Some(f) = world_fn(&p) {
                    let f = Ident::new(f, syn::spanned::Spanned::span(&c.func));
                    let a = c.args.iter();
                    self.hits += 1;
                    *e = parse2(quote!(#f(w, #(#a),*))).unwrap();
                } else if p.starts_with("fs::") || p.starts_with("env::") || p.starts_with("process::") || p.starts_with("thread::") {
                    self.bad.push(format!("call of {}", p));
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap" && m.args.is_empty() => {
                let r = &m.receiver;
                let f = Ident::new("v_unwrap", m.method.span());
                self.hits += 1;
                *e = parse2(quote!(#f(#r))).unwrap();
            }
            Expr::MethodCall(m) if m.method == "expect" && m.args.len() == 1 => {
                let r = &m.receiver;
                let f = Ident::new("v_unwrap", m.method.span());
                self.hits += 1;
                *e = parse2(quote!(#f(#r))).unwrap();
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_else" && m.args.len() == 1 => {
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    let b = match strip(&c.body) {
                        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            Stmt::Expr(x, _) => strip(x),
                            _ => strip(&c.body),
                        },
                        x => x,
                    };
                    if matches!(b, Expr::Macro(x) if diverging(&x.mac)) && c.inputs.len() == 1 {
                        let r = &m.receiver;
                        let f = Ident::new("v_unwrap", m.method.span());
                        self.hits += 1;
                        *e = parse2(quote!(#f(#r))).unwrap();
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "starts_with" && m.args.len() == 1 => {
                let (r, a) = (&m.receiver, &m.args[0]);
                let f = Ident::new("v_starts_with", m.method.span());
                *e = parse2(quote!(#f(&#r, #a))).unwrap();
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                if Self::is_str_lit(&b.left) || Self::is_str_lit(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = if matches!(b.op, BinOp::Eq(_)) { parse2(quote!(v_streq(#l, #r))).unwrap() } else { parse2(quote!((!v_streq(#l, #r)))).unwrap() };
                }
            }
            _ => {}
        }
    }
}
/// calls of the functions that act get the world, once closures are gone
struct WorldCalls<'k>(&'k Know);
impl<'k> VisitMut for WorldCalls<'k> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if self.0.world.contains(&path_str(&c.func)) {
                c.args.insert(0, parse_quote!(w));
            }
        }
    }
}
fn world_know(k: &mut Know, items: &[Item]) {
    struct A<'a>(&'a BTreeSet<String>, bool);
    impl<'a, 'b> syn::visit::Visit<'b> for A<'a> {
        fn visit_expr_path(&mut self, p: &'b ExprPath) {
            let s = path_str(&Expr::Path(p.clone()));
            if self.0.contains(&s) || s.starts_with("fs::") || s.starts_with("process::") || s.starts_with("env::") || s == "stdout" {
                self.1 = true;
            }
        }
        fn visit_macro(&mut self, m: &'b Macro) {
            if WORLD_MACROS.iter().any(|n| m.path.is_ident(n)) {
                self.1 = true;
            }
        }
    }
    loop {
        let n = k.world.len();
        for it in items {
            if let Item::Fn(f) = it {
                let mut a = A(&k.world, false);
                syn::visit::Visit::visit_block(&mut a, &f.block);
                if a.1 {
                    k.world.insert(f.sig.ident.to_string());
                }
            }
        }
        if k.world.len() == n {
            return;
        }
    }
}

fn diverging(mac: &Macro) -> bool {
    ["panic", "unreachable", "todo", "unimplemented"].iter().any(|n| mac.path.is_ident(n))
}

impl<'k> VisitMut for Rw<'k> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        // constants of the function move to module level
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(mut c)) => {
                    c.attrs.clear();
                    self.hit("constants declared inside a function moved to module level");
                    let old = c.ident.to_string();
                    self.consts.push((old, c));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(other) => {
                    self.bad(format!("item inside a function body: {}", other.to_token_stream().to_string().chars().take(60).collect::<String>()));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        // track Strings
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if self.is_stringish(&init.expr) {
                        self.strings.insert(p.ident.to_string());
                    }
                }
                if let Pat::Type(t) = &l.pat {
                    if let (Pat::Ident(p), "String") = (&*t.pat, t.ty.to_token_stream().to_string().as_str()) {
                        self.strings.insert(p.ident.to_string());
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macros in statement position become expressions
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, Some(Default::default()));
        }
        // `_ = e;`
        if let Stmt::Expr(Expr::Assign(a), semi) = s {
            if matches!(*a.left, Expr::Infer(_)) {
                let r = &a.right;
                let _ = semi;
                self.hit("`_ = e` written as `let _ = e`");
                *s = parse2(quote!(let _ = #r;)).unwrap();
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- rewrites before the children are visited
        if let Expr::Assign(a) = e {
            if matches!(*a.left, Expr::Infer(_)) {
                let r = &a.right;
                self.hit("`_ = e` written as `let _ = e`");
                *e = parse2(quote!({ let _ = #r; })).unwrap();
            }
        }
        // statement-like terminal iterator methods
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = (*m.receiver).clone();
            if name == "for_each" && m.args.len() == 1 {
                let f = m.args[0].clone();
                self.hit("iterator adaptor chains written as loops");
                let t = self.chain_loop(&recv, &mut |me, item| {
                    let x = me.apply(&f, item);
                    quote!(#x;)
                });
                *e = parse2(quote!({ #t })).unwrap();
            } else if name == "collect" && is_iter(&recv) {
                let v = self.fresh("c");
                self.hit("iterator adaptor chains written as loops");
                let t = self.chain_loop(&recv, &mut |_, item| quote!(#v.push(#item);));
                *e = parse2(quote!({ let mut #v = Vec::new(); #t #v })).unwrap();
            } else if (name == "any" || name == "all") && m.args.len() == 1 && is_iter(&recv) {
                let v = self.fresh("b");
                let f = m.args[0].clone();
                self.hit("iterator adaptor chains written as loops");
                let all = name == "all";
                let t = self.chain_loop(&recv, &mut |me, item| {
                    let x = me.apply(&f, item);
                    if all {
                        quote!(if !(#x) { #v = false; break; })
                    } else {
                        quote!(if #x { #v = true; break; })
                    }
                });
                *e = parse2(quote!({ let mut #v = #all; #t #v })).unwrap();
            } else if name == "extend" && m.args.len() == 1 && is_iter(&m.args[0]) {
                let a = m.args[0].clone();
                self.hit("iterator adaptor chains written as loops");
                let t = self.chain_loop(&a, &mut |_, item| quote!(#recv.push(#item);));
                *e = parse2(quote!({ #t })).unwrap();
            }
        }
        // for loops
        if let Expr::ForLoop(f) = e {
            let body = f.body.clone();
            let label = f.label.clone();
            let pat = (*f.pat).clone();
            if is_iter(&f.expr) && matches!(strip(&f.expr), Expr::MethodCall(m) if ADAPTERS.contains(&m.method.to_string().as_str()) && m.method != "by_ref" && m.method != "enumerate") {
                let src = (*f.expr).clone();
                self.hit("iterator adaptor chains written as loops");
                let t = self.chain_loop(&src, &mut |_, item| {
                    let stmts = &body.stmts;
                    quote!(let #pat = #item; #(#stmts)*)
                });
                *e = parse2(quote!({ #t })).unwrap();
                self.visit_expr_mut(e);
                return;
            }
            self.hit("`for` loops written as `while let Some(..) = it.next()`");
            if let Expr::Range(r) = strip(&f.expr) {
                let (a, b) = (r.start.clone(), r.end.clone());
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (a, b, &r.limits) {
                    let i = self.fresh("i");
                    let n = self.fresh("n");
                    let stmts = &body.stmts;
                    let bind = match &pat {
                        Pat::Wild(_) => quote!(),
                        p => quote!(let #p = #i - 1;),
                    };
                    *e = parse2(quote!({ let mut #i = #a; let #n = #b; #label while #i < #n { #i = #i + 1; #bind #(#stmts)* } })).unwrap();
                } else {
                    self.bad("range loop".into());
                }
            } else {
                let it = self.fresh("it");
                let src = (*f.expr).clone();
                if let Expr::MethodCall(m) = strip(&src) {
                    if m.method == "by_ref" {
                        let r = &m.receiver;
                        *e = parse2(quote!(#label while let Some(#pat) = #r.next() #body)).unwrap();
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                *e = parse2(quote!({ let mut #it = (#src).into_iter(); #label while let Some(#pat) = #it.next() #body })).unwrap();
            }
            self.visit_expr_mut(e);
            return;
        }
        // a match on string literals
        if let Expr::Match(m) = e {
            fn lits(p: &Pat, out: &mut Vec<Expr>) -> bool {
                match p {
                    Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => {
                        out.push(Expr::Lit(l.clone()));
                        true
                    }
                    Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                    Pat::Paren(q) => lits(&q.pat, out),
                    _ => false,
                }
            }
            let first = m.arms.first().map_or(false, |a| lits(&a.pat, &mut vec![]));
            if first {
                let v = self.fresh("w");
                let x = m.expr.clone();
                let mut t = TokenStream::new();
                let mut done = false;
                let mut good = true;
                for a in &m.arms {
                    let body = &a.body;
                    let mut l = vec![];
                    if lits(&a.pat, &mut l) {
                        let mut c = quote!();
                        for (i, x) in l.iter().enumerate() {
                            if i > 0 {
                                c.extend(quote!(||));
                            }
                            c.extend(quote!(v_streq(#v, #x)));
                        }
                        if let Some((_, g)) = &a.guard {
                            c = quote!((#c) && (#g));
                        }
                        t.extend(quote!(if #c { #body } else));
                    } else if a.guard.is_none() {
                        match &a.pat {
                            Pat::Wild(_) => t.extend(quote!({ #body })),
                            Pat::Ident(i) => {
                                let i = &i.ident;
                                t.extend(quote!({ let #i = #v; #body }));
                            }
                            _ => good = false,
                        }
                        done = true;
                        break;
                    } else {
                        good = false;
                    }
                }
                if good && done {
                    self.hit("a match on string literals written as a chain of comparisons");
                    *e = parse2(quote!({ let #v = #x; #t })).unwrap();
                }
            }
        }
        // macros
        if let Expr::Macro(m) = e {
            let mac = m.mac.clone();
            let sp = mac.path.segments[0].ident.span();
            if diverging(&mac) {
                self.hit("panic!, unreachable! as calls with a precondition that is never true");
                let v = Ident::new("v_panic", sp);
                *e = parse2(quote!(#v())).unwrap();
            } else if mac.path.is_ident("assert") || mac.path.is_ident("debug_assert") {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap();
                let c = &args[0];
                self.hit("assert! as a call whose precondition is the condition");
                let v = Ident::new("v_assert", sp);
                *e = parse2(quote!(#v(#c))).unwrap();
            } else if mac.path.is_ident("assert_eq") || mac.path.is_ident("assert_ne") {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap();
                let (a, b) = (&args[0], &args[1]);
                self.hit("assert! as a call whose precondition is the condition");
                let v = Ident::new("v_assert", sp);
                *e = if mac.path.is_ident("assert_eq") {
                    parse2(quote!(#v(#a == #b))).unwrap()
                } else {
                    parse2(quote!(#v(#a != #b))).unwrap()
                };
            } else if mac.path.is_ident("matches") {
                struct MM(Expr, Pat, Option<Expr>);
                impl parse::Parse for MM {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(MM(e, p, g))
                    }
                }
                let MM(a, p, g) = mac.parse_body().unwrap();
                self.hit("matches! written as match");
                let g = g.map(|g| quote!(if #g));
                *e = parse2(quote!((match #a { #p #g => true, _ => false }))).unwrap();
            } else if mac.path.is_ident("cfg") {
                self.hit("cfg!(windows) replaced by its value on this platform (false)");
                *e = parse_quote!(false);
            } else if mac.path.is_ident("format") {
                match self.fmt_macro(&mac) {
                    Some(x) => *e = x,
                    None => self.bad("format!".into()),
                }
            } else if mac.path.is_ident("vec") {
                let args: Option<punctuated::Punctuated<Expr, Token![,]>> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok();
                match args {
                    Some(a) => {
                        let v = self.fresh("v");
                        let it = a.iter();
                        self.hit("vec![..] written as pushes");
                        *e = parse2(quote!({ let mut #v = Vec::new(); #(#v.push(#it);)* #v })).unwrap();
                    }
                    None => self.bad("vec!".into()),
                }
            } else if ["println", "eprintln", "print", "eprint"].iter().any(|n| mac.path.is_ident(n)) {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap();
                let f = Ident::new(&format!("v_{}", mac.path.segments[0].ident), sp);
                match self.fmt_args(args.into_iter().collect()) {
                    Some(x) => *e = parse2(quote!(#f(#x))).unwrap(),
                    None => self.bad("print macro".into()),
                }
            } else if mac.path.is_ident("writeln") || mac.path.is_ident("write") {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap();
                let mut it = args.into_iter();
                let dst = it.next().unwrap();
                let f = Ident::new(&format!("v_{}", mac.path.segments[0].ident), sp);
                match self.fmt_args(it.collect()) {
                    Some(x) => *e = parse2(quote!(#f(&mut #dst, #x))).unwrap(),
                    None => self.bad("write macro".into()),
                }
            } else {
                self.bad(format!("macro {}!", mac.path.to_token_stream()));
            }
        }
        // ---- Option adaptors with closures
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = (*m.receiver).clone();
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let new = match (name.as_str(), args.len()) {
                ("map", 1) if !is_iter(&recv) => {
                    let x = self.fresh("o");
                    let b = self.apply(&args[0], quote!(#x));
                    Some(quote!((match #recv { Some(#x) => Some(#b), None => None })))
                }
                ("and_then", 1) => {
                    let x = self.fresh("o");
                    let b = self.apply(&args[0], quote!(#x));
                    Some(quote!((match #recv { Some(#x) => #b, None => None })))
                }
                ("map_or", 2) => {
                    let x = self.fresh("o");
                    let b = self.apply(&args[1], quote!(#x));
                    let d = &args[0];
                    Some(quote!((match #recv { Some(#x) => #b, None => #d })))
                }
                ("is_some_and", 1) => {
                    let x = self.fresh("o");
                    let b = self.apply(&args[0], quote!(#x));
                    Some(quote!((match #recv { Some(#x) => #b, None => false })))
                }
                ("is_none_or", 1) => {
                    let x = self.fresh("o");
                    let b = self.apply(&args[0], quote!(#x));
                    Some(quote!((match #recv { Some(#x) => #b, None => true })))
                }
                ("map_err", 1) => {
                    let (x, y) = (self.fresh("o"), self.fresh("o"));
                    let b = self.apply(&args[0], quote!(#x));
                    Some(quote!((match #recv { Ok(#y) => Ok(#y), Err(#x) => Err(#b) })))
                }
                ("map_or_else", 2) => {
                    let x = self.fresh("o");
                    let b = self.apply(&args[1], quote!(#x));
                    match strip(&args[0]) {
                        Expr::Closure(c) if c.inputs.is_empty() => {
                            let d = &c.body;
                            Some(quote!((match #recv { Some(#x) => #b, None => #d })))
                        }
                        _ => None,
                    }
                }
                ("ok_or", 1) => {
                    let x = self.fresh("o");
                    let d = &args[0];
                    Some(quote!((match #recv { Some(#x) => Ok(#x), None => Err(#d) })))
                }
                ("then_some", 1) => {
                    let d = &args[0];
                    Some(quote!((if #recv { Some(#d) } else { None })))
                }
                ("then", 1) => match strip(&args[0]) {
                    Expr::Closure(c) if c.inputs.is_empty() => {
                        let d = &c.body;
                        Some(quote!((if #recv { Some(#d) } else { None })))
                    }
                    _ => None,
                },
                ("extend", 1) if !is_iter(&args[0]) => {
                    let x = self.fresh("o");
                    let d = &args[0];
                    Some(quote!({ let mut #x = #d; #recv.append(&mut #x); }))
                }
                ("unwrap_or", 1) => {
                    let x = self.fresh("o");
                    let d = &args[0];
                    Some(quote!((match #recv { Some(#x) => #x, None => #d })))
                }
                _ => None,
            };
            if let Some(n) = new {
                self.hit("Option combinators written as match");
                *e = parse2(n).unwrap();
                self.visit_expr_mut(e);
                return;
            }
            if name == "unwrap_or_else" && args.len() == 1 {
                if let Expr::Closure(c) = strip(&args[0]) {
                    let b = &c.body;
                    let f = if c.inputs.is_empty() {
                        let x = self.fresh("o");
                        quote!((match #recv { Some(#x) => #x, None => #b }))
                    } else {
                        let x = self.fresh("o");
                        let p = &c.inputs[0];
                        quote!((match #recv { Ok(#x) => #x, Err(#p) => #b }))
                    };
                    self.hit("Option combinators written as match");
                    *e = parse2(f).unwrap();
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // s[a..b].m() is (&s[a..b]).m()
        if let Expr::MethodCall(m) = e {
            if let Expr::Index(ix) = strip(&m.receiver) {
                if matches!(strip(&ix.index), Expr::Range(_)) {
                    let ix = ix.clone();
                    *m.receiver = parse2(quote!((&#ix))).unwrap();
                }
            }
        }
        if let Expr::Index(ix) = e {
            if matches!(strip(&ix.index), Expr::Range(_)) {
                self.bad("slice by value".into());
            }
        }
        // ---- equality with a variant of an enum that carries data
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                if let Expr::Path(p) = strip(&b.right) {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && self.k.data_enums.contains(&segs[segs.len() - 2]) {
                        let l = &b.left;
                        let (t, f) = (matches!(b.op, BinOp::Eq(_)), matches!(b.op, BinOp::Ne(_)));
                        self.hit("`x == Enum::Variant` on enums with data written as match");
                        *e = parse2(quote!((match &#l { #p => #t, _ => #f }))).unwrap();
                    }
                }
            }
        }
        // ---- `&` and `|` on bools
        if let Expr::Binary(b) = e {
            let boolish = |x: &Expr| match strip(x) {
                Expr::Unary(u) => matches!(u.op, UnOp::Not(_)),
                Expr::Binary(c) => matches!(c.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)),
                _ => false,
            };
            if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_)) && (boolish(&b.left) || boolish(&b.right)) {
                let (l, r) = (&b.left, &b.right);
                let (x, y) = (self.fresh("l"), self.fresh("r"));
                self.hit("`&`, `|` on bools with both operands evaluated first");
                *e = if matches!(b.op, BinOp::BitAnd(_)) {
                    parse2(quote!({ let #x = #l; let #y = #r; #x && #y })).unwrap()
                } else {
                    parse2(quote!({ let #x = #l; let #y = #r; #x || #y })).unwrap()
                };
            }
        }
        // ---- Strings
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Add(_)) && (self.is_stringish(&b.left) || self.is_strish(&b.right)) {
                let (l, r) = (&b.left, &b.right);
                self.hit("String concatenation as calls");
                *e = parse2(quote!(v_str_add(#l, #r))).unwrap();
            } else if matches!(b.op, BinOp::AddAssign(_)) && (self.is_stringish(&b.left) || self.is_strish(&b.right)) {
                let (l, r) = (&b.left, &b.right);
                self.hit("String concatenation as calls");
                *e = parse2(quote!(v_lit(&mut #l, #r))).unwrap();
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "push_str" && m.args.len() == 1 {
                let (l, r) = (&m.receiver, &m.args[0]);
                *e = parse2(quote!(v_lit(&mut #l, #r))).unwrap();
            }
        }
        if let Expr::Call(c) = e {
            let s = c.func.to_token_stream().to_string();
            if s == "String :: from" && c.args.len() == 1 {
                let a = &c.args[0];
                let f = Ident::new("v_string", syn::spanned::Spanned::span(&c.func));
                *e = parse2(quote!(#f(#a))).unwrap();
            }
        }
        // &x[a..b]
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = strip(&r.expr) {
                if let Expr::Range(rg) = strip(&ix.index) {
                    let b = &ix.expr;
                    let sp = syn::spanned::Spanned::span(&ix.expr);
                    self.hit("slicing `&s[a..b]` as calls");
                    let n = match (&rg.start, &rg.end, &rg.limits) {
                        (Some(a), Some(z), RangeLimits::HalfOpen(_)) => {
                            let f = Ident::new("v_slice", sp);
                            quote!(#f(&#b, #a, #z))
                        }
                        (Some(a), None, _) => {
                            let f = Ident::new("v_slice_from", sp);
                            quote!(#f(&#b, #a))
                        }
                        _ => {
                            self.bad("slice range".into());
                            quote!(&#b)
                        }
                    };
                    *e = parse2(n).unwrap();
                }
            }
        }
        // ---- Cell
        if let Expr::MethodCall(m) = e {
            if let Expr::Field(f) = strip(&m.receiver) {
                if let Member::Named(i) = &f.member {
                    if self.k.cell_fields.contains(&i.to_string()) {
                        let fld = &m.receiver;
                        let new = match (m.method.to_string().as_str(), m.args.len()) {
                            ("get", 0) => Some(quote!(#fld)),
                            ("set", 1) => {
                                let a = &m.args[0];
                                Some(quote!(#fld = #a))
                            }
                            _ => None,
                        };
                        if let Some(n) = new {
                            self.hit("Cell fields as plain fields (the methods using them take &mut self)");
                            *e = parse2(n).unwrap();
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string() == "Cell :: new" {
                *e = c.args[0].clone();
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- after the children
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let nn = match name.as_str() {
                "contains" | "into_iter" | "iter" | "peekable" | "enumerate" | "char_indices" | "join" | "chars"
                | "skip" | "take" | "rev" | "zip" | "last_mut" => Some(format!("v_{}", name)),
                _ => None,
            };
            if let Some(nn) = nn {
                self.hit("iterator, contains and join methods renamed to specified wrappers");
                m.method = Ident::new(&nn, m.method.span());
            }
            // arguments that need the receiver mutably are evaluated first
            if let Some(r) = path_name(&m.receiver) {
                struct Uses<'a>(&'a str, &'a BTreeSet<String>, bool);
                impl<'a, 'b> syn::visit::Visit<'b> for Uses<'a> {
                    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
                        if is_path(&m.receiver, self.0) && self.1.contains(&m.method.to_string()) {
                            self.2 = true;
                        }
                        syn::visit::visit_expr_method_call(self, m);
                    }
                }
                let mut u = Uses(&r, &self.k.demoted, false);
                for a in &m.args {
                    syn::visit::Visit::visit_expr(&mut u, a);
                }
                if u.2 {
                    let mut pre = TokenStream::new();
                    let mut names = Vec::new();
                    for a in &m.args {
                        let v = self.fresh("h");
                        pre.extend(quote!(let #v = #a;));
                        names.push(v);
                    }
                    let (rc, me) = (&m.receiver, &m.method);
                    self.hit("call arguments bound to variables before the call");
                    *e = parse2(quote!({ #pre #rc.#me(#(#names),*) })).unwrap();
                }
            }
        }
        // loops are numbered; the placeholder is replaced by the invariant
        match e {
            Expr::While(w) => {
                self.kinds.push(if matches!(*w.cond, Expr::Let(_)) { "while let" } else { "while" });
                let k = Literal(self.loops);
                self.loops += 1;
                w.body.stmts.insert(0, parse2(quote!(__loop!(#k);)).unwrap());
            }
            Expr::Loop(w) => {
                self.kinds.push("loop");
                let k = Literal(self.loops);
                self.loops += 1;
                w.body.stmts.insert(0, parse2(quote!(__loop!(#k);)).unwrap());
            }
            Expr::Closure(_) => self.bad("closure".into()),
            _ => {}
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_mods(p);
        if p.segments.len() == 2 && (p.segments[0].ident == "PathBuf" || p.segments[0].ident == "Path") {
            p.segments[0].ident = Ident::new("VPath", p.segments[0].ident.span());
        }
        visit_mut::visit_path_mut(self, p);
    }
}
struct Literal(usize);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        proc_macro2::Literal::usize_unsuffixed(self.0).to_tokens(t)
    }
}

/// `lexing::lex` -> `lex`; module names are lower case, types are not
fn strip_mods(p: &mut Path) {
    let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    if segs.len() < 2 {
        return;
    }
    let first = segs[0].ident.to_string();
    if ["std", "core", "alloc"].contains(&first.as_str()) {
        return;
    }
    let mut i = 0;
    while i + 1 < segs.len() {
        let n = segs[i].ident.to_string();
        let lower = n.chars().next().map_or(false, |c| c.is_lowercase());
        if lower && !["env", "fs", "io", "process", "u32", "usize", "char", "str"].contains(&n.as_str()) {
            i += 1;
        } else {
            break;
        }
    }
    if i > 0 {
        p.leading_colon = None;
        p.segments = segs[i..].iter().cloned().collect();
    }
}

struct TyFix<'k>(&'k Know);
impl<'k> VisitMut for TyFix<'k> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let seg = p.path.segments.last().unwrap().clone();
            let id = seg.ident.to_string();
            let inner = match &seg.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                    GenericArgument::Type(t) => Some(t.clone()),
                    _ => None,
                }),
                _ => None,
            };
            let life = match &seg.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                    GenericArgument::Lifetime(t) => Some(t.clone()),
                    _ => None,
                }),
                _ => None,
            };
            match (id.as_str(), inner) {
                ("Cell", Some(i)) => *t = i,
                ("Path", None) | ("PathBuf", None) => *t = parse_quote!(VPath),
                ("IntoIter", Some(i)) => *t = parse_quote!(VIter<#i>),
                ("Peekable", Some(i)) => *t = i,
                ("CharIndices", _) => *t = parse_quote!(VCharIter<#life>),
                _ => {}
            }
        }
        if let Type::Reference(r) = t {
            if r.mutability.is_none() {
                if let Type::Path(p) = &*r.elem {
                    let id = p.path.segments.last().unwrap().ident.to_string();
                    if self.0.cell_structs.contains(&id) {
                        r.mutability = Some(Default::default());
                    }
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_mods(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.meta.to_token_stream().to_string();
        s.contains("cfg") && (s.contains("test") || s.contains("mofmt_verif")) || s == "test"
    })
}
fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let s = a.meta.to_token_stream().to_string();
            for w in s.split(|c: char| !c.is_alphanumeric()) {
                if !w.is_empty() && w != "derive" {
                    out.insert(w.to_string());
                }
            }
        }
    }
    out
}

fn know(k: &mut Know, items: &[Item]) {
    for it in items {
        match it {
            Item::Struct(s) if !is_test(&s.attrs) => {
                for f in &s.fields {
                    let ts = f.ty.to_token_stream().to_string();
                    if let Some(id) = &f.ident {
                        if type_has(&f.ty, "Cell") {
                            k.cell_structs.insert(s.ident.to_string());
                            k.cell_fields.insert(id.to_string());
                        }
                        if ts == "String" {
                            k.string_fields.insert(id.to_string());
                        }
                    }
                }
            }
            Item::Enum(e) if !is_test(&e.attrs) => {
                if e.variants.iter().any(|v| !v.fields.is_empty()) {
                    k.data_enums.insert(e.ident.to_string());
                }
            }
            Item::Const(c) => {
                if c.ty.to_token_stream().to_string().contains("str") {
                    k.str_consts.insert(c.ident.to_string());
                }
            }
            Item::Fn(f) => {
                if let ReturnType::Type(_, t) = &f.sig.output {
                    if t.to_token_stream().to_string() == "String" {
                        k.string_fns.insert(f.sig.ident.to_string());
                    }
                }
                know_body(k, &f.block);
            }
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        know_body(k, &f.block);
                    }
                }
            }
            Item::Mod(m) if !is_test(&m.attrs) && m.ident != "tests" => {
                if let Some((_, it)) = &m.content {
                    know(k, it)
                }
            }
            _ => {}
        }
    }
}
fn know_body(k: &mut Know, b: &Block) {
    for s in &b.stmts {
        if let Stmt::Item(Item::Const(c)) = s {
            if c.ty.to_token_stream().to_string().contains("str") {
                k.str_consts.insert(c.ident.to_string());
            }
        }
    }
}
fn know2(k: &mut Know, items: &[Item]) {
    for it in items {
        if let Item::Impl(i) = it {
            let id = match &*i.self_ty {
                Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => continue,
            };
            if k.cell_structs.contains(&id) {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if let Some(FnArg::Receiver(_)) = f.sig.inputs.first() {
                            k.demoted.insert(f.sig.ident.to_string());
                        }
                    }
                }
            }
        }
    }
}

fn function(k: &Know, file: &str, sig: &Signature, block: &Block, owner: Option<(&str, String)>, out: &mut Vec<Value>) {
    let mut sig = sig.clone();
    let mut block = block.clone();
    let name = sig.ident.to_string();
    let qual = match &owner {
        Some((o, _)) => format!("{}::{}", o, name),
        None => name.clone(),
    };
    let line = sig.ident.span().start().line;
    let mut rw = Rw {
        k,
        n: 0,
        loops: 0, kinds: vec![],
        strings: BTreeSet::new(),
        consts: vec![],
        fn_name: name.clone(),
        unsupported: vec![],
        rewrites: BTreeMap::new(),
    };
    if let Some((o, _)) = &owner {
        if k.cell_structs.contains(*o) {
            if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
                if r.reference.is_some() && r.mutability.is_none() {
                    *r = parse_quote!(&mut self);
                }
            }
        }
    }
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            if t.ty.to_token_stream().to_string() == "String" {
                if let Pat::Ident(p) = &*t.pat {
                    rw.strings.insert(p.ident.to_string());
                }
            }
        }
    }
    TyFix(k).visit_signature_mut(&mut sig);
    TyFix(k).visit_block_mut(&mut block);
    if file.ends_with("/main.rs") {
        let mut wd = World { k, bad: vec![], hits: 0 };
        wd.visit_block_mut(&mut block);
        rw.unsupported.extend(wd.bad);
        if wd.hits > 0 {
            rw.rewrites.insert("file, argument, output and exit functions as specified wrappers over a world parameter", wd.hits);
        }
    }
    rw.visit_block_mut(&mut block);
    if file.ends_with("/main.rs") {
        WorldCalls(k).visit_block_mut(&mut block);
        if k.world.contains(&name) {
            sig.inputs.insert(0, parse_quote!(w: &mut VWorld));
        }
    }
    // hoisted constants
    let mut hoisted = vec![];
    let renames: Vec<(String, String)> =
        rw.consts.iter().map(|(o, _)| (o.clone(), format!("{}_{}", rw.fn_name.to_uppercase(), o))).collect();
    for (i, (_, c)) in rw.consts.clone().into_iter().enumerate() {
        let mut c = c;
        c.ident = Ident::new(&renames[i].1, c.ident.span());
        let mut r2 = Rw {
            k, n: 1000, loops: 0, kinds: vec![], strings: BTreeSet::new(), consts: vec![], fn_name: name.clone(),
            unsupported: vec![], rewrites: BTreeMap::new(),
        };
        r2.visit_expr_mut(&mut c.expr);
        TyFix(k).visit_item_const_mut(&mut c);
        c.vis = parse_quote!(pub);
        hoisted.push(c.to_token_stream().to_string());
    }
    struct Ren<'a>(&'a [(String, String)]);
    impl<'a> VisitMut for Ren<'a> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some((_, new)) = self.0.iter().find(|(o, _)| *o == n) {
                    p.path.segments[0].ident = Ident::new(new, p.path.segments[0].ident.span());
                }
            }
        }
    }
    Ren(&renames).visit_block_mut(&mut block);

    let nn = if name == "contains" { "v_contains".to_string() } else { name.clone() };
    let params: Vec<Value> = sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"name": "self", "text": r.to_token_stream().to_string(), "ty": "Self"}),
            FnArg::Typed(t) => {
                let (nm, mt) = match &*t.pat {
                    Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                    p => (p.to_token_stream().to_string(), false),
                };
                json!({"name": nm, "mut": mt, "text": t.to_token_stream().to_string(), "ty": t.ty.to_token_stream().to_string()})
            }
        })
        .collect();
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    };
    let (body, map) = print(block.to_token_stream());
    // calls
    struct Calls(BTreeSet<String>);
    impl<'b> syn::visit::Visit<'b> for Calls {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            self.0.insert(format!(".{}", m.method));
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, m: &'b ExprCall) {
            self.0.insert(m.func.to_token_stream().to_string().replace(' ', ""));
            syn::visit::visit_expr_call(self, m);
        }
    }
    let mut calls = Calls(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut calls, &block);
    let generics = &sig.generics;
    let wh = &sig.generics.where_clause;
    out.push(json!({
        "kind": "fn", "file": file, "name": nn, "qual": qual, "line": line,
        "owner": owner.as_ref().map(|o| o.0), "impl": owner.as_ref().map(|o| o.1.clone()),
        "generics": generics.to_token_stream().to_string(),
        "where": wh.to_token_stream().to_string(),
        "params": params, "ret": ret, "body": body, "map": map, "loops": rw.loops, "kinds": rw.kinds,
        "consts": hoisted, "unsupported": rw.unsupported, "calls": calls.0,
        "rewrites": rw.rewrites,
    }));
}

fn items(k: &Know, file: &str, list: &[Item], out: &mut Vec<Value>) {
    for it in list {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => function(k, file, &f.sig, &f.block, None, out),
            Item::Impl(i) if !is_test(&i.attrs) => {
                let ty = match &*i.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => t.to_token_stream().to_string(),
                };
                if let Some((_, tr, _)) = &i.trait_ {
                    out.push(json!({"kind": "dropped", "file": file, "what": format!("impl {} for {}", tr.to_token_stream(), ty)}));
                    continue;
                }
                let g = &i.generics;
                let st = &i.self_ty;
                let header = quote!(impl #g #st).to_string();
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => function(k, file, &f.sig, &f.block, Some((&ty, header.clone())), out),
                        x => out.push(json!({"kind": "dropped", "file": file, "what": x.to_token_stream().to_string()})),
                    }
                }
            }
            Item::Struct(s) if !is_test(&s.attrs) => {
                let d = derives(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                TyFix(k).visit_item_struct_mut(&mut s);
                let copy = if d.contains("Copy") { "#[derive(Copy, Clone)] " } else { "" };
                let fields: Vec<Value> = s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), f.ty.to_token_stream().to_string()])).collect();
                out.push(json!({"kind": "struct", "file": file, "name": s.ident.to_string(), "fields": fields,
                    "text": format!("{}{}", copy, s.to_token_stream())}));
            }
            Item::Enum(s) if !is_test(&s.attrs) => {
                let d = derives(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
                TyFix(k).visit_item_enum_mut(&mut s);
                let unit = s.variants.iter().all(|v| v.fields.is_empty());
                let dd = if unit && d.contains("PartialEq") {
                    "#[derive(PartialEq, Eq, Copy, Clone, Structural)] "
                } else if d.contains("Copy") {
                    "#[derive(Copy, Clone)] "
                } else {
                    ""
                };
                let vs: Vec<String> = s.variants.iter().map(|v| v.ident.to_string()).collect();
                out.push(json!({"kind": "enum", "file": file, "name": s.ident.to_string(), "variants": vs, "text": format!("{}{}", dd, s.to_token_stream())}));
            }
            Item::Const(c) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                let mut rw = Rw { k, n: 0, loops: 0, kinds: vec![], strings: BTreeSet::new(), consts: vec![], fn_name: String::new(), unsupported: vec![], rewrites: BTreeMap::new() };
                rw.visit_expr_mut(&mut c.expr);
                out.push(json!({"kind": "const", "file": file, "name": c.ident.to_string(), "text": c.to_token_stream().to_string()}));
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                TyFix(k).visit_item_type_mut(&mut t);
                out.push(json!({"kind": "type", "file": file, "name": t.ident.to_string(), "text": t.to_token_stream().to_string()}));
            }
            Item::Mod(m) if !is_test(&m.attrs) && m.ident != "tests" => {
                if let Some((_, it)) = &m.content {
                    items(k, file, it, out)
                }
            }
            Item::Use(_) | Item::Mod(_) => {}
            x => {
                let s = x.to_token_stream().to_string();
                if !s.contains("cfg") {
                    out.push(json!({"kind": "dropped", "file": file, "what": s.chars().take(80).collect::<String>()}))
                }
            }
        }
    }
}

fn main() {
    let mut files: Vec<String> = std::env::args().skip(1).collect();
    let mut keep = None;
    if files.first().map_or(false, |f| f == "--keep") {
        keep = Some(files[1].split(',').map(String::from).collect::<BTreeSet<String>>());
        files.drain(0..2);
    }
    let mut parsed = Vec::new();
    let mut k = Know::default();
    for f in &files {
        let src = std::fs::read_to_string(f).unwrap_or_else(|e| {
            eprintln!("{}: {}", f, e);
            std::process::exit(3)
        });
        match parse_file(&src) {
            Ok(p) => parsed.push((f.clone(), p)),
            Err(e) => {
                eprintln!("{}: {}", f, e);
                std::process::exit(3)
            }
        }
    }
    let joined = match &keep {
        Some(keep) => inline::join(&mut parsed, keep),
        None => vec![],
    };
    inline::normalize(&mut parsed);
    for (_, p) in &parsed {
        know(&mut k, &p.items);
    }
    for (f, p) in &parsed {
        if f.ends_with("/main.rs") {
            world_know(&mut k, &p.items);
        }
    }
    for (_, p) in &parsed {
        know2(&mut k, &p.items);
    }
    let mut out = Vec::new();
    for j in &joined {
        out.push(json!({"kind": "joined", "name": j}));
    }
    for (f, p) in &parsed {
        items(&k, f, &p.items, &mut out);
    }
    println!("{}", serde_json::to_string(&Value::Array(out)).unwrap());
}
