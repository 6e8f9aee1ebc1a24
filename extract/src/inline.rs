//! Functions and local closures that have no contract of their own are joined
//! to their callers: a call is replaced by the body of the function, with the
//! parameters bound to the arguments.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    recv: bool,
    params: Vec<(String, bool, Option<Type>)>,
    body: Block,
    unit: bool,
}

/// idents bound by patterns in a block
struct Binds(BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item_const(&mut self, c: &'a ItemConst) {
        self.0.insert(c.ident.to_string());
    }
}
fn binds(b: &Block) -> BTreeSet<String> {
    let mut x = Binds(BTreeSet::new());
    x.visit_block(b);
    x.0
}
fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

/// is there a `return` or `?` outside closures
struct Leaves(bool, bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.1 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        let mut s = BTreeSet::new();
        idents(m.tokens.clone(), &mut s);
        if s.contains("return") {
            self.1 = true;
        }
    }
}
fn leaves_expr(e: &Expr) -> bool {
    let mut l = Leaves(false, false);
    l.visit_expr(e);
    l.0
}
fn leaves_stmt(s: &Stmt) -> bool {
    let mut l = Leaves(false, false);
    l.visit_stmt(s);
    l.0
}

fn block_of(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block,
        e => block_of(vec![Stmt::Expr(e, None)]),
    }
}
fn block_expr(b: Block) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
}
fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => match &i.else_branch {
            Some((_, e)) => ends_in_return(&i.then_branch) && ends_in_return(&as_block((**e).clone())),
            None => false,
        },
        Some(Stmt::Expr(Expr::Block(x), _)) => ends_in_return(&x.block),
        _ => false,
    }
}

/// the expression as the value of the body, without `return`
fn tail(e: Expr) -> Option<Expr> {
    if !leaves_expr(&e) {
        return Some(e);
    }
    match e {
        Expr::Return(r) => match r.expr {
            Some(x) if leaves_expr(&x) => None,
            Some(x) => Some(*x),
            None => Some(parse_quote!(())),
        },
        Expr::If(mut i) => {
            if leaves_expr(&i.cond) {
                return None;
            }
            i.then_branch = value(i.then_branch.stmts)?;
            if let Some((t, e)) = i.else_branch.take() {
                i.else_branch = Some((t, Box::new(tail(*e)?)));
            }
            Some(Expr::If(i))
        }
        Expr::Match(mut m) => {
            if leaves_expr(&m.expr) {
                return None;
            }
            for a in m.arms.iter_mut() {
                if a.guard.as_ref().map_or(false, |g| leaves_expr(&g.1)) {
                    return None;
                }
                *a.body = tail((*a.body).clone())?;
            }
            Some(Expr::Match(m))
        }
        Expr::Block(b) if b.label.is_none() => Some(block_expr(value(b.block.stmts)?)),
        Expr::Paren(p) => tail(*p.expr),
        _ => None,
    }
}

/// statements as the value of the body, without `return`
fn value(stmts: Vec<Stmt>) -> Option<Block> {
    let mut out = Vec::new();
    let n = stmts.len();
    for (k, s) in stmts.iter().enumerate() {
        if !leaves_stmt(s) {
            out.push(s.clone());
            continue;
        }
        let rest: Vec<Stmt> = stmts[k + 1..].to_vec();
        if k + 1 == n {
            match s {
                Stmt::Expr(e @ Expr::Return(_), _) => match tail(e.clone())? {
                    Expr::Tuple(t) if t.elems.is_empty() => {}
                    e => out.push(Stmt::Expr(e, None)),
                },
                Stmt::Expr(e, semi) => {
                    let all = ends_in_return(&block_of(vec![s.clone()]));
                    let t = tail(e.clone())?;
                    out.push(Stmt::Expr(t, if all { None } else { *semi }));
                }
                _ => return None,
            }
            return Some(block_of(out));
        }
        match s {
            Stmt::Expr(Expr::If(i), _) => {
                if leaves_expr(&i.cond) {
                    return None;
                }
                let mut i = i.clone();
                let els = i.else_branch.take().map(|(_, e)| as_block(*e));
                let t_ret = ends_in_return(&i.then_branch);
                let e_ret = els.as_ref().map_or(false, ends_in_return);
                if t_ret && !e_ret {
                    let mut b = els.unwrap_or(block_of(vec![]));
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    b.stmts.extend(rest);
                    let b = value(b.stmts)?;
                    i.then_branch = value(i.then_branch.stmts)?;
                    i.else_branch = Some((Default::default(), Box::new(block_expr(b))));
                } else if e_ret && !t_ret {
                    if let Some(Stmt::Expr(_, semi @ None)) = i.then_branch.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    i.then_branch.stmts.extend(rest);
                    i.then_branch = value(i.then_branch.stmts)?;
                    i.else_branch = Some((Default::default(), Box::new(block_expr(value(els.unwrap().stmts)?))));
                } else {
                    return None;
                }
                out.push(Stmt::Expr(Expr::If(i), None));
                return Some(block_of(out));
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                if leaves_expr(&m.expr) {
                    return None;
                }
                let mut open = 0;
                for a in m.arms.iter_mut() {
                    let mut b = as_block((*a.body).clone());
                    if !ends_in_return(&b) {
                        open += 1;
                        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                        b.stmts.extend(rest.clone());
                    }
                    *a.body = block_expr(value(b.stmts)?);
                }
                if open > 1 {
                    return None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(block_of(out));
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (_, d) = init.diverge.as_ref()?;
                let d = as_block((**d).clone());
                if leaves_expr(&init.expr) || !ends_in_return(&d) {
                    return None;
                }
                let (p, e) = (&l.pat, &init.expr);
                let (a, b) = (value(rest)?, value(d.stmts)?);
                out.push(Stmt::Expr(parse_quote!(if let #p = #e #a else #b), None));
                return Some(block_of(out));
            }
            _ => return None,
        }
    }
    Some(block_of(out))
}

/// simultaneous replacement of variables by expressions
struct Subst<'a> {
    map: &'a BTreeMap<String, Expr>,
    bad: bool,
}
impl<'a> Subst<'a> {
    fn toks(&mut self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut dot = false;
        for t in ts {
            match t {
                TokenTree::Ident(i) if !dot && self.map.contains_key(&i.to_string()) => {
                    out.extend(self.map[&i.to_string()].to_token_stream());
                    dot = false;
                }
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.toks(g.stream()));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                    dot = false;
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if s.starts_with('"') && self.map.keys().any(|k| s.contains(&format!("{{{}}}", k)) || s.contains(&format!("{{{}:", k))) {
                        self.bad = true;
                    }
                    out.extend([TokenTree::Literal(l)]);
                    dot = false;
                }
                t => {
                    dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
                    out.extend([t]);
                }
            }
        }
        out
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = self.map.get(&i.to_string()) {
                        *e = n.clone();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(i) = &f.member {
                if self.map.contains_key(&i.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}
/// constants: evaluated anywhere, any number of times, with the same value
fn constant(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()),
        Expr::Reference(r) if r.mutability.is_none() => constant(&r.expr),
        Expr::Array(a) => a.elems.iter().all(constant),
        Expr::Paren(p) => constant(&p.expr),
        _ => false,
    }
}
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

pub struct Inline {
    fns: BTreeMap<String, Helper>,
    methods: BTreeMap<String, Helper>,
    n: usize,
    pub used: BTreeSet<String>,
}

impl Inline {
    /// the body with the parameters bound
    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Block> {
        if h.recv != recv.is_some() || args.len() != h.params.len() {
            return None;
        }
        let mut body = h.body.clone();
        let local = binds(&body);
        let mut map: BTreeMap<String, Expr> = BTreeMap::new();
        let mut free = BTreeSet::new();
        for a in args.iter().chain(recv) {
            idents(a.to_token_stream(), &mut free);
        }
        if let Some(r) = recv {
            if !place(r) {
                return None;
            }
            if ident_of(r).as_deref() != Some("self") {
                map.insert("self".into(), r.clone());
            }
        }
        let mut lets: Vec<Stmt> = Vec::new();
        let mut renamed = map.clone();
        for ((name, mutable, ty), arg) in h.params.iter().zip(args) {
            if let Expr::Closure(c) = &arg {
                // the parameter is only called
                let ch = closure_helper(c)?;
                let mut sub = Inline { fns: BTreeMap::new(), methods: BTreeMap::new(), n: self.n + 100, used: BTreeSet::new() };
                sub.fns.insert(name.clone(), ch);
                if binds(&body).contains(name) {
                    return None;
                }
                sub.visit_block_mut(&mut body);
                let mut ids = BTreeSet::new();
                idents(body.to_token_stream(), &mut ids);
                if ids.contains(name) {
                    return None;
                }
                continue;
            }
            let id = ident_of(&arg);
            if id.as_deref() == Some(name) && !*mutable {
                continue;
            }
            let clash = local.contains(name) || *mutable;
            if !clash && constant(&arg) {
                renamed.insert(name.clone(), arg);
                continue;
            }
            if !clash {
                if let Some(i) = &id {
                    if !local.contains(i) {
                        renamed.insert(name.clone(), arg);
                        continue;
                    }
                }
            }
            self.n += 1;
            let bound = if free.contains(name) { format!("{}_i{}", name, self.n) } else { name.clone() };
            let b = Ident::new(&bound, proc_macro2::Span::call_site());
            if bound != *name {
                if local.contains(name) {
                    return None;
                }
                renamed.insert(name.clone(), parse_quote!(#b));
            }
            // a temporary of the call lives as long as the body
            let mut arg = arg;
            let inner = match &mut arg {
                Expr::MethodCall(m) if m.args.is_empty() && m.method.to_string().starts_with("as_") && !place(&m.receiver) => Some(&mut m.receiver),
                Expr::Reference(r) if matches!(&*r.expr, Expr::MethodCall(_) | Expr::Call(_) | Expr::Macro(_)) => Some(&mut r.expr),
                _ => None,
            };
            if let Some(x) = inner {
                let t = Ident::new(&format!("t_i{}", self.n), proc_macro2::Span::call_site());
                let v = std::mem::replace(&mut **x, parse_quote!(#t));
                lets.push(parse_quote!(let mut #t = #v;));
            }
            let m = if *mutable { quote!(mut) } else { quote!() };
            let plain = ty.as_ref().and_then(|t| match t {
                Type::Path(p) if p.path.segments.iter().all(|s| s.arguments.is_none()) && p.path.segments.last().unwrap().ident != "Self" => Some(t.clone()),
                _ => None,
            });
            lets.push(match plain {
                Some(t) => parse_quote!(let #m #b: #t = #arg;),
                None => parse_quote!(let #m #b = #arg;),
            });
        }
        // a variable of the caller must not be captured by a local of the body
        for v in renamed.values() {
            let mut s = BTreeSet::new();
            idents(v.to_token_stream(), &mut s);
            if s.iter().any(|i| local.contains(i)) {
                return None;
            }
        }
        let mut s = Subst { map: &renamed, bad: false };
        s.visit_block_mut(&mut body);
        if s.bad {
            return None;
        }
        lets.extend(body.stmts);
        Some(block_of(lets))
    }

    fn replace(&mut self, e: &Expr) -> Option<(Block, bool)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let name = p.path.segments.last()?.ident.to_string();
                if p.path.segments.len() > 1 || p.qself.is_some() {
                    // a path is a module or the type itself
                    let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    if ["String", "Vec", "Some"].contains(&q.as_str()) {
                        return None;
                    }
                }
                if let Some(h) = self.fns.get(&name).cloned() {
                    let b = self.expand(&h, None, c.args.iter().cloned().collect())?;
                    self.used.insert(name);
                    return Some((b, h.unit));
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let h = self.methods.get(&name).cloned()?;
                let b = self.expand(&h, Some(&m.receiver), m.args.iter().cloned().collect())?;
                self.used.insert(name);
                Some((b, h.unit))
            }
            _ => None,
        }
    }
}

fn bare(e: &mut Expr) {
    if let Expr::Paren(p) = e {
        if matches!(&*p.expr, Expr::Block(_) | Expr::If(_) | Expr::Match(_)) {
            *e = (*p.expr).clone();
        }
    }
}

impl VisitMut for Inline {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local closures
        let mut own: Vec<String> = vec![];
        let mut k = 0;
        while k < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[k] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        if let Some(h) = closure_helper(c) {
                            found = Some((p.ident.to_string(), h));
                        }
                    }
                }
            }
            if let Some((name, h)) = found {
                let mut rest = block_of(b.stmts[k + 1..].to_vec());
                if !binds(&rest).contains(&name) && !self.fns.contains_key(&name) {
                    self.fns.insert(name.clone(), h);
                    let was = self.used.clone();
                    self.visit_block_mut(&mut rest);
                    self.fns.remove(&name);
                    let mut ids = BTreeSet::new();
                    idents(rest.to_token_stream(), &mut ids);
                    if !ids.contains(&name) {
                        b.stmts.truncate(k);
                        b.stmts.extend(rest.stmts);
                        own.push(name);
                        continue;
                    }
                    self.used = was;
                }
            }
            k += 1;
        }
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            match s {
                Stmt::Expr(mut e, semi) => {
                    bare(&mut e);
                    // a body without locals needs no scope
                    if let (Expr::Block(x), Some(_)) = (&e, &semi) {
                        if x.attrs.iter().any(|a| a.path().is_ident("joined")) && binds(&x.block).is_empty() {
                            let mut v = x.block.stmts.clone();
                            if let Some(Stmt::Expr(_, q @ None)) = v.last_mut() {
                                *q = Some(Default::default());
                            }
                            out.extend(v);
                            continue;
                        }
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        bare(&mut a.body);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Some(i) = &mut l.init {
            bare(&mut i.expr);
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if let Expr::Paren(p) = &*i.cond {
            if matches!(&*p.expr, Expr::MethodCall(_) | Expr::Binary(_) | Expr::Unary(_) | Expr::Macro(_)) {
                *i.cond = (*p.expr).clone();
            }
        }
    }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        visit_mut::visit_expr_while_mut(self, i);
        if let Expr::Paren(p) = &*i.cond {
            if matches!(&*p.expr, Expr::MethodCall(_) | Expr::Binary(_) | Expr::Unary(_) | Expr::Macro(_)) {
                *i.cond = (*p.expr).clone();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some((b, unit)) = self.replace(e) {
            let mut stmts = b.stmts;
            if stmts.len() == 1 {
                if let Stmt::Expr(x, None) = &stmts[0] {
                    let x = x.clone();
                    if !unit {
                        *e = parse_quote!((#x));
                        return;
                    }
                }
            }
            if unit {
                if let Some(Stmt::Expr(_, q @ None)) = stmts.last_mut() {
                    *q = Some(Default::default());
                }
            }
            let blk = ExprBlock { attrs: vec![parse_quote!(#[joined])], label: None, block: block_of(stmts) };
            *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(Expr::Block(blk)) });
        }
    }
}

/// remove the marks
struct Unmark;
impl VisitMut for Unmark {
    fn visit_expr_block_mut(&mut self, b: &mut ExprBlock) {
        b.attrs.retain(|a| !a.path().is_ident("joined"));
        visit_mut::visit_expr_block_mut(self, b);
    }
}

fn closure_helper(c: &ExprClosure) -> Option<Helper> {
    let mut params = vec![];
    for p in &c.inputs {
        match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => params.push((i.ident.to_string(), i.mutability.is_some(), None)),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) if i.by_ref.is_none() => params.push((i.ident.to_string(), i.mutability.is_some(), Some((*t.ty).clone()))),
                _ => return None,
            },
            _ => return None,
        }
    }
    let b = as_block((*c.body).clone());
    let mut l = Leaves(false, false);
    l.visit_block(&b);
    if l.1 {
        return None;
    }
    let body = value(b.stmts)?;
    let unit = !matches!(body.stmts.last(), Some(Stmt::Expr(_, None)));
    Some(Helper { recv: false, params, body, unit })
}

fn helper(sig: &Signature, block: &Block) -> Option<Helper> {
    let mut tps = BTreeSet::new();
    for g in &sig.generics.params {
        match g {
            GenericParam::Lifetime(_) => {}
            GenericParam::Type(t) => {
                tps.insert(t.ident.to_string());
            }
            _ => return None,
        }
    }
    if sig.asyncness.is_some() || sig.unsafety.is_some() || sig.constness.is_some() && false {
        return None;
    }
    let mut params = vec![];
    let mut recv = false;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(_) => recv = true,
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                    let ts = t.ty.to_token_stream().to_string();
                    let opaque = tps.contains(&ts) || matches!(&*t.ty, Type::ImplTrait(_));
                    params.push((i.ident.to_string(), i.mutability.is_some(), if opaque { None } else { Some((*t.ty).clone()) }))
                }
                _ => return None,
            },
        }
    }
    let mut l = Leaves(false, false);
    l.visit_block(block);
    if l.1 {
        return None;
    }
    let unit = matches!(sig.output, ReturnType::Default);
    let body = value(block.stmts.clone())?;
    Some(Helper { recv, params, body, unit })
}

struct Names<'a>(&'a BTreeSet<String>, BTreeSet<String>);
impl<'a, 'b> Visit<'b> for Names<'a> {
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        self.1.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_path(&mut self, p: &'b Path) {
        self.1.insert(p.segments.last().unwrap().ident.to_string());
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        idents(m.tokens.clone(), &mut self.1);
    }
}

fn each<'a>(items: &'a [Item], f: &mut dyn FnMut(Option<String>, &'a Signature, &'a Block)) {
    for it in items {
        match it {
            Item::Fn(x) if !crate::is_test(&x.attrs) => f(None, &x.sig, &x.block),
            Item::Impl(i) if !crate::is_test(&i.attrs) && i.trait_.is_none() => {
                let ty = match &*i.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => t.to_token_stream().to_string(),
                };
                for x in &i.items {
                    if let ImplItem::Fn(m) = x {
                        if !crate::is_test(&m.attrs) {
                            f(Some(ty.clone()), &m.sig, &m.block)
                        }
                    }
                }
            }
            Item::Mod(m) if !crate::is_test(&m.attrs) && m.ident != "tests" => {
                if let Some((_, it)) = &m.content {
                    each(it, f)
                }
            }
            _ => {}
        }
    }
}
fn each_mut(items: &mut Vec<Item>, f: &mut dyn FnMut(Option<String>, &Signature, &mut Block) -> bool) {
    items.retain_mut(|it| match it {
        Item::Fn(x) if !crate::is_test(&x.attrs) => f(None, &x.sig.clone(), &mut x.block),
        Item::Impl(i) if !crate::is_test(&i.attrs) && i.trait_.is_none() => {
            let ty = match &*i.self_ty {
                Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                t => t.to_token_stream().to_string(),
            };
            i.items.retain_mut(|x| match x {
                ImplItem::Fn(m) if !crate::is_test(&m.attrs) => f(Some(ty.clone()), &m.sig.clone(), &mut m.block),
                _ => true,
            });
            true
        }
        Item::Mod(m) if !crate::is_test(&m.attrs) && m.ident != "tests" => {
            if let Some((_, it)) = &mut m.content {
                each_mut(it, f)
            }
            true
        }
        _ => true,
    });
}

/// Join the functions that are not in `keep` to their callers; returns what was joined.
pub fn join(files: &mut [(String, File)], keep: &BTreeSet<String>) -> Vec<String> {
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    let mut cand: BTreeMap<String, (Option<String>, Helper)> = BTreeMap::new();
    for (_, f) in files.iter() {
        each(&f.items, &mut |owner, sig, block| {
            let name = sig.ident.to_string();
            *count.entry(name.clone()).or_default() += 1;
            let qual = match &owner {
                Some(o) => format!("{}::{}", o, name),
                None => name.clone(),
            };
            if !keep.contains(&qual) && name != "main" {
                if let Some(h) = helper(sig, block) {
                    cand.insert(name, (owner, h));
                }
            }
        });
    }
    cand.retain(|n, _| count[n] == 1);
    // no cycles
    let names: BTreeSet<String> = cand.keys().cloned().collect();
    let mut uses: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (n, (_, h)) in &cand {
        let mut v = Names(&names, BTreeSet::new());
        v.visit_block(&h.body);
        uses.insert(n.clone(), v.1.intersection(&names).cloned().collect());
    }
    let mut order: Vec<String> = vec![];
    loop {
        let next: Vec<String> =
            names.iter().filter(|n| !order.contains(n) && uses[*n].iter().all(|u| order.contains(u))).cloned().collect();
        if next.is_empty() {
            break;
        }
        order.extend(next);
    }
    let mut inl = Inline { fns: BTreeMap::new(), methods: BTreeMap::new(), n: 0, used: BTreeSet::new() };
    for n in order {
        let (owner, mut h) = cand[&n].clone();
        inl.visit_block_mut(&mut h.body);
        let _ = owner;
        if h.recv {
            inl.methods.insert(n, h);
        } else {
            inl.fns.insert(n, h);
        }
    }
    inl.used.clear();
    for (_, f) in files.iter_mut() {
        each_mut(&mut f.items, &mut |owner, sig, block| {
            let name = sig.ident.to_string();
            let _ = owner;
            if !inl.fns.contains_key(&name) && !inl.methods.contains_key(&name) {
                inl.visit_block_mut(block);
                Unmark.visit_block_mut(block);
            }
            true
        });
    }
    // what is no longer used goes
    let joined: BTreeSet<String> = inl.fns.keys().chain(inl.methods.keys()).cloned().collect();
    let mut gone: BTreeSet<String> = joined.intersection(&inl.used).cloned().collect();
    loop {
        let mut left = BTreeSet::new();
        for (_, f) in files.iter() {
            each(&f.items, &mut |_, sig, block| {
                if !gone.contains(&sig.ident.to_string()) {
                    let mut v = Names(&joined, BTreeSet::new());
                    v.visit_block(block);
                    left.extend(v.1);
                }
            });
        }
        let n = gone.len();
        gone.retain(|g| !left.contains(g));
        // helpers used only by helpers that are gone
        if gone.len() == n {
            break;
        }
    }
    for (_, f) in files.iter_mut() {
        each_mut(&mut f.items, &mut |_, sig, _| !gone.contains(&sig.ident.to_string()));
    }
    gone.into_iter().collect()
}

// ------------------------------------------------- loops in one form

fn is_break(b: &Block) -> bool {
    b.stmts.len() == 1
        && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(k), _) if k.label.is_none() && k.expr.is_none())
}
fn is_break_expr(e: &Expr) -> bool {
    match e {
        Expr::Break(k) => k.label.is_none() && k.expr.is_none(),
        Expr::Block(b) => b.label.is_none() && is_break(&b.block),
        _ => false,
    }
}
fn not(e: &Expr) -> Expr {
    match e {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        Expr::Paren(p) => not(&p.expr),
        Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Macro(_) => parse_quote!(!#e),
        e => parse_quote!(!(#e)),
    }
}
/// breaks and continues of this loop
struct Jumps(bool);
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

pub struct Norm;
impl Norm {
    fn stmts(v: Vec<Stmt>) -> Block {
        block_of(v)
    }
    fn rewrite(&self, label: &Option<Label>, body: &Block) -> Option<Expr> {
        if label.is_some() {
            return None;
        }
        let st = &body.stmts;
        let first = st.first()?;
        let rest: Vec<Stmt> = st[1..].to_vec();
        match first {
            Stmt::Expr(Expr::If(i), _) => {
                let is_let = matches!(&*i.cond, Expr::Let(_));
                let els = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
                if is_break(&i.then_branch) && !is_let {
                    let mut b = vec![];
                    if let Some(e) = els {
                        let x = as_block(e);
                        if binds(&x).is_empty() || rest.is_empty() {
                            b.extend(semi(x.stmts));
                        } else {
                            b.push(Stmt::Expr(block_expr(x), None));
                        }
                    }
                    b.extend(rest);
                    let (c, b) = (not(&i.cond), Self::stmts(b));
                    return Some(parse_quote!(while #c #b));
                }
                if els.as_ref().map_or(false, is_break_expr) && (rest.is_empty() || !is_let) {
                    let x = i.then_branch.clone();
                    let mut b = vec![];
                    if binds(&x).is_empty() || rest.is_empty() {
                        b.extend(semi(x.stmts));
                    } else {
                        b.push(Stmt::Expr(block_expr(x), None));
                    }
                    b.extend(rest);
                    let (c, b) = (&i.cond, Self::stmts(b));
                    return Some(parse_quote!(while #c #b));
                }
            }
            Stmt::Expr(Expr::Match(m), _) if rest.is_empty() && m.arms.len() == 2 => {
                let (a, z) = (&m.arms[0], &m.arms[1]);
                let none = |p: &Pat| matches!(p, Pat::Ident(i) if i.ident == "None") || matches!(p, Pat::Path(q) if q.path.is_ident("None"));
                let (p, brk) = if z.guard.is_none() && is_break_expr(&z.body) {
                    (a, z)
                } else if a.guard.is_none() && is_break_expr(&a.body) && none(&a.pat) {
                    (z, a)
                } else {
                    return None;
                };
                let _ = brk;
                let (pat, x) = (&p.pat, &m.expr);
                let mut b = vec![];
                if let Some((_, g)) = &p.guard {
                    let n = not(g);
                    b.push(parse_quote!(if #n { break; }));
                }
                b.extend(semi(as_block((*p.body).clone()).stmts));
                let b = Self::stmts(b);
                return Some(parse_quote!(while let #pat = #x #b));
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    let b = Self::stmts(rest.clone());
                    let (p, x) = (&l.pat, &init.expr);
                    if let Some((_, d)) = &init.diverge {
                        if is_break_expr(d) {
                            return Some(parse_quote!(while let #p = #x #b));
                        }
                    }
                    if let (Pat::Ident(v), Expr::Match(m)) = (&l.pat, &*init.expr) {
                        if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) {
                            for (a, z) in [(&m.arms[0], &m.arms[1]), (&m.arms[1], &m.arms[0])] {
                                if let (Pat::TupleStruct(t), true) = (&a.pat, is_break_expr(&z.body)) {
                                    if t.path.is_ident("Some") && t.elems.len() == 1 && t.elems[0].to_token_stream().to_string() == a.body.to_token_stream().to_string() {
                                        let (v, x) = (&v, &m.expr);
                                        return Some(parse_quote!(while let Some(#v) = #x #b));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        // the test at the end
        if st.len() > 1 {
            if let Some(Stmt::Expr(Expr::If(i), _)) = st.last() {
                if i.else_branch.is_none() && is_break(&i.then_branch) && !matches!(&*i.cond, Expr::Let(_)) {
                    let head = block_of(semi(st[..st.len() - 1].to_vec()));
                    let mut j = Jumps(false);
                    j.visit_block(&head);
                    let mut ids = BTreeSet::new();
                    idents(i.cond.to_token_stream(), &mut ids);
                    let own = binds(&head);
                    if !j.0 && !ids.iter().any(|x| own.contains(x)) {
                        let c = not(&i.cond);
                        let hs = &head.stmts;
                        return Some(if own.is_empty() {
                            parse_quote!({ #(#hs)* while #c #head })
                        } else {
                            parse_quote!({ #head while #c #head })
                        });
                    }
                }
            }
        }
        None
    }
}
fn semi(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, q @ None)) = v.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_)) {
            *q = Some(Default::default());
        }
    }
    v
}
impl VisitMut for Norm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let n = match e {
            Expr::Loop(l) => self.rewrite(&l.label, &l.body),
            Expr::While(w) if w.cond.to_token_stream().to_string() == "true" => self.rewrite(&w.label, &w.body),
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}

pub fn normalize(files: &mut [(String, File)]) {
    for (_, f) in files.iter_mut() {
        each_mut(&mut f.items, &mut |_, _, b| {
            Norm.visit_block_mut(b);
            true
        });
    }
}
