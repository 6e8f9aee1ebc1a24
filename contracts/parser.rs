
// ---------------------------------------------------------------- trusted: slices, options

pub trait VSliceContains<T> { spec fn sview(&self) -> Seq<T>; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.sview().contains(*x); }
impl VSliceContains<ModelicaToken> for [ModelicaToken] {
    open spec fn sview(&self) -> Seq<ModelicaToken> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, x: &ModelicaToken) -> (r: bool) { self.contains(x) }
}
#[verifier::opaque]
pub open spec fn any_of(s: Seq<ModelicaToken>, k: ModelicaToken) -> bool { s.contains(k) }
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
/// a vector of tokens has less than isize::MAX elements
pub axiom fn axiom_tokens_size(t: &Vec<Token>)
    ensures t@.len() < isize::MAX;

pub open spec fn rename(s: Stk, m: int, k: SyntaxKind) -> Stk decreases s {
    match s {
        Stk::Bot(_) => s,
        Stk::On { below, kind, at, kids } => if at == m { Stk::On { below, kind: k, at, kids } } else { Stk::On { below: Box::new(rename(*below, m, k)), kind, at, kids } },
    }
}
pub proof fn lemma_rename_none(s: Stk, m: int, k: SyntaxKind)
    requires !opened(s, m)
    ensures rename(s, m, k) == s
    decreases s
{ match s { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { lemma_rename_none(*below, m, k); } } }
pub proof fn lemma_rename_add(s: Stk, m: int, k: SyntaxKind, x: Sym)
    ensures rename(add(s, x), m, k) == add(rename(s, m, k), x), opened(add(s, x), m) == opened(s, m)
{ match s { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => {} } }
/// giving an open node its kind changes nothing else
pub proof fn lemma_rename(toks: Seq<Token>, ev: Seq<SyntaxEvent>, m: int, k: SyntaxKind)
    requires opened(fold(toks, ev).stk, m)
    ensures 0 <= m < ev.len(),
        fold(toks, ev.update(m, SyntaxEvent::Enter(k))) == (St { stk: rename(fold(toks, ev).stk, m, k), ..fold(toks, ev) })
    decreases ev.len()
{
    reveal(fold);
    lemma_fold_below(toks, ev);
    let e2 = ev.update(m, SyntaxEvent::Enter(k));
    if ev.len() > 0 {
        let init = ev.drop_last();
        let s = fold(toks, init);
        lemma_fold_below(toks, init);
        lemma_below(s.stk, ev.len() - 1, ev.len() - 1);
        if m == ev.len() - 1 {
            lemma_rename_none(s.stk, m, k);
            assert(e2.drop_last() =~= init);
            match ev.last() {
                SyntaxEvent::Enter(_) => {}
                SyntaxEvent::Advance => { match s.stk { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { lemma_below(*below, at, m); } } }
                SyntaxEvent::Exit => { match s.stk { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { lemma_below(*below, at, m); match *below { Stk::Bot(_) => {}, Stk::On { below: b2, .. } => {} } } } }
            }
        } else {
            match ev.last() {
                SyntaxEvent::Enter(_) => {}
                SyntaxEvent::Advance => { lemma_rename_add(s.stk, m, k, Sym::T(tk(toks, s.pos))); }
                SyntaxEvent::Exit => { match s.stk { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => {
                    lemma_rename_add(*below, m, k, Sym::N(kind));
                    assert(opened(*below, m));
                    lemma_opened_less(*below, at, m);
                } } }
            }
            assert(opened(s.stk, m));
            lemma_rename(toks, init, m, k);
            assert(e2.drop_last() =~= init.update(m, SyntaxEvent::Enter(k)));
        }
    }
}
// ---------------------------------------------------------------- what is to be accepted

pub open spec fn here(i: int) -> bool { true }
/// predictive recognition of rule `k` from state `q` at token `i`: the position after it
#[verifier::opaque]
pub open spec fn rec(k: SyntaxKind, q: int, toks: Seq<Token>, i: int) -> Option<int>
    decreases toks.len() - i, rank(k, q)
{
    if i > toks.len() { None } else {
    match pred(k, q, tk(toks, i), tk(toks, i + 1), tk(toks, i + 2)) {
        Act::Shift(q2) => if i < toks.len() { rec(k, q2, toks, i + 1) } else { None },
        Act::Call(z, q2) => if rank(z, 0) < rank(k, q) {
            match rec(z, 0, toks, i) {
                Some(j) => if i < j <= toks.len() || (i == j && rank(k, q2) < rank(k, q)) { rec(k, q2, toks, j) } else { None },
                None => None,
            } } else { None },
        Act::Accept => Some(i),
        Act::Fail => None,
    } }
}
pub broadcast proof fn lemma_rec(k: SyntaxKind, q: int, toks: Seq<Token>, i: int)
    requires #[trigger] rec(k, q, toks, i) is Some, #[trigger] here(i)
    ensures match pred(k, q, tk(toks, i), tk(toks, i + 1), tk(toks, i + 2)) {
        Act::Shift(q2) => i < toks.len() && rec(k, q2, toks, i + 1) == rec(k, q, toks, i),
        Act::Call(z, q2) => rec(z, 0, toks, i) is Some && rec(k, q2, toks, rec(z, 0, toks, i)->0) == rec(k, q, toks, i),
        Act::Accept => rec(k, q, toks, i) == Some(i),
        Act::Fail => false,
    }
{ reveal(rec); }

// ---------------------------------------------------------------- the parser

/// `e` is located at token `i`, the last token if there is none, or at 1:1 without tokens
pub open spec fn err_at(e: Seq<char>, name: Seq<char>, toks: Seq<Token>, i: int) -> bool {
    if toks.len() == 0 { is_err(e, name, 1, 1) }
    else { let t = if i < toks.len() { toks[i] } else { toks.last() }; is_err(e, name, t.start.line as int, t.start.col as int) }
}
pub open spec fn err_somewhere(e: Seq<char>, name: Seq<char>, toks: Seq<Token>) -> bool {
    exists|i: int| 0 <= i <= toks.len() && err_at(e, name, toks, i)
}
#[verifier::opaque]
pub open spec fn errs_ok(errors: Seq<String>, name: Seq<char>, toks: Seq<Token>) -> bool {
    forall|j: int| 0 <= j < errors.len() ==> err_somewhere((#[trigger] errors[j])@, name, toks)
}
pub proof fn lemma_errs_push(e: Seq<String>, x: String, name: Seq<char>, toks: Seq<Token>, i: int)
    requires errs_ok(e, name, toks), 0 <= i <= toks.len(), err_at(x@, name, toks, i)
    ensures errs_ok(e.push(x), name, toks)
{
    reveal(errs_ok);
    assert(err_somewhere(x@, name, toks));
    assert forall|j: int| 0 <= j < e.push(x).len() implies err_somewhere((#[trigger] e.push(x)[j])@, name, toks) by {
        if j < e.len() { assert(e.push(x)[j] == e[j]); }
    }
}
pub open spec fn real_tokens(toks: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).kind != ModelicaToken::EOF
}
#[verifier::opaque]
pub open spec fn core(toks: Seq<Token>, ev: Seq<SyntaxEvent>, pos: int, clean: bool) -> bool {
    fold(toks, ev).pos == pos && (clean ==> fold(toks, ev).ok)
}
impl<'a> Parser<'a> {
    pub open spec fn st(&self) -> St { fold(self.tokens@, self.events@) }
    pub open spec fn stk(&self) -> Stk { fold(self.tokens@, self.events@).stk }
    pub open spec fn tk(&self, n: int) -> ModelicaToken { tk(self.tokens@, self.pos + n) }
    pub open spec fn inv(&self) -> bool {
        real_tokens(self.tokens@) && self.pos <= self.tokens@.len() && self.tokens@.len() < isize::MAX && here(self.pos as int) && core(self.tokens@, self.events@, self.pos as int, self.errors@.len() == 0)
        && errs_ok(self.errors@, self.name@, self.tokens@)
    }
    pub open spec fn same_input(&self, o: &Self) -> bool { self.tokens == o.tokens && self.name == o.name }
    /// effect of every procedure on the position and the errors
    pub open spec fn grew(&self, o: &Self) -> bool {
        self.same_input(o) && self.pos >= o.pos && self.errors@.len() >= o.errors@.len() && (self.pos == o.pos ==> self.lifes <= o.lifes)
    }
    /// nothing happened but a look at the tokens
    pub open spec fn looked(&self, o: &Self, cost: int) -> bool {
        self.same_input(o) && self.pos == o.pos && self.events == o.events && self.errors == o.errors
        && self.lifes == (if o.lifes >= cost { o.lifes - cost } else { 0 })
    }
    /// one token was consumed
    pub open spec fn took(&self, o: &Self) -> bool {
        self.same_input(o) && self.pos == o.pos + 1 && o.pos < o.tokens@.len() && self.errors == o.errors && self.lifes == 100
        && self.stk() == add(o.stk(), Sym::T(o.tk(0)))
    }
    /// the open node at event `m` is the top one, above the nodes of `o`
    pub open spec fn within(&self, o: &Self) -> bool {
        self.stk() is On && *(self.stk()->below) == o.stk() && self.stk()->at == o.events@.len()
    }
    pub open spec fn kids(&self) -> Seq<Sym> { self.stk()->kids }
    pub open spec fn can(&self, k: SyntaxKind, q: int) -> Option<int> { rec(k, q, self.tokens@, self.pos as int) }
}
