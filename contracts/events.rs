
// ---------------------------------------------------------------- events as a run of the rules

/// kind of the `i`-th token
pub open spec fn tk(toks: Seq<Token>, i: int) -> ModelicaToken {
    if 0 <= i < toks.len() { toks[i].kind } else { ModelicaToken::EOF }
}
/// open nodes, with the symbols read so far in each
pub enum Stk { Bot(Seq<Sym>), On { below: Box<Stk>, kind: SyntaxKind, at: int, kids: Seq<Sym> } }
pub open spec fn add(s: Stk, x: Sym) -> Stk {
    match s {
        Stk::Bot(k) => Stk::Bot(k.push(x)),
        Stk::On { below, kind, at, kids } => Stk::On { below, kind, at, kids: kids.push(x) },
    }
}
pub open spec fn grown(s: Stk, k: SyntaxKind, nonempty: bool) -> Stk { if nonempty { add(s, Sym::N(k)) } else { s } }
/// state of rule `k` after `kids`
#[verifier::opaque]
pub open spec fn run(k: SyntaxKind, kids: Seq<Sym>) -> int decreases kids.len() {
    if kids.len() == 0 { 0 } else { delta(k, run(k, kids.drop_last()), kids.last()) }
}
pub broadcast proof fn lemma_run(k: SyntaxKind, kids: Seq<Sym>, x: Sym)
    ensures #[trigger] run(k, kids.push(x)) == delta(k, run(k, kids), x)
{ reveal(run); assert(kids.push(x).drop_last() =~= kids); }
pub broadcast proof fn lemma_run0(k: SyntaxKind, kids: Seq<Sym>)
    ensures kids.len() == 0 ==> #[trigger] run(k, kids) == 0
{ reveal(run); }

/// `ok`: every closed node has a complete right-hand side of its rule as children
pub struct St { pub ok: bool, pub pos: int, pub stk: Stk }
pub open spec fn step(toks: Seq<Token>, s: St, at: int, e: SyntaxEvent) -> St {
    match e {
        SyntaxEvent::Enter(k) => St { stk: Stk::On { below: Box::new(s.stk), kind: k, at, kids: Seq::empty() }, ..s },
        SyntaxEvent::Advance => St { pos: s.pos + 1, ok: s.ok && s.pos < toks.len(), stk: add(s.stk, Sym::T(tk(toks, s.pos))) },
        SyntaxEvent::Exit => match s.stk {
            Stk::Bot(_) => St { ok: false, ..s },
            Stk::On { below, kind, at, kids } => St { ok: s.ok && fin(kind, run(kind, kids)), stk: grown(*below, kind, kids.len() > 0), ..s },
        },
    }
}
#[verifier::opaque]
pub open spec fn fold(toks: Seq<Token>, ev: Seq<SyntaxEvent>) -> St decreases ev.len() {
    if ev.len() == 0 { St { ok: true, pos: 0, stk: Stk::Bot(Seq::empty()) } }
    else { step(toks, fold(toks, ev.drop_last()), ev.len() - 1, ev.last()) }
}
pub proof fn lemma_fold_push(toks: Seq<Token>, ev: Seq<SyntaxEvent>, e: SyntaxEvent)
    ensures fold(toks, ev.push(e)) == step(toks, fold(toks, ev), ev.len() as int, e)
{ reveal(fold); assert(ev.push(e).drop_last() =~= ev); }

/// is there an open node whose Enter event is the one at `m`
pub open spec fn opened(s: Stk, m: int) -> bool decreases s {
    match s { Stk::Bot(_) => false, Stk::On { below, kind, at, kids } => at == m || opened(*below, m) }
}
pub open spec fn below_all(s: Stk, m: int) -> bool decreases s {
    match s { Stk::Bot(_) => true, Stk::On { below, kind, at, kids } => at < m && below_all(*below, at) }
}
pub proof fn lemma_below(s: Stk, m: int, n: int)
    requires below_all(s, m), m <= n
    ensures below_all(s, n), !opened(s, n)
    decreases s
{ match s { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { lemma_below(*below, at, n); } } }
pub proof fn lemma_fold_below(toks: Seq<Token>, ev: Seq<SyntaxEvent>)
    ensures below_all(fold(toks, ev).stk, ev.len() as int)
    decreases ev.len()
{
    reveal(fold);
    if ev.len() > 0 {
        lemma_fold_below(toks, ev.drop_last());
        let s = fold(toks, ev.drop_last()).stk;
        lemma_below(s, ev.len() - 1, ev.len() as int);
        match s { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { lemma_below(*below, at, ev.len() as int); } }
    }
}
pub proof fn lemma_opened_less(s: Stk, m: int, n: int)
    requires below_all(s, m), opened(s, n)
    ensures n < m
    decreases s
{ match s { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { if at != n { lemma_opened_less(*below, at, n); } } } }

/// the last event closes the only open node, of kind `k`, entered by the first event
#[verifier::opaque]
pub open spec fn closing(toks: Seq<Token>, ev: Seq<SyntaxEvent>, below: Stk, at: int, k: SyntaxKind) -> bool {
    ev.len() > 0 && ev.last() is Exit && fold(toks, ev.drop_last()).stk is On && *(fold(toks, ev.drop_last()).stk->below) == below
    && fold(toks, ev.drop_last()).stk->at == at && fold(toks, ev.drop_last()).stk->kind == k
}
/// the events describe one derivation of `start` with all tokens as its leaves
pub open spec fn derives(toks: Seq<Token>, ev: Seq<SyntaxEvent>, start: SyntaxKind) -> bool {
    fold(toks, ev).ok && fold(toks, ev).pos == toks.len() && closing(toks, ev, Stk::Bot(Seq::empty()), 0, start)
}
