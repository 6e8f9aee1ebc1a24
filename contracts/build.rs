
// ---------------------------------------------------------------- the tree of a run of events

pub open spec fn syms(t: Tree) -> Seq<Sym> { Seq::new(t.children@.len(), |k: int| sym(t, k)) }
pub open spec fn total(t: Tree) -> nat { off(t, t.children@.len() as int) }
pub open spec fn root_kind(toks: Seq<Token>, ev: Seq<SyntaxEvent>) -> SyntaxKind { fold(toks, ev.drop_last()).stk->kind }
/// the children so far are the tokens from `p` on, and derivations
#[verifier::opaque]
pub open spec fn good(t: Tree, s: Seq<Token>, p: int) -> bool {
    p >= 0 && forall|k: int| 0 <= k < t.children@.len() ==> match #[trigger] t.children@[k] {
        Child::Token(x) => 0 <= p + off(t, k) < s.len() && x == s[p + off(t, k)],
        Child::Tree(c) => c.children@.len() > 0 && shape(c, s, p + off(t, k)) }
}
/// the vector `st` holds the open nodes of `k`
#[verifier::opaque]
pub open spec fn rel(st: Seq<Tree>, k: Stk, s: Seq<Token>, pos: int) -> bool decreases k {
    match k {
        Stk::Bot(b) => st.len() == 0 && pos == 0,
        Stk::On { below, kind, at, kids } => st.len() > 0 && st.last().kind == kind && syms(st.last()) == kids
            && good(st.last(), s, pos - total(st.last())) && rel(st.drop_last(), *below, s, pos - total(st.last())),
    }
}
pub proof fn lemma_dead(k: SyntaxKind, q: int, x: Sym)
    requires q < 0
    ensures delta(k, q, x) < 0
{ reveal(delta); }
pub proof fn lemma_fin_dead(k: SyntaxKind, q: int)
    requires fin(k, q)
    ensures q >= 0
{ reveal(fin); }
pub proof fn lemma_state_run(t: Tree, k: int)
    requires 0 <= k <= t.children@.len()
    ensures state(t, k) == run(t.kind, syms(t).take(k)), state(t, k) >= 0 && 0 < k ==> state(t, k - 1) >= 0
    decreases k
{
    reveal(state); reveal(run);
    if k > 0 {
        lemma_state_run(t, k - 1);
        assert(syms(t).take(k).drop_last() =~= syms(t).take(k - 1));
        assert(syms(t).take(k).last() == sym(t, k - 1));
        if state(t, k - 1) < 0 { lemma_dead(t.kind, state(t, k - 1), sym(t, k - 1)); }
    }
}
pub proof fn lemma_alive(t: Tree, k: int, n: int)
    requires 0 <= k <= n <= t.children@.len(), state(t, n) >= 0
    ensures state(t, k) >= 0
    decreases n
{ if k < n { lemma_state_run(t, n); lemma_alive(t, k, n - 1); } }
/// a node closed with a complete right-hand side is a derivation
pub proof fn lemma_close(t: Tree, s: Seq<Token>, p: int)
    requires good(t, s, p), fin(t.kind, run(t.kind, syms(t)))
    ensures shape(t, s, p)
{
    reveal(good); reveal(shape);
    let n = t.children@.len() as int;
    assert(syms(t).take(n) =~= syms(t));
    lemma_state_run(t, n);
    lemma_fin_dead(t.kind, state(t, n));
    assert forall|k: int| 0 <= k <= n implies #[trigger] state(t, k) >= 0 by { lemma_alive(t, k, n); }
}
pub proof fn lemma_off_same(a: Tree, b: Tree, k: int)
    requires 0 <= k <= a.children@.len(), k <= b.children@.len(), a.children@.take(k) == b.children@.take(k)
    ensures off(a, k) == off(b, k)
    decreases k
{
    reveal(off); reveal(size);
    if k > 0 {
        assert(a.children@.take(k)[k - 1] == a.children@[k - 1]);
        assert(b.children@.take(k)[k - 1] == b.children@[k - 1]);
        assert(a.children@.take(k)[k - 1] == b.children@.take(k)[k - 1]);
        assert(a.children@.take(k - 1) =~= a.children@.take(k).take(k - 1));
        assert(b.children@.take(k - 1) =~= b.children@.take(k).take(k - 1));
        lemma_off_same(a, b, k - 1);
    }
}
/// one more child
pub proof fn lemma_grow(a: Tree, b: Tree, c: Child, s: Seq<Token>, p: int)
    requires good(a, s, p), b.kind == a.kind, b.children@ == a.children@.push(c),
        match c { Child::Token(x) => 0 <= p + total(a) < s.len() && x == s[p + total(a)], Child::Tree(t) => t.children@.len() > 0 && shape(t, s, p + total(a)) }
    ensures good(b, s, p), syms(b) == syms(a).push(csym(c)), total(b) == total(a) + csize(c)
{
    reveal(good); reveal(off);
    let n = a.children@.len() as int;
    assert forall|k: int| 0 <= k <= n implies #[trigger] off(b, k) == off(a, k) by {
        assert(b.children@.take(k) =~= a.children@.take(k));
        lemma_off_same(a, b, k);
    }
    assert forall|k: int| 0 <= k < b.children@.len() implies match #[trigger] b.children@[k] {
        Child::Token(x) => 0 <= p + off(b, k) < s.len() && x == s[p + off(b, k)],
        Child::Tree(c) => c.children@.len() > 0 && shape(c, s, p + off(b, k)) } by {
        if k < n { assert(b.children@[k] == a.children@[k]); } else { assert(b.children@[k] == c); }
    }
    assert(syms(b) =~= syms(a).push(csym(c)));
}
pub proof fn lemma_fresh(t: Tree, s: Seq<Token>, p: int)
    requires t.children@.len() == 0, p >= 0
    ensures good(t, s, p), total(t) == 0, syms(t) == Seq::<Sym>::empty()
{ reveal(good); reveal(off); assert(syms(t) =~= Seq::empty()); }
pub proof fn lemma_opened_add(s: Stk, x: Sym, m: int)
    ensures opened(add(s, x), m) == opened(s, m)
{ match s { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => {} } }
pub proof fn lemma_opened_step(toks: Seq<Token>, s: St, at: int, e: SyntaxEvent, m: int)
    requires opened(step(toks, s, at, e).stk, m), at != m
    ensures opened(s.stk, m)
{
    match e {
        SyntaxEvent::Enter(k) => { assert(step(toks, s, at, e).stk == Stk::On { below: Box::new(s.stk), kind: k, at, kids: Seq::empty() }); }
        SyntaxEvent::Advance => { lemma_opened_add(s.stk, Sym::T(tk(toks, s.pos)), m); }
        SyntaxEvent::Exit => { match s.stk { Stk::Bot(_) => {}, Stk::On { below, kind, at, kids } => { lemma_opened_add(*below, Sym::N(kind), m); } } }
    }
}
pub proof fn lemma_rel_top(st: Seq<Tree>, k: Stk, s: Seq<Token>, pos: int)
    requires rel(st, k, s, pos)
    ensures k is On ==> st.len() > 0, k is Bot ==> st.len() == 0 && pos == 0
{ reveal(rel); }
/// what holds of the run holds of every shorter run
pub proof fn lemma_prefix(toks: Seq<Token>, ev: Seq<SyntaxEvent>, k: int)
    requires 0 <= k <= ev.len(), fold(toks, ev).ok
    ensures fold(toks, ev.take(k)).ok, fold(toks, ev.take(k)).pos >= 0, fold(toks, ev.take(k)).pos <= fold(toks, ev).pos, 
        k > 0 && opened(fold(toks, ev).stk, 0) ==> opened(fold(toks, ev.take(k)).stk, 0)
    decreases ev.len()
{
    reveal(fold);
    if k < ev.len() {
        assert(ev.take(k) =~= ev.drop_last().take(k));
        lemma_prefix(toks, ev.drop_last(), k);
        if k > 0 && opened(fold(toks, ev).stk, 0) { lemma_opened_step(toks, fold(toks, ev.drop_last()), ev.len() - 1, ev.last(), 0); }
    } else {
        assert(ev.take(k) =~= ev);
        if ev.len() > 0 { assert(ev.drop_last().take(k - 1) =~= ev.drop_last()); lemma_prefix(toks, ev.drop_last(), k - 1); }
    }
}
pub proof fn lemma_rel_enter(st: Seq<Tree>, k: Stk, s: Seq<Token>, pos: int, t: Tree, at: int)
    requires rel(st, k, s, pos), t.children@.len() == 0, pos >= 0
    ensures rel(st.push(t), Stk::On { below: Box::new(k), kind: t.kind, at, kids: Seq::empty() }, s, pos)
{ reveal(rel); lemma_fresh(t, s, pos); assert(st.push(t).drop_last() =~= st); }
pub proof fn lemma_rel_push(st: Seq<Tree>, k: Stk, s: Seq<Token>, pos: int, b: Tree, c: Child)
    requires rel(st, k, s, pos), k is On, b.kind == st.last().kind, b.children@ == st.last().children@.push(c),
        match c { Child::Token(x) => 0 <= pos < s.len() && x == s[pos], Child::Tree(t) => t.children@.len() > 0 && shape(t, s, pos) }
    ensures rel(st.drop_last().push(b), add(k, csym(c)), s, pos + csize(c))
{ reveal(rel); lemma_grow(st.last(), b, c, s, pos - total(st.last())); assert(st.drop_last().push(b).drop_last() =~= st.drop_last()); }
/// facts about step `k` of a complete run
pub proof fn lemma_step(toks: Seq<Token>, ev: Seq<SyntaxEvent>, k: int)
    requires fold(toks, ev).ok, closing(toks, ev, Stk::Bot(Seq::empty()), 0, root_kind(toks, ev)), 0 <= k < ev.len() - 1
    ensures fold(toks, ev.take(k + 1)) == step(toks, fold(toks, ev.take(k)), k, ev[k]),
        fold(toks, ev.take(k)).ok, fold(toks, ev.take(k + 1)).ok, fold(toks, ev.take(k)).pos >= 0,
        fold(toks, ev.take(k + 1)).stk is On, k > 0 ==> fold(toks, ev.take(k)).stk is On,
        fold(toks, ev.take(k + 1)).pos <= fold(toks, ev).pos,
{
    reveal(closing); reveal(fold);
    let init = ev.drop_last();
    assert(ev.take(k + 1).drop_last() =~= ev.take(k));
    assert(init.take(k + 1) =~= ev.take(k + 1));
    assert(init.take(k) =~= ev.take(k));
    lemma_prefix(toks, init, k);
    lemma_prefix(toks, init, k + 1);
}
/// what the three kinds of events do to the vector of open nodes
pub proof fn lemma_arms(toks: Seq<Token>, ev: Seq<SyntaxEvent>, k: int, st: Seq<Tree>)
    requires fold(toks, ev).ok, closing(toks, ev, Stk::Bot(Seq::empty()), 0, root_kind(toks, ev)), 0 <= k < ev.len() - 1,
        rel(st, fold(toks, ev.take(k)).stk, toks, fold(toks, ev.take(k)).pos)
    ensures ({
        let (a, b) = (fold(toks, ev.take(k)), fold(toks, ev.take(k + 1)));
        &&& b.pos <= fold(toks, ev).pos && 0 <= a.pos
        &&& match ev[k] {
            SyntaxEvent::Enter(kind) => b.pos == a.pos && forall|t: Tree| t.kind == kind && t.children@.len() == 0 ==> rel(#[trigger] st.push(t), b.stk, toks, b.pos),
            SyntaxEvent::Advance => b.pos == a.pos + 1 && a.pos < toks.len() && st.len() > 0
                && forall|t: Tree| t.kind == st.last().kind && t.children@ == st.last().children@.push(Child::Token(toks[a.pos])) ==> rel(#[trigger] st.drop_last().push(t), b.stk, toks, b.pos),
            SyntaxEvent::Exit => b.pos == a.pos && st.len() > 1
                && (st.last().children@.len() == 0 ==> rel(st.drop_last(), b.stk, toks, b.pos))
                && forall|t: Tree| st.last().children@.len() > 0 && t.kind == st.drop_last().last().kind && t.children@ == st.drop_last().last().children@.push(Child::Tree(st.last()))
                    ==> rel(#[trigger] st.drop_last().drop_last().push(t), b.stk, toks, b.pos),
        }
    })
{
    reveal(rel);
    lemma_step(toks, ev, k);
    let (a, b) = (fold(toks, ev.take(k)), fold(toks, ev.take(k + 1)));
    if k == 0 { reveal(fold); assert(ev.take(0) =~= Seq::empty()); assert(a.stk is Bot); }
    match ev[k] {
        SyntaxEvent::Enter(kind) => {
            assert forall|t: Tree| t.kind == kind && t.children@.len() == 0 implies rel(#[trigger] st.push(t), b.stk, toks, b.pos) by { lemma_rel_enter(st, a.stk, toks, a.pos, t, k); }
        }
        SyntaxEvent::Advance => {
            assert(a.stk is On) by { match a.stk { Stk::Bot(_) => { assert(b.stk is Bot); } _ => {} } }
            assert forall|t: Tree| t.kind == st.last().kind && t.children@ == st.last().children@.push(Child::Token(toks[a.pos])) implies rel(#[trigger] st.drop_last().push(t), b.stk, toks, b.pos) by {
                lemma_rel_push(st, a.stk, toks, a.pos, t, Child::Token(toks[a.pos]));
            }
        }
        SyntaxEvent::Exit => {
            let t0 = st.last();
            let below = *(a.stk->below);
            lemma_close(t0, toks, a.pos - total(t0));
            assert(below is On);
            assert(t0.children@.len() == 0 ==> total(t0) == 0) by { reveal(off); }
            assert(syms(t0).len() == t0.children@.len());
            assert(rel(st.drop_last(), below, toks, a.pos - total(t0)));
            lemma_rel_top(st.drop_last(), below, toks, a.pos - total(t0));
            assert forall|t: Tree| st.last().children@.len() > 0 && t.kind == st.drop_last().last().kind && t.children@ == st.drop_last().last().children@.push(Child::Tree(st.last()))
                implies rel(#[trigger] st.drop_last().drop_last().push(t), b.stk, toks, b.pos) by {
                reveal(size); reveal(off);
                assert(csize(Child::Tree(t0)) == total(t0));
                assert(b.stk == add(below, csym(Child::Tree(t0))));
                lemma_rel_push(st.drop_last(), below, toks, a.pos - total(t0), t, Child::Tree(t0));
            }
        }
    }
}
/// the last event closes the root
pub proof fn lemma_root(toks: Seq<Token>, ev: Seq<SyntaxEvent>, st: Seq<Tree>)
    requires derives(toks, ev, root_kind(toks, ev)), rel(st, fold(toks, ev.drop_last()).stk, toks, fold(toks, ev.drop_last()).pos)
    ensures st.len() == 1, fold(toks, ev.drop_last()).pos == toks.len(), st.last().kind == root_kind(toks, ev), shape(st.last(), toks, 0), size(st.last()) == toks.len()
{
    reveal(rel); reveal(closing); reveal(fold); reveal(size); reveal(off);
    let a = fold(toks, ev.drop_last());
    let t = st.last();
    assert(fold(toks, ev) == step(toks, a, ev.len() - 1, ev.last()));
    assert(rel(st.drop_last(), Stk::Bot(Seq::empty()), toks, a.pos - total(t)));
    lemma_rel_top(st.drop_last(), Stk::Bot(Seq::empty()), toks, a.pos - total(t));
    assert(good(t, toks, 0));
    assert(fin(t.kind, run(t.kind, syms(t))));
    lemma_close(t, toks, 0);
}
