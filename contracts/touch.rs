
// ---------------------------------------------------------------- neighbours without a gap

/// `b` may stand directly behind `a`
pub open spec fn may_touch(a: ModelicaToken, b: ModelicaToken) -> bool {
    match a {
        ModelicaToken::LParen | ModelicaToken::LCurly | ModelicaToken::LBracket | ModelicaToken::RParen | ModelicaToken::RCurly | ModelicaToken::RBracket
        | ModelicaToken::Comma | ModelicaToken::Semicolon | ModelicaToken::String | ModelicaToken::Plus | ModelicaToken::Minus | ModelicaToken::DotPlus | ModelicaToken::DotMinus | ModelicaToken::DotStar => true,
        ModelicaToken::Colon => closing_mark(b),
        ModelicaToken::Dot => b == ModelicaToken::Identifier || b == ModelicaToken::LCurly,
        ModelicaToken::Identifier => closing_mark(b) || opening_mark(b) || b == ModelicaToken::Assign || b == ModelicaToken::Equal || b == ModelicaToken::Dot || b == ModelicaToken::DotStar,
        ModelicaToken::UInt | ModelicaToken::UReal => closing_mark(b),
        _ => closing_mark(b) || opening_mark(b),
    }
}
pub open spec fn closing_mark(b: ModelicaToken) -> bool { b == ModelicaToken::Comma || b == ModelicaToken::RBracket || b == ModelicaToken::RCurly || b == ModelicaToken::RParen || b == ModelicaToken::Semicolon }
pub open spec fn opening_mark(b: ModelicaToken) -> bool { b == ModelicaToken::LParen || b == ModelicaToken::LBracket }

pub proof fn lemma_ends(t: Tree, s: Seq<Token>, p: int)
    requires shape(t, s, p), t.children@.len() > 0
    ensures finishes(t.kind, last_leaf(t).kind), begins(t.kind, first_leaf(t).kind)
    decreases t
{
    reveal(shape); reveal(state); reveal(last_leaf); reveal(first_leaf);
    let n = t.children@.len() as int;
    match t.children@[n - 1] { Child::Token(_) => {}, Child::Tree(c) => { lemma_ends(c, s, p + off(t, n - 1)); } }
    match t.children@[0] { Child::Token(_) => {}, Child::Tree(c) => { lemma_ends(c, s, p + off(t, 0)); } }
    assert(state(t, n) == delta(t.kind, state(t, n - 1), sym(t, n - 1)));
    assert(state(t, 1) == delta(t.kind, state(t, 0), sym(t, 0)));
    assert(state(t, 1) >= 0);
    lemma_finish(t.kind, state(t, n - 1), sym(t, n - 1), last_leaf(t).kind);
    lemma_begin(t.kind, state(t, 1), sym(t, 0), first_leaf(t).kind);
}
/// the tokens around the beginning of child `k`
pub proof fn lemma_neighbours(t: Tree, p: int, k: int)
    requires shape(t, source(), p), 0 <= p, 0 < k < t.children@.len()
    ensures ({ let x = p + off(t, k); 0 < x < source().len() && sym_finishes(sym(t, k - 1), source()[x - 1].kind) && sym_begins(sym(t, k), source()[x].kind) })
{
    lemma_off_step(t, source(), p, k - 1);
    lemma_off_step(t, source(), p, k);
    reveal(shape); reveal(off); reveal(size);
    lemma_off_mono(t, 0, k - 1);
    match t.children@[k - 1] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, source(), p + off(t, k - 1)); lemma_ends(c, source(), p + off(t, k - 1)); assert(csize(t.children@[k - 1]) == size(c)); } }
    match t.children@[k] { Child::Token(_) => {}, Child::Tree(c) => { lemma_off_mono(t, 0, k); lemma_leaves(c, source(), p + off(t, k)); lemma_ends(c, source(), p + off(t, k)); } }
}
/// tokens between which the style leaves no gap do not join
pub proof fn lemma_touch(t: Tree, p: int, L: int, m: bool, x: int)
    requires shape(t, source(), p), 0 <= p < x < p + size(t), want_in(t, p, L, m, x).gap is No
    ensures may_touch(source()[x - 1].kind, source()[x].kind)
    decreases t
{
    let n = t.children@.len() as int;
    assert(size(t) == off(t, n)) by { reveal(size); reveal(off); }
    lemma_kid_at(t, p, x, n);
    let k = kid_of(t, p, x);
    assert(holds_at(t, p, x, k));
    reveal(want_in);
    if x == p + off(t, k) && k > 0 {
        lemma_neighbours(t, p, k);
        reveal(shape); reveal(state);
        assert(state(t, k) >= 0 && state(t, k + 1) >= 0 && state(t, k - 1) >= 0);
        lemma_touch_rule(t, k, p, m, state(t, k - 1), source()[x - 1].kind, source()[x].kind);
    } else {
        lemma_off_step(t, source(), p, k);
        match t.children@[k] {
            Child::Token(_) => { assert(off(t, k + 1) == off(t, k) + 1); assert(k == 0); assert(off(t, 0) == 0) by { reveal(off); } assert(false); }
            Child::Tree(c) => {
                reveal(shape); reveal(size); reveal(off);
                lemma_off_mono(t, 0, k);
                assert(off(t, 0) == 0) by { reveal(off); }
                assert(csize(t.children@[k]) == size(c));
                lemma_touch(c, p + off(t, k), kid_lv(t, k, L), kid_m(t, k, m), x);
            }
        }
    }
}
/// every token stands in a child
pub proof fn lemma_kid_at(t: Tree, p: int, x: int, n: int)
    requires p <= x < p + off(t, n), 0 <= n <= t.children@.len()
    ensures holds_at(t, p, x, kid_of(t, p, x))
    decreases n
{
    reveal(off);
    if n > 0 {
        if x < p + off(t, n - 1) { lemma_kid_at(t, p, x, n - 1); }
        else { assert(holds_at(t, p, x, n - 1)); }
    }
}
