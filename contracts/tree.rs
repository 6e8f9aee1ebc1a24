
// ---------------------------------------------------------------- trees

pub open spec fn csize(c: Child) -> nat decreases c { match c { Child::Token(_) => 1, Child::Tree(t) => size(t) } }
/// number of tokens of a tree
#[verifier::opaque]
pub open spec fn size(t: Tree) -> nat decreases t, t.children@.len() + 1 { off(t, t.children@.len() as int) }
/// number of tokens of the first `k` children
#[verifier::opaque]
pub open spec fn off(t: Tree, k: int) -> nat decreases t, k {
    if 0 < k <= t.children@.len() { off(t, k - 1) + csize(t.children@[k - 1]) } else { 0 }
}
pub open spec fn csym(c: Child) -> Sym { match c { Child::Token(x) => Sym::T(x.kind), Child::Tree(t) => Sym::N(t.kind) } }
/// the symbol of child `k`
pub open spec fn sym(t: Tree, k: int) -> Sym { csym(t.children@[k]) }
/// state of the tree automaton of the rule after the first `k` children
#[verifier::opaque]
pub open spec fn state(t: Tree, k: int) -> int decreases k {
    if 0 < k <= t.children@.len() { delta(t.kind, state(t, k - 1), sym(t, k - 1)) } else { 0 }
}
/// the children are a right-hand side of the rule
pub open spec fn rule_ok(t: Tree) -> bool {
    fin(t.kind, state(t, t.children@.len() as int)) && forall|k: int| 0 <= k <= t.children@.len() ==> #[trigger] state(t, k) >= 0
}
/// the children are no empty nodes, and so on below
#[verifier::opaque]
pub open spec fn full(t: Tree) -> bool decreases t {
    t.children@.len() > 0 && forall|k: int| 0 <= k < t.children@.len() ==> match #[trigger] t.children@[k] { Child::Token(_) => true, Child::Tree(c) => full(c) }
}
/// a derivation whose leaves are the tokens of `s` from position `p`
#[verifier::opaque]
pub open spec fn shape(t: Tree, s: Seq<Token>, p: int) -> bool decreases t {
    rule_ok(t) && forall|k: int| 0 <= k < t.children@.len() ==> match #[trigger] t.children@[k] {
        Child::Token(x) => 0 <= p + off(t, k) < s.len() && x == s[p + off(t, k)],
        Child::Tree(c) => c.children@.len() > 0 && shape(c, s, p + off(t, k)) }
}
#[verifier::opaque]
pub open spec fn first_leaf(t: Tree) -> Token decreases t {
    if t.children@.len() == 0 { arbitrary() } else { match t.children@[0] { Child::Token(x) => x, Child::Tree(c) => first_leaf(c) } }
}
#[verifier::opaque]
pub open spec fn last_leaf(t: Tree) -> Token decreases t {
    if t.children@.len() == 0 { arbitrary() } else { match t.children@[t.children@.len() - 1] { Child::Token(x) => x, Child::Tree(c) => last_leaf(c) } }
}
/// the source of the construct spans several lines
pub open spec fn multi(t: Tree) -> bool { first_leaf(t).start.line < last_leaf(t).end.line }
/// there is a node of kind `k` below
#[verifier::opaque]
pub open spec fn has_kind(t: Tree, k: SyntaxKind) -> bool decreases t {
    exists|i: int| 0 <= i < t.children@.len() && match #[trigger] t.children@[i] { Child::Token(_) => false, Child::Tree(c) => c.kind == k || has_kind(c, k) }
}

pub proof fn lemma_off_mono(t: Tree, i: int, j: int)
    requires 0 <= i <= j <= t.children@.len()
    ensures off(t, i) <= off(t, j)
    decreases j
{ reveal(off); if i < j { lemma_off_mono(t, i, j - 1); } }
/// leaves of a derivation
pub proof fn lemma_leaves(t: Tree, s: Seq<Token>, p: int)
    requires shape(t, s, p), t.children@.len() > 0, 0 <= p
    ensures full(t), size(t) > 0, p + size(t) <= s.len(), first_leaf(t) == s[p], last_leaf(t) == s[p + size(t) - 1]
    decreases t
{
    reveal(off); reveal(size); reveal(full); reveal(shape); reveal(first_leaf); reveal(last_leaf);
    let n = t.children@.len() as int;
    assert forall|k: int| 0 <= k < n implies match #[trigger] t.children@[k] { Child::Token(_) => true, Child::Tree(c) => full(c) && size(c) > 0 } by {
        match t.children@[k] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, s, p + off(t, k)); } }
    }
    match t.children@[0] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, s, p + off(t, 0)); } }
    match t.children@[n - 1] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, s, p + off(t, n - 1)); } }
    lemma_off_mono(t, 0, n - 1);
}
