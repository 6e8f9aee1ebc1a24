
// ---------------------------------------------------------------- the stages together

pub mod lexing { pub use super::lex; }
pub mod parsing { pub use super::events; }

/// `build_tree` is a function of its arguments
pub uninterp spec fn built(t: Seq<Token>, e: Seq<SyntaxEvent>) -> Tree;

/// number of elements that are errors
pub open spec fn bad_count(l: Seq<Item>) -> nat decreases l.len() {
    if l.len() == 0 { 0 } else { bad_count(l.drop_last()) + (if l.last().kind is None { 1nat } else { 0 }) }
}
/// the lexer's errors come first
pub open spec fn lex_errs(s: Seq<char>, all: Seq<String>) -> Seq<String> { all.take(bad_count(items(s, 0)) as int) }
pub open spec fn text_read(name: Seq<char>, s: Seq<char>, t: Seq<Token>, c: Seq<Token>, all: Seq<String>) -> bool {
    bad_count(items(s, 0)) <= all.len() && holds(s, name, items(s, 0), t, c, lex_errs(s, all))
}
pub open spec fn kinds_read(name: Seq<char>, s: Seq<char>, t: Seq<Token>, c: Seq<Token>, all: Seq<String>) -> bool {
    kinds_hold(s, name, items(s, 0), t, c, lex_errs(s, all))
}
/// the other errors are the parser's
pub open spec fn positions_read(name: Seq<char>, s: Seq<char>, t: Seq<Token>, c: Seq<Token>, all: Seq<String>) -> bool {
    positions_hold(s, name, items(s, 0), t, c, lex_errs(s, all)) && errs_ok(all.skip(bad_count(items(s, 0)) as int), name, t)
}
pub proof fn lemma_bad(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>)
    requires holds(s, name, l, t, c, e)
    ensures e.len() == bad_count(l)
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last();
        match l.last().kind {
            None => { lemma_bad(s, name, p, t, c, e.drop_last()); }
            Some(k) => { if is_comment(k) { lemma_bad(s, name, p, t, c.drop_last(), e); } else { lemma_bad(s, name, p, t.drop_last(), c, e); } }
        }
    }
}
/// no element is an error
pub open spec fn clean(l: Seq<Item>) -> bool { forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).kind is Some }
pub proof fn lemma_clean(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>)
    requires holds(s, name, l, t, c, e), clean(l)
    ensures e.len() == 0
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last();
        assert(l[l.len() - 1].kind is Some);
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).kind is Some by { assert(p[k] == l[k]); }
        if is_comment(l.last().kind->0) { lemma_clean(s, name, p, t, c.drop_last(), e); } else { lemma_clean(s, name, p, t.drop_last(), c, e); }
    }
}
/// the markers hold all tokens and comments, laid out by the style
pub open spec fn laid_out(m: Seq<Marker>) -> bool {
    let w = weave(m);
    w.i == source().len() && w.j == notes().len() && w.lv == 0 && w.sep is No && w.words && w.order && w.horiz && w.vert && w.level && w.join
}
pub proof fn lemma_level(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), weave(m).level
    ensures weave(m.take(k)).level
    decreases m.len() - k
{
    if k == m.len() { assert(m.take(k) =~= m); }
    else {
        lemma_level(m, k + 1);
        assert(m.take(k + 1) =~= m.take(k).push(m[k]));
        lemma_weave(m.take(k), m[k]);
    }
}
pub proof fn lemma_ind(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), weave(m).level
    ensures ind_after(m, k) == weave(m.take(k)).lv, weave(m.take(k)).lv >= 0
    decreases k
{
    if k == 0 { assert(m.take(0) =~= Seq::empty()); reveal(weave); }
    else {
        lemma_ind(m, k - 1);
        lemma_level(m, k);
        assert(m.take(k) =~= m.take(k - 1).push(m[k - 1]));
        lemma_weave(m.take(k - 1), m[k - 1]);
    }
}
/// a list without a level below zero can be printed
pub proof fn lemma_ind_ok(m: Seq<Marker>)
    requires weave(m).level
    ensures ind_ok(m)
{ assert forall|k: int| 0 <= k <= m.len() implies #[trigger] ind_after(m, k) >= 0 by { lemma_ind(m, k); } }

/// what `parse` returns without errors may be handed to `pretty_print`
pub proof fn theorem_parse_print(name: Seq<char>, text: Seq<char>, p: ParsedModelica)
    requires
        p.errors@.len() == 0,
        text_read(name, text, p.tokens@, p.comments@, p.errors@),
        kinds_read(name, text, p.tokens@, p.comments@, p.errors@),
        positions_read(name, text, p.tokens@, p.comments@, p.errors@),
        lexed(p.tokens@, p.comments@),
    ensures read_ok(p.tokens@, p.comments@), spelled(p.tokens@, p.comments@)
{
    assert(lex_errs(text, p.errors@) =~= p.errors@);
    lemma_read(text, name, p.tokens@, p.comments@, p.errors@);
    lemma_spelled(text, name, p.tokens@, p.comments@, p.errors@);
}
