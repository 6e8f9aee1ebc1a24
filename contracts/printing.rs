// ---------------------------------------------------------------- printing: specification

pub open spec fn rep2(n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { rep2(n - 1) + seq![' ', ' '] }
}
/// text of one marker at indentation level `ind`
pub open spec fn sp_text(m: Marker, ind: int) -> Seq<char> {
    match m {
        Marker::Token(t) => t@,
        Marker::Space => seq![' '],
        Marker::Break => seq!['\n'] + rep2(ind),
        Marker::Blank => seq!['\n', '\n'] + rep2(ind),
        Marker::Indent | Marker::Dedent => Seq::empty(),
    }
}
pub open spec fn sp_ind(m: Marker, ind: int) -> int {
    match m { Marker::Indent => ind + 1, Marker::Dedent => ind - 1, _ => ind }
}
/// indentation level after the first `k` markers
pub open spec fn ind_after(ms: Seq<Marker>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { sp_ind(ms[k - 1], ind_after(ms, k - 1)) }
}
/// the level never drops below zero
pub open spec fn ind_ok(ms: Seq<Marker>) -> bool {
    forall|k: int| 0 <= k <= ms.len() ==> #[trigger] ind_after(ms, k) >= 0
}
/// text of the first `k` markers
pub open spec fn text_after(ms: Seq<Marker>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() } else { text_after(ms, k - 1) + sp_text(ms[k - 1], ind_after(ms, k - 1)) }
}
pub proof fn lemma_joined_push(s: Seq<String>, x: String)
    ensures joined(s.push(x), Seq::empty()) =~= joined(s, Seq::empty()) + x@
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_ind_bound(ms: Seq<Marker>, k: int)
    requires 0 <= k <= ms.len()
    ensures ind_after(ms, k) <= k
    decreases k
{ if k > 0 { lemma_ind_bound(ms, k - 1); } }
