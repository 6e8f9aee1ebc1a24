
// ---------------------------------------------------------------- what is read is what `format` asks for

pub open spec fn item_ok(s: Seq<char>, x: Item) -> bool {
    0 <= x.start < x.end <= s.len() && !is_ws(s[x.start]) && x.kind == scan(s, x.start).kind && x.end == scan(s, x.start).end
}
pub open spec fn apart(s: Seq<char>, a: Item, b: Item) -> bool {
    a.end <= b.start && (a.kind == Some(ModelicaToken::LineComment) ==> line_at(s, a.end) < line_at(s, b.start))
}
pub open spec fn chain(s: Seq<char>, l: Seq<Item>) -> bool {
    (forall|k: int| 0 <= k < l.len() ==> item_ok(s, #[trigger] l[k]))
    && (forall|a: int, b: int| 0 <= a < b < l.len() ==> apart(s, #[trigger] l[a], #[trigger] l[b]))
}
pub proof fn lemma_line_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures line_at(s, i) <= line_at(s, j)
    decreases j
{ if i < j { lemma_line_mono(s, i, j - 1); } }
pub proof fn lemma_line_stop(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= line_end(s, i) <= s.len(), line_end(s, i) < s.len() ==> s[line_end(s, i)] == '\n' || s[line_end(s, i)] == '\r'
    decreases s.len() - i
{ if i < s.len() && s[i] != '\n' && s[i] != '\r' { lemma_line_stop(s, i + 1); } }
pub proof fn lemma_kinds_of(s: Seq<char>, i: int)
    requires 0 <= i
    ensures scan_string(s, i).kind is None || scan_string(s, i).kind == Some(ModelicaToken::String),
        scan_qident(s, i).kind is None || scan_qident(s, i).kind == Some(ModelicaToken::Identifier),
        scan_block(s, i).kind is None || scan_block(s, i).kind == Some(ModelicaToken::BlockComment),
    decreases s.len() + 3 - i
{ if i < s.len() { lemma_kinds_of(s, i + 1); lemma_kinds_of(s, i + 2); } }
pub proof fn lemma_note_scan(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), !is_ws(s[i])
    ensures
        scan(s, i).kind == Some(ModelicaToken::LineComment) ==> at(s, i + 1, '/') && scan(s, i).end == line_end(s, i + 2),
        scan(s, i).kind is Some ==> (is_comment(scan(s, i).kind->0) <==> note_text(s.subrange(i, scan(s, i).end))),
{
    lemma_scan(s, i);
    lemma_kinds_of(s, i + 1); lemma_kinds_of(s, i + 2);
    let t = s.subrange(i, scan(s, i).end);
    assert(t.len() == scan(s, i).end - i);
    assert(t[0] == s[i]);
    if t.len() > 1 { assert(t[1] == s[i + 1]); }
    if at(s, i + 1, '/') { lemma_line_stop(s, i + 2); }
    if at(s, i + 1, '*') { lemma_block(s, i + 2); }
}
/// what follows an element that ends at `e`
pub proof fn lemma_after(s: Seq<char>, j: int)
    requires 0 <= j < s.len(), !is_ws(s[j])
    ensures scan(s, j).end <= ws_end(s, scan(s, j).end) <= s.len(),
        scan(s, j).kind == Some(ModelicaToken::LineComment) && ws_end(s, scan(s, j).end) < s.len() ==> line_at(s, scan(s, j).end) < line_at(s, ws_end(s, scan(s, j).end))
{
    lemma_scan(s, j);
    lemma_note_scan(s, j);
    let e = scan(s, j).end;
    lemma_ws_end(s, e);
    if scan(s, j).kind == Some(ModelicaToken::LineComment) && ws_end(s, e) < s.len() {
        lemma_line_stop(s, j + 2);
        assert(is_ws(s[e]));
        assert(ws_end(s, e) == ws_end(s, e + 1));
        lemma_ws_end(s, e + 1);
        if s[e] == '\r' && at(s, e + 1, '\n') {
            assert(ws_end(s, e + 1) == ws_end(s, e + 2));
            lemma_ws_end(s, e + 2);
            assert(ends_line(s, e + 1));
            assert(line_at(s, e + 2) == line_at(s, e + 1) + 1);
            lemma_line_mono(s, e, e + 1);
            lemma_line_mono(s, e + 2, ws_end(s, e));
        } else {
            assert(ends_line(s, e));
            assert(line_at(s, e + 1) == line_at(s, e) + 1);
            lemma_line_mono(s, e + 1, ws_end(s, e));
        }
    }
}
pub proof fn lemma_chain(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures chain(s, items(s, i)), forall|k: int| 0 <= k < items(s, i).len() ==> (#[trigger] items(s, i)[k]).start >= ws_end(s, i)
    decreases s.len() - i
{
    let j = ws_end(s, i);
    lemma_ws_end(s, i);
    lemma_items_step(s, i);
    if j < s.len() {
        lemma_scan(s, j);
        lemma_after(s, j);
        let e = scan(s, j).end;
        lemma_chain(s, e);
        let r = items(s, e);
        let l = items(s, i);
        assert(l[0] == Item { start: j, end: e, kind: scan(s, j).kind });
        assert forall|k: int| 1 <= k < l.len() implies #[trigger] l[k] == r[k - 1] by { }
        assert forall|k: int| 0 <= k < l.len() implies item_ok(s, #[trigger] l[k]) && l[k].start >= j by { if k > 0 { assert(l[k] == r[k - 1]); } }
        assert forall|a: int, b: int| 0 <= a < b < l.len() implies apart(s, #[trigger] l[a], #[trigger] l[b]) by {
            assert(l[b] == r[b - 1]);
            if a > 0 { assert(l[a] == r[a - 1]); assert(apart(s, r[a - 1], r[b - 1])); }
            else { assert(r[b - 1].start >= ws_end(s, e)); if ws_end(s, e) < s.len() { lemma_line_mono(s, ws_end(s, e), r[b - 1].start); } }
        }
    }
}
pub open spec fn tok_of(s: Seq<char>, l: Seq<Item>, t: Token) -> bool {
    0 <= t.idx < l.len() && t.text@ == s.subrange(l[t.idx as int].start, l[t.idx as int].end) && Some(t.kind) == l[t.idx as int].kind && tok_pos(t, s, l[t.idx as int])
}
pub open spec fn aligned(s: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>) -> bool {
    l.len() == t.len() + c.len()
    && (forall|i: int| 0 <= i < t.len() ==> tok_of(s, l, #[trigger] t[i]) && !is_comment(t[i].kind))
    && (forall|i: int| 0 <= i < c.len() ==> tok_of(s, l, #[trigger] c[i]) && is_comment(c[i].kind))
    && (l.len() > 0 ==> (t.len() > 0 && t[0].idx == 0) || (c.len() > 0 && c[0].idx == 0))
}
pub proof fn lemma_aligned(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>)
    requires holds(s, name, l, t, c, e), kinds_hold(s, name, l, t, c, e), positions_hold(s, name, l, t, c, e), e.len() == 0
    ensures aligned(s, l, t, c)
    decreases l.len()
{
    if l.len() > 0 {
        let x = l.last();
        let p = l.drop_last();
        let k = x.kind->0;
        if is_comment(k) {
            let d = c.drop_last();
            lemma_aligned(s, name, p, t, d, e);
            assert forall|i: int| 0 <= i < t.len() implies tok_of(s, l, #[trigger] t[i]) && !is_comment(t[i].kind) by { assert(tok_of(s, p, t[i])); }
            assert forall|i: int| 0 <= i < c.len() implies tok_of(s, l, #[trigger] c[i]) && is_comment(c[i].kind) by { if i < d.len() { assert(d[i] == c[i]); assert(tok_of(s, p, d[i])); } }
            if p.len() > 0 && d.len() > 0 { assert(d[0] == c[0]); }
        } else {
            let d = t.drop_last();
            lemma_aligned(s, name, p, d, c, e);
            assert forall|i: int| 0 <= i < c.len() implies tok_of(s, l, #[trigger] c[i]) && is_comment(c[i].kind) by { assert(tok_of(s, p, c[i])); }
            assert forall|i: int| 0 <= i < t.len() implies tok_of(s, l, #[trigger] t[i]) && !is_comment(t[i].kind) by { if i < d.len() { assert(d[i] == t[i]); assert(tok_of(s, p, d[i])); } }
            if p.len() > 0 && d.len() > 0 { assert(d[0] == t[0]); }
        }
    }
}
pub proof fn lemma_tok_of(s: Seq<char>, l: Seq<Item>, t: Token)
    requires chain(s, l), tok_of(s, l, t)
    ensures is_comment(t.kind) <==> note_text(t.text@), 1 <= t.start.line <= t.end.line
{
    let x = l[t.idx as int];
    assert(item_ok(s, x));
    lemma_note_scan(s, x.start);
    lemma_pos_bound(s, x.start);
    lemma_line_mono(s, x.start, x.end);
}
pub proof fn lemma_tok_order(s: Seq<char>, l: Seq<Item>, a: Token, b: Token)
    requires chain(s, l), tok_of(s, l, a), tok_of(s, l, b), a.idx < b.idx
    ensures before(a, b)
{
    let (x, y) = (l[a.idx as int], l[b.idx as int]);
    assert(apart(s, x, y));
    assert(item_ok(s, x));
    lemma_line_mono(s, x.end, y.start);
}
/// the lexer's results are what the formatter requires of its input
pub proof fn lemma_read(s: Seq<char>, name: Seq<char>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>)
    requires holds(s, name, items(s, 0), t, c, e), kinds_hold(s, name, items(s, 0), t, c, e), positions_hold(s, name, items(s, 0), t, c, e), lexed(t, c), e.len() == 0
    ensures read_ok(t, c)
{
    reveal(read_ok);
    let l = items(s, 0);
    lemma_chain(s, 0);
    lemma_aligned(s, name, l, t, c, e);
    assert forall|i: int| 0 <= i < t.len() implies !note_text((#[trigger] t[i]).text@) && 1 <= t[i].start.line <= t[i].end.line by { lemma_tok_of(s, l, t[i]); }
    assert forall|i: int| 0 <= i < c.len() implies note_text((#[trigger] c[i]).text@) && 1 <= c[i].start.line <= c[i].end.line by { lemma_tok_of(s, l, c[i]); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies before(#[trigger] t[i], #[trigger] t[j]) by { lemma_tok_order(s, l, t[i], t[j]); }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies before(#[trigger] c[i], #[trigger] c[j]) by { lemma_tok_order(s, l, c[i], c[j]); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < c.len() implies if (#[trigger] t[i]).idx < (#[trigger] c[j]).idx { before(t[i], c[j]) } else { before(c[j], t[i]) } by {
        if t[i].idx < c[j].idx { lemma_tok_order(s, l, t[i], c[j]); } else { lemma_tok_order(s, l, c[j], t[i]); }
    }
}
