
// ---------------------------------------------------------------- the output is read as the same tokens

/// what the class of an element says about its first character
pub proof fn lemma_head(t: Seq<char>, k: ModelicaToken)
    requires lexeme(t, k)
    ensures
        k == ModelicaToken::LParen ==> t[0] == '(', k == ModelicaToken::RParen ==> t[0] == ')', k == ModelicaToken::LBracket ==> t[0] == '[', k == ModelicaToken::RBracket ==> t[0] == ']',
        k == ModelicaToken::LCurly ==> t[0] == '{', k == ModelicaToken::RCurly ==> t[0] == '}', k == ModelicaToken::Comma ==> t[0] == ',', k == ModelicaToken::Semicolon ==> t[0] == ';',
        k == ModelicaToken::Plus ==> t[0] == '+', k == ModelicaToken::Minus ==> t[0] == '-', k == ModelicaToken::Colon ==> t[0] == ':' && t.len() == 1, k == ModelicaToken::Dot ==> t[0] == '.' && t.len() == 1,
        k == ModelicaToken::Assign ==> t[0] == ':', k == ModelicaToken::Equal ==> t[0] == '=',
        k == ModelicaToken::DotPlus || k == ModelicaToken::DotMinus || k == ModelicaToken::DotStar || k == ModelicaToken::DotSlash || k == ModelicaToken::DotFlex ==> t[0] == '.' && t.len() == 2,
        k == ModelicaToken::String ==> t[0] == '"', k == ModelicaToken::UInt || k == ModelicaToken::UReal ==> is_digit(t[0]),
        k == ModelicaToken::Identifier ==> t[0] == '\'' || is_alpha(t[0]) || t[0] == '_',
        is_wordy(k) ==> is_alpha(t[0]) || t[0] == '_',
        k == ModelicaToken::LineComment ==> t[0] == '/' && t.len() >= 2 && t[1] == '/', k == ModelicaToken::BlockComment ==> t[0] == '/' && t.len() >= 2 && t[1] == '*',
{ lemma_kinds_of(t, 1); lemma_kinds_of(t, 2); if at(t, 1, '/') { lemma_line(t, 2); } if at(t, 1, '*') { lemma_block(t, 2); } }
/// keywords
pub open spec fn is_wordy(k: ModelicaToken) -> bool {
    !(is_comment(k) || k == ModelicaToken::EOF || k == ModelicaToken::Identifier || k == ModelicaToken::String || k == ModelicaToken::UInt || k == ModelicaToken::UReal
    || is_mark(k))
}
pub open spec fn is_mark(k: ModelicaToken) -> bool {
    match k {
        ModelicaToken::LParen | ModelicaToken::RParen | ModelicaToken::LBracket | ModelicaToken::RBracket | ModelicaToken::LCurly | ModelicaToken::RCurly | ModelicaToken::Comma | ModelicaToken::Semicolon
        | ModelicaToken::Plus | ModelicaToken::Minus | ModelicaToken::Star | ModelicaToken::Slash | ModelicaToken::Flex | ModelicaToken::Colon | ModelicaToken::Dot | ModelicaToken::Assign | ModelicaToken::Equal
        | ModelicaToken::DotPlus | ModelicaToken::DotMinus | ModelicaToken::DotStar | ModelicaToken::DotSlash | ModelicaToken::DotFlex
        | ModelicaToken::Eq | ModelicaToken::Neq | ModelicaToken::Les | ModelicaToken::Leq | ModelicaToken::Gre | ModelicaToken::Geq => true,
        _ => false,
    }
}
pub proof fn lemma_stops(t: Seq<char>, a: ModelicaToken, u: Seq<char>, b: ModelicaToken)
    requires lexeme(t, a), lexeme(u, b), may_touch(a, b), a != ModelicaToken::EOF, !is_comment(a)
    ensures stops(t, u[0])
{ lemma_head(t, a); lemma_head(u, b); }
/// so does whitespace, but for line comments
pub proof fn lemma_stops_ws(t: Seq<char>, k: ModelicaToken, c: char)
    requires lexeme(t, k), c == ' ' || c == '\n', k == ModelicaToken::LineComment ==> c == '\n'
    ensures stops(t, c)
{
    lemma_head(t, k);
    if t[0] == '/' && t.len() >= 2 && t[1] == '/' { assert(k == ModelicaToken::LineComment); }
}

pub open spec fn pos(m: Seq<Marker>, k: int) -> int { text_after(m, k).len() as int }
pub open spec fn ok_all(w: W) -> bool { w.words && w.order && w.horiz && w.vert && w.level && w.join }
pub proof fn lemma_step_at(m: Seq<Marker>, k: int)
    requires 0 <= k < m.len()
    ensures weave(m.take(k + 1)) == p_format::step(weave(m.take(k)), m[k])
{ assert(m.take(k + 1) =~= m.take(k).push(m[k])); lemma_weave(m.take(k), m[k]); }
pub proof fn lemma_flags(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), ok_all(weave(m))
    ensures ok_all(weave(m.take(k)))
    decreases m.len() - k
{ if k == m.len() { assert(m.take(k) =~= m); } else { lemma_flags(m, k + 1); lemma_step_at(m, k); } }
pub proof fn lemma_at_most(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), weave(m).words
    ensures 0 <= weave(m.take(k)).i, weave(m.take(k)).any ==> weave(m.take(k)).j > 0, 0 <= weave(m.take(k)).j
    decreases k
{
    if k == 0 { assert(m.take(0) =~= Seq::empty()); reveal(weave); }
    else { lemma_at_most(m, k - 1); lemma_step_at(m, k - 1); let w = weave(m.take(k - 1)); if w.i < source().len() { lemma_skip_mono(w.j, source()[w.i].idx as int); } else { lemma_skip_mono(w.j, source()[w.i].idx as int); } }
}
pub proof fn lemma_skip_mono(j: int, x: int)
    ensures skip(j, x) >= j
    decreases notes().len() - j
{ if 0 <= j < notes().len() && notes()[j].idx < x { lemma_skip_mono(j + 1, x); } }
/// the text grows marker by marker
pub proof fn lemma_grows(m: Seq<Marker>, k: int, n: int)
    requires 0 <= k <= n
    ensures pos(m, k) <= pos(m, n), text_after(m, n).subrange(0, pos(m, k)) == text_after(m, k)
    decreases n - k
{
    if k < n {
        lemma_grows(m, k, n - 1);
        assert(text_after(m, n).subrange(0, pos(m, k)) =~= text_after(m, n - 1).subrange(0, pos(m, k)));
    } else { assert(text_after(m, n).subrange(0, pos(m, k)) =~= text_after(m, k)); }
}
/// the part of the text that marker `k` writes
pub proof fn lemma_part(m: Seq<Marker>, k: int)
    requires 0 <= k < m.len()
    ensures ({ let s = text_after(m, m.len() as int); let a = pos(m, k); let b = pos(m, k + 1);
        0 <= a <= b <= s.len() && s.subrange(a, b) == sp_text(m[k], ind_after(m, k)) && b == a + sp_text(m[k], ind_after(m, k)).len() })
{
    let s = text_after(m, m.len() as int);
    lemma_grows(m, k, k + 1);
    lemma_grows(m, k + 1, m.len() as int);
    let x = sp_text(m[k], ind_after(m, k));
    let a = pos(m, k); let b = pos(m, k + 1);
    assert(text_after(m, k + 1) == text_after(m, k) + x);
    assert forall|q: int| 0 <= q < x.len() implies s.subrange(a, b)[q] == x[q] by { assert(s.subrange(0, b)[a + q] == s[a + q]); }
    assert(s.subrange(a, b) =~= x);
}
pub proof fn lemma_rep2(n: int)
    ensures forall|q: int| 0 <= q < rep2(n).len() ==> #[trigger] rep2(n)[q] == ' '
    decreases n
{ if n > 0 { lemma_rep2(n - 1); assert forall|q: int| 0 <= q < rep2(n).len() implies #[trigger] rep2(n)[q] == ' ' by { let r = rep2(n - 1); if q < r.len() { assert(rep2(n)[q] == r[q]); } } } }
/// only tokens write anything but whitespace
pub proof fn lemma_white(m: Seq<Marker>, k: int)
    requires 0 <= k < m.len(), !(m[k] is Token)
    ensures forall|q: int| pos(m, k) <= q < pos(m, k + 1) ==> is_ws(#[trigger] text_after(m, m.len() as int)[q])
{
    lemma_part(m, k);
    lemma_rep2(ind_after(m, k));
    let s = text_after(m, m.len() as int); let a = pos(m, k); let b = pos(m, k + 1);
    let x = sp_text(m[k], ind_after(m, k));
    assert forall|q: int| a <= q < b implies is_ws(#[trigger] s[q]) by {
        assert(s.subrange(a, b)[q - a] == s[q]);
        let r = rep2(ind_after(m, k));
        match m[k] {
            Marker::Break => { if q - a >= 1 { assert(x[q - a] == r[q - a - 1]); } }
            Marker::Blank => { if q - a >= 2 { assert(x[q - a] == r[q - a - 2]); } }
            _ => {}
        }
    }
}
pub proof fn lemma_white_run(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|q: int| a <= q < b ==> is_ws(#[trigger] s[q])
    ensures items(s, a) == items(s, b), ws_end(s, a) == ws_end(s, b)
    decreases b - a
{
    if a < b {
        lemma_white_run(s, a + 1, b);
        assert(is_ws(s[a]));
    }
    lemma_ws_end(s, a); lemma_items_step(s, a); lemma_items_step(s, b);
    assert(items(s, a) =~= items(s, b));
}
/// a line comment is never left on a line that goes on
pub proof fn lemma_stuck(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), ok_all(weave(m)), weave(m).sep is No, weave(m.take(k)).lc
    ensures !(weave(m.take(k)).sep is Space), !(weave(m.take(k)).sep is Bad)
    decreases m.len() - k
{
    if k == m.len() { assert(m.take(k) =~= m); }
    else {
        lemma_step_at(m, k);
        lemma_flags(m, k + 1);
        let w = weave(m.take(k));
        if w.sep is Space || w.sep is Bad {
            match m[k] {
                Marker::Token(_) => { assert(!join_ok(w)); }
                _ => { lemma_stuck(m, k + 1); }
            }
        }
    }
}
/// what follows a word that ends before marker `k`
pub open spec fn follows(w: W, c: char) -> bool {
    (c == ' ' || c == '\n' || (!w.any && 0 < w.i < source().len() && wanted(w.i).gap is No && source()[w.i].text@.len() > 0 && c == source()[w.i].text@[0])) && (w.lc ==> c == '\n')
}
pub proof fn lemma_follows(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), ok_all(weave(m)), weave(m).sep is No, spelled(source(), notes()),
        weave(m.take(k)).sep is No, weave(m.take(k)).i > 0 || weave(m.take(k)).any
    ensures pos(m, k) < pos(m, m.len() as int) ==> follows(weave(m.take(k)), text_after(m, m.len() as int)[pos(m, k)])
    decreases m.len() - k
{
    if k < m.len() {
        let w = weave(m.take(k));
        let s = text_after(m, m.len() as int);
        lemma_step_at(m, k);
        lemma_flags(m, k + 1);
        lemma_part(m, k);
        let a = pos(m, k); let b = pos(m, k + 1);
        let x = sp_text(m[k], ind_after(m, k));
        if x.len() > 0 { assert(s.subrange(a, b)[0] == s[a]); }
        match m[k] {
            Marker::Indent => { lemma_follows(m, k + 1); }
            Marker::Dedent => { lemma_follows(m, k + 1); }
            Marker::Space => { if w.lc { lemma_stuck(m, k + 1); } }
            Marker::Break => { }
            Marker::Blank => { }
            Marker::Token(t) => {
                assert(join_ok(w));
                if !note_text(t@) {
                    reveal(spelled);
                    lemma_at_most(m, k);
                    assert(lexeme(source()[w.i].text@, source()[w.i].kind));
                    assert(horiz_ok(w) && vert_ok(w));
                }
            }
        }
    }
}

/// the tokens among elements, and the comments
pub open spec fn toks(s: Seq<char>, l: Seq<Item>) -> Seq<(ModelicaToken, Seq<char>)> decreases l.len() {
    if l.len() == 0 { Seq::empty() }
    else {
        let r = toks(s, l.skip(1));
        if l[0].kind is Some && !is_comment(l[0].kind->0) { seq![(l[0].kind->0, s.subrange(l[0].start, l[0].end))] + r } else { r }
    }
}
pub open spec fn comms(s: Seq<char>, l: Seq<Item>) -> Seq<(ModelicaToken, Seq<char>)> decreases l.len() {
    if l.len() == 0 { Seq::empty() }
    else {
        let r = comms(s, l.skip(1));
        if l[0].kind is Some && is_comment(l[0].kind->0) { seq![(l[0].kind->0, s.subrange(l[0].start, l[0].end))] + r } else { r }
    }
}
/// the tokens of the source from `i` on
pub open spec fn tokens_from(i: int) -> Seq<(ModelicaToken, Seq<char>)> { Seq::new((source().len() - i) as nat, |x: int| (source()[i + x].kind, source()[i + x].text@)) }
/// the comments that the markers from `k` on write
pub open spec fn notes_from(m: Seq<Marker>, k: int) -> Seq<(ModelicaToken, Seq<char>)> decreases m.len() - k {
    if k < 0 || k >= m.len() { Seq::empty() }
    else if m[k] is Token && note_text(m[k]->Token_0@) { let n = notes()[weave(m.take(k)).j]; seq![(n.kind, n.text@)] + notes_from(m, k + 1) }
    else { notes_from(m, k + 1) }
}
/// reading `s`, written for the markers `m`, gives the tokens of the source again, and the comments that were written, and no error
pub open spec fn rereads(s: Seq<char>, m: Seq<Marker>) -> bool {
    clean(items(s, 0)) && toks(s, items(s, 0)) == tokens_from(0) && comms(s, items(s, 0)) == notes_from(m, 0)
}
pub open spec fn rereads_from(s: Seq<char>, m: Seq<Marker>, k: int) -> bool {
    clean(items(s, pos(m, k))) && toks(s, items(s, pos(m, k))) == tokens_from(weave(m.take(k)).i) && comms(s, items(s, pos(m, k))) == notes_from(m, k)
}
pub proof fn lemma_reread(m: Seq<Marker>, k: int)
    requires 0 <= k <= m.len(), laid_out(m), weave(m).sep is No, spelled(source(), notes()), read_ok(source(), notes()),
        forall|x: int| 0 < x < source().len() && wanted(x).gap is No ==> may_touch(#[trigger] source()[x - 1].kind, source()[x].kind)
    ensures rereads_from(text_after(m, m.len() as int), m, k)
    decreases m.len() - k
{
    let n = m.len() as int;
    let s = text_after(m, n);
    let a = pos(m, k);
    if k == n {
        assert(m.take(k) =~= m);
        lemma_items_step(s, a);
        lemma_ws_end(s, a);
        assert(items(s, a) =~= Seq::empty());
        assert(toks(s, items(s, a)) =~= tokens_from(weave(m.take(k)).i));
        assert(comms(s, items(s, a)) =~= notes_from(m, k));
    } else {
        lemma_reread(m, k + 1);
        lemma_step_at(m, k);
        lemma_flags(m, k + 1);
        lemma_flags(m, k);
        lemma_part(m, k);
        let w = weave(m.take(k));
        let b = pos(m, k + 1);
        match m[k] {
            Marker::Token(t) => {
                lemma_at_most(m, k);
                reveal(spelled); reveal(read_ok);
                let note = note_text(t@);
                let x = if note { notes()[w.j] } else { source()[w.i] };
                assert(lexeme(x.text@, x.kind));
                assert(t@ == x.text@);
                let v = weave(m.take(k + 1));
                if b < s.len() {
                    lemma_follows(m, k + 1);
                    let c = s[b];
                    if c == ' ' || c == '\n' { lemma_stops_ws(x.text@, x.kind, c); }
                    else {
                        assert(!note);
                        assert(v.i - 1 == w.i);
                        assert(may_touch(source()[v.i - 1].kind, source()[v.i].kind));
                        lemma_stops(x.text@, x.kind, source()[v.i].text@, source()[v.i].kind);
                    }
                }
                lemma_placed(x.text@, x.kind, s, a);
                lemma_items_step(s, a);
                let l = items(s, a);
                assert(l[0] == Item { start: a, end: b, kind: Some(x.kind) });
                assert(l.skip(1) =~= items(s, b));
                assert forall|q: int| 0 <= q < l.len() implies (#[trigger] l[q]).kind is Some by { if q > 0 { assert(l[q] == items(s, b)[q - 1]); } }
                if note {
                    assert(is_comment(x.kind));
                    assert(toks(s, l) =~= tokens_from(w.i));
                    assert(comms(s, l) =~= notes_from(m, k));
                } else {
                    assert(!is_comment(x.kind));
                    assert(toks(s, l) =~= tokens_from(w.i));
                    assert(comms(s, l) =~= notes_from(m, k));
                }
            }
            _ => {
                lemma_white(m, k);
                lemma_white_run(s, a, b);
            }
        }
    }
}
/// the output of the formatter is read as the tokens and comments it was made of
pub proof fn theorem_reread(m: Seq<Marker>)
    requires laid_out(m), weave(m).sep is No, spelled(source(), notes()), read_ok(source(), notes()),
        shape(the_tree(), source(), 0), size(the_tree()) == source().len()
    ensures rereads(text_after(m, m.len() as int), m)
{
    assert forall|x: int| 0 < x < source().len() && wanted(x).gap is No implies may_touch(#[trigger] source()[x - 1].kind, source()[x].kind) by {
        reveal(want);
        lemma_touch(the_tree(), 0, 0, false, x);
    }
    lemma_reread(m, 0);
    assert(m.take(0) =~= Seq::empty());
    reveal(weave);
}
