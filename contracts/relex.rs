
// ---------------------------------------------------------------- an element read in another text

/// the text, alone, is one element of class `k`
pub open spec fn lexeme(t: Seq<char>, k: ModelicaToken) -> bool { t.len() > 0 && !is_ws(t[0]) && scan(t, 0) == ok(t.len() as int, k) }
/// `c`, behind an element with the text `t`, does not continue it
pub open spec fn stops(t: Seq<char>, c: char) -> bool {
    let h = t[0];
    if h == '/' { if t.len() == 1 { c != '/' && c != '*' } else if t[1] == '/' { c == '\n' || c == '\r' } else { true } }
    else if h == ':' || h == '=' || h == '<' || h == '>' { t.len() > 1 || (c != '=' && c != '>') }
    else if h == '.' { t.len() > 1 || !(c == '+' || c == '-' || c == '*' || c == '/' || c == '^') }
    else if is_digit(h) { !is_digit(c) && c != '.' && c != 'e' && c != 'E' && c != '+' && c != '-' }
    else if is_alpha(h) || h == '_' { !is_name(c) }
    else { true }
}
/// `n` characters of `s` from `i` are those of `u` from `j`
pub open spec fn same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int) -> bool {
    0 <= i && i + n <= s.len() && 0 <= j && j + n <= u.len() && forall|p: int| i <= p < i + n ==> #[trigger] s[p] == u[p - i + j]
}
pub proof fn lemma_digits_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, digits_end(s, i) <= i + n, digits_end(s, i) < i + n || j + n >= u.len() || !is_digit(u[j + n])
    ensures digits_end(u, j) == digits_end(s, i) - i + j
    decreases n
{
    lemma_digits(s, i);
    if n > 0 { assert(s[i] == u[j]); if is_digit(s[i]) { lemma_digits_same(s, i + 1, u, j + 1, n - 1); } }
}
pub proof fn lemma_name_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, name_end(s, i) == i + n, j + n >= u.len() || !is_name(u[j + n])
    ensures name_end(u, j) == j + n
    decreases n
{
    lemma_name(s, i);
    if n > 0 { assert(s[i] == u[j]); if is_name(s[i]) { lemma_name_same(s, i + 1, u, j + 1, n - 1); } }
}
pub proof fn lemma_line_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, line_end(s, i) == i + n, j + n >= u.len() || u[j + n] == '\n' || u[j + n] == '\r'
    ensures line_end(u, j) == j + n
    decreases n
{
    lemma_line(s, i);
    if n > 0 { assert(s[i] == u[j]); lemma_line_same(s, i + 1, u, j + 1, n - 1); }
}
pub proof fn lemma_string_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, scan_string(s, i).kind is Some, scan_string(s, i).end == i + n
    ensures scan_string(u, j) == ok(j + n, ModelicaToken::String)
    decreases n
{
    lemma_string(s, i);
    if i < s.len() {
        if s[i] == '\\' { lemma_string(s, i + 2); if i + 2 <= s.len() { assert(s[i] == u[j]); lemma_string_same(s, i + 2, u, j + 2, n - 2); } }
        else if s[i] != '"' { lemma_string(s, i + 1); assert(s[i] == u[j]); lemma_string_same(s, i + 1, u, j + 1, n - 1); }
        else { assert(s[i] == u[j]); }
    }
}
pub proof fn lemma_qident_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, scan_qident(s, i).kind is Some, scan_qident(s, i).end == i + n
    ensures scan_qident(u, j) == ok(j + n, ModelicaToken::Identifier)
    decreases n
{
    lemma_qident(s, i);
    if i < s.len() {
        if s[i] == '\\' { lemma_qident(s, i + 2); if i + 2 <= s.len() { assert(s[i] == u[j]); lemma_qident_same(s, i + 2, u, j + 2, n - 2); } }
        else if s[i] != '\'' { lemma_qident(s, i + 1); assert(s[i] == u[j]); lemma_qident_same(s, i + 1, u, j + 1, n - 1); }
        else { assert(s[i] == u[j]); }
    }
}
pub proof fn lemma_block_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, scan_block(s, i).kind is Some, scan_block(s, i).end == i + n
    ensures scan_block(u, j) == ok(j + n, ModelicaToken::BlockComment)
    decreases n
{
    lemma_block(s, i);
    if i < s.len() {
        if s[i] == '*' && at(s, i + 1, '/') { assert(s[i] == u[j]); assert(s[i + 1] == u[j + 1]); }
        else {
            lemma_block(s, i + 1);
            assert(s[i] == u[j]);
            if i + 1 >= s.len() { assert(scan_block(s, i + 1).kind is None); }
            else {
                if n == 1 { lemma_block_long(s, i + 1); }
                assert(s[i + 1] == u[j + 1]);
                lemma_block_same(s, i + 1, u, j + 1, n - 1);
            }
        }
    }
}
pub proof fn lemma_block_long(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), scan_block(s, i).kind is Some
    ensures scan_block(s, i).end >= i + 2
    decreases s.len() - i
{ if i < s.len() && !(s[i] == '*' && at(s, i + 1, '/')) { lemma_block_long(s, i + 1); } }
pub proof fn lemma_exp_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 <= n, exp_end(s, i) == i + n,
        j + n >= u.len() || (!is_digit(u[j + n]) && u[j + n] != 'e' && u[j + n] != 'E' && u[j + n] != '+' && u[j + n] != '-')
    ensures exp_end(u, j) == j + n
{
    lemma_exp(s, i);
    if at(s, i, 'e') || at(s, i, 'E') {
        if i + 1 <= s.len() { lemma_digits(s, i + 1); }
        if i + 2 <= s.len() { lemma_digits(s, i + 2); }
        assert(s[i] == u[j]);
        if at(s, i + 1, '+') || at(s, i + 1, '-') {
            assert(s[i + 1] == u[j + 1]);
            lemma_digits_same(s, i + 2, u, j + 2, n - 2);
        } else {
            if n > 1 { assert(s[i + 1] == u[j + 1]); }
            lemma_digits_same(s, i + 1, u, j + 1, n - 1);
        }
    }
}
pub proof fn lemma_number_same(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires same(s, i, u, j, n), 0 < n, is_digit(s[i]), scan_number(s, i).end == i + n,
        j + n >= u.len() || (!is_digit(u[j + n]) && u[j + n] != '.' && u[j + n] != 'e' && u[j + n] != 'E' && u[j + n] != '+' && u[j + n] != '-')
    ensures scan_number(u, j) == ok(j + n, scan_number(s, i).kind->0)
{
    let d = digits_end(s, i);
    let a = d - i;
    lemma_digits(s, i);
    if at(s, d, '.') {
        let f = digits_end(s, d + 1);
        lemma_digits(s, d + 1);
        lemma_exp(s, f);
        lemma_digits_same(s, i, u, j, n);
        assert(s[d] == u[j + a]);
        lemma_digits_same(s, d + 1, u, j + a + 1, n - a - 1);
        lemma_exp_same(s, f, u, j + f - i, n - (f - i));
    } else {
        lemma_exp(s, d);
        lemma_digits_same(s, i, u, j, n);
        if a < n { assert(s[d] == u[j + a]); }
        lemma_exp_same(s, d, u, j + a, n - a);
    }
}
/// an element is the same one wherever its text stands, when it is not continued there
pub proof fn lemma_local(s: Seq<char>, i: int, u: Seq<char>, j: int, n: int)
    requires 0 <= i < s.len(), !is_ws(s[i]), scan(s, i).kind is Some, scan(s, i).end == i + n, same(s, i, u, j, n),
        j + n >= u.len() || stops(s.subrange(i, i + n), u[j + n])
    ensures 0 < n, !is_ws(u[j]), scan(u, j) == ok(j + n, scan(s, i).kind->0)
{
    lemma_scan(s, i);
    let t = s.subrange(i, i + n);
    assert(t.len() == n && t[0] == s[i]);
    if n > 1 { assert(t[1] == s[i + 1]); assert(s[i + 1] == u[j + 1]); }
    let c = s[i];
    assert(c == u[j]);
    if c == '"' { lemma_string(s, i + 1); lemma_string_same(s, i + 1, u, j + 1, n - 1); lemma_kinds_of(s, i + 1); }
    else if c == '\'' { lemma_qident(s, i + 1); lemma_qident_same(s, i + 1, u, j + 1, n - 1); lemma_kinds_of(s, i + 1); }
    else if c == '/' {
        if at(s, i + 1, '/') { lemma_line(s, i + 2); lemma_line_same(s, i + 2, u, j + 2, n - 2); }
        else if at(s, i + 1, '*') { lemma_block(s, i + 2); lemma_block_same(s, i + 2, u, j + 2, n - 2); lemma_kinds_of(s, i + 2); }
    }
    else if is_digit(c) { lemma_number_same(s, i, u, j, n); }
    else if is_alpha(c) || c == '_' { lemma_name_same(s, i, u, j, n); assert(s.subrange(i, i + n) =~= u.subrange(j, j + n)); }
}
/// the text of an element of a source, alone
pub proof fn lemma_lexeme(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), !is_ws(s[i]), scan(s, i).kind is Some
    ensures lexeme(s.subrange(i, scan(s, i).end), scan(s, i).kind->0)
{
    lemma_scan(s, i);
    let n = scan(s, i).end - i;
    let t = s.subrange(i, i + n);
    assert forall|p: int| i <= p < i + n implies #[trigger] s[p] == t[p - i + 0] by { }
    lemma_local(s, i, t, 0, n);
}
/// ... and in the middle of another text
pub proof fn lemma_placed(t: Seq<char>, k: ModelicaToken, u: Seq<char>, j: int)
    requires lexeme(t, k), 0 <= j, j + t.len() <= u.len(), u.subrange(j, j + t.len() as int) == t, j + t.len() >= u.len() || stops(t, u[j + t.len()])
    ensures !is_ws(u[j]), scan(u, j) == ok(j + t.len(), k)
{
    assert forall|p: int| 0 <= p < t.len() implies #[trigger] t[p] == u[p - 0 + j] by { assert(u.subrange(j, j + t.len() as int)[p] == u[j + p]); }
    assert(t.subrange(0, 0 + t.len() as int) =~= t);
    lemma_local(t, 0, u, j, t.len() as int);
}
/// the tokens and comments of a source are elements
#[verifier::opaque]
pub open spec fn spelled(t: Seq<Token>, c: Seq<Token>) -> bool {
    (forall|i: int| 0 <= i < t.len() ==> lexeme((#[trigger] t[i]).text@, t[i].kind)) && (forall|i: int| 0 <= i < c.len() ==> lexeme((#[trigger] c[i]).text@, c[i].kind))
}
pub proof fn lemma_spelled(s: Seq<char>, name: Seq<char>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>)
    requires holds(s, name, items(s, 0), t, c, e), kinds_hold(s, name, items(s, 0), t, c, e), positions_hold(s, name, items(s, 0), t, c, e), e.len() == 0
    ensures spelled(t, c)
{
    reveal(spelled);
    let l = items(s, 0);
    lemma_chain(s, 0);
    lemma_aligned(s, name, l, t, c, e);
    assert forall|i: int| 0 <= i < t.len() implies lexeme((#[trigger] t[i]).text@, t[i].kind) by { assert(tok_of(s, l, t[i])); assert(item_ok(s, l[t[i].idx as int])); lemma_lexeme(s, l[t[i].idx as int].start); }
    assert forall|i: int| 0 <= i < c.len() implies lexeme((#[trigger] c[i]).text@, c[i].kind) by { assert(tok_of(s, l, c[i])); assert(item_ok(s, l[c[i].idx as int])); lemma_lexeme(s, l[c[i].idx as int].start); }
}
