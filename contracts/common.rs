
/// the form of an error message
pub open spec fn err_text(name: Seq<char>, line: nat, col: nat, msg: Seq<char>) -> Seq<char> {
    name + seq![':'] + dec(line) + seq![':'] + dec(col) + seq![':', ' '] + msg
}
pub open spec fn is_err(e: Seq<char>, name: Seq<char>, line: int, col: int) -> bool {
    exists|m: Seq<char>| err_with(e, name, line, col, m)
}
pub open spec fn err_with(e: Seq<char>, name: Seq<char>, line: int, col: int, m: Seq<char>) -> bool {
    e == err_text(name, line as nat, col as nat, m)
}
pub proof fn lemma_is_err(name: Seq<char>, l: nat, c: nat, m: Seq<char>)
    ensures is_err(err_text(name, l, c, m), name, l as int, c as int)
{ assert(err_with(err_text(name, l, c, m), name, l as int, c as int, m)); }

pub open spec fn is_comment(k: ModelicaToken) -> bool { k == ModelicaToken::LineComment || k == ModelicaToken::BlockComment }
/// what the lexer promises about kinds and numbers: numbers grow along each
/// collection, and no number is used twice
pub open spec fn lexed(t: Seq<Token>, c: Seq<Token>) -> bool {
    (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).kind != ModelicaToken::EOF && !is_comment(t[i].kind) && 0 <= t[i].idx < t.len() + c.len())
    && (forall|i: int| 0 <= i < c.len() ==> is_comment((#[trigger] c[i]).kind) && 0 <= c[i].idx < t.len() + c.len())
    && (forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).idx < (#[trigger] t[j]).idx)
    && (forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).idx < (#[trigger] c[j]).idx)
    && (forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < c.len() ==> (#[trigger] t[i]).idx != (#[trigger] c[j]).idx)
}

/// texts of comments
pub open spec fn note_text(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '/' && (s[1] == '/' || s[1] == '*') }

/// `a` ends before `b` begins
pub open spec fn before(a: Token, b: Token) -> bool {
    a.end.line <= b.start.line && (a.kind == ModelicaToken::LineComment ==> a.end.line < b.start.line)
}
/// what the lexer guarantees about the tokens and comments of a source
#[verifier::opaque]
pub open spec fn read_ok(t: Seq<Token>, c: Seq<Token>) -> bool {
    lexed(t, c)
    && (forall|i: int| 0 <= i < t.len() ==> !note_text((#[trigger] t[i]).text@) && 1 <= t[i].start.line <= t[i].end.line)
    && (forall|i: int| 0 <= i < c.len() ==> note_text((#[trigger] c[i]).text@) && 1 <= c[i].start.line <= c[i].end.line)
    && (forall|i: int, j: int| 0 <= i < j < t.len() ==> before(#[trigger] t[i], #[trigger] t[j]))
    && (forall|i: int, j: int| 0 <= i < j < c.len() ==> before(#[trigger] c[i], #[trigger] c[j]))
    && (forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < c.len() ==> if (#[trigger] t[i]).idx < (#[trigger] c[j]).idx { before(t[i], c[j]) } else { before(c[j], t[i]) })
    && (t.len() > 0 && t[0].idx > 0 ==> c.len() > 0 && c[0].idx < t[0].idx)
}

