
// ---------------------------------------------------------------- trusted: characters and source positions

pub open spec fn clen(c: char) -> nat {
    let u = c as u32;
    if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}
/// byte offset of the `i`-th character
pub open spec fn bp(s: Seq<char>, i: int) -> nat decreases i {
    if i <= 0 { 0 } else { bp(s, i - 1) + clen(s[i - 1]) }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0c' }
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures r == is_digit(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool)
    ensures r == is_alpha(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool)
    ensures r == (is_alpha(*c) || is_digit(*c));
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool)
    ensures r == is_ws(*c);
/// a text in memory has at most isize::MAX bytes
pub axiom fn axiom_text_size(s: &str)
    ensures bp(s@, s@.len() as int) <= isize::MAX;

pub trait VStrContains { fn v_contains(&self, c: char) -> (r: bool) ensures r == self.vview().contains(c); spec fn vview(&self) -> Seq<char>; }
impl VStrContains for str {
    open spec fn vview(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, c: char) -> (r: bool) { self.contains(c) }
}
/// the characters of a text from byte offset `a` to `b`
#[verifier::external_body]
pub fn v_slice<'a>(s: &&'a str, a: usize, b: usize) -> (r: &'a str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] bp(s@, i) == a && #[trigger] bp(s@, j) == b,
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] bp(s@, i) == a && #[trigger] bp(s@, j) == b ==> r@ == s@.subrange(i, j),
{ &s[a..b] }

#[verifier::external_body]
pub struct VCharIter<'a> { it: std::iter::Peekable<std::str::CharIndices<'a>> }
impl<'a> VCharIter<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.at() <= self.src().len() && bp(self.src(), self.src().len() as int) <= isize::MAX }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).src() == old(self).src(),
            old(self).at() < old(self).src().len() ==> r is Some && (r->0).0 == bp(old(self).src(), old(self).at()) && (r->0).1 == old(self).src()[old(self).at()] && final(self).at() == old(self).at() + 1,
            old(self).at() >= old(self).src().len() ==> r is None && final(self).at() == old(self).at(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        requires old(self).wf()
        ensures *final(self) == *old(self),
            old(self).at() < old(self).src().len() ==> r is Some && (r->0).0 == bp(old(self).src(), old(self).at()) && (r->0).1 == old(self).src()[old(self).at()],
            old(self).at() >= old(self).src().len() ==> r is None,
    { unimplemented!() }
    pub fn v_peekable(self) -> (r: VCharIter<'a>) ensures r == self { self }
}
pub trait VCharIndices { spec fn cview(&self) -> Seq<char>; fn v_char_indices<'a>(&'a self) -> (r: VCharIter<'a>) ensures r.wf(), r.src() == self.cview(), r.at() == 0; }
impl VCharIndices for str {
    open spec fn cview(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_char_indices<'a>(&'a self) -> (r: VCharIter<'a>) { unimplemented!() }
}

// ---------------------------------------------------------------- lexer: specification

/// character `k` ends a line: a line feed, or a carriage return without one
pub open spec fn ends_line(s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && (s[k] == '\n' || (s[k] == '\r' && !at(s, k + 1, '\n'))) }
/// exact position of the `i`-th character: byte offset, line and column counted from 1
pub open spec fn line_at(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 1 } else if ends_line(s, i - 1) { line_at(s, i - 1) + 1 } else { line_at(s, i - 1) }
}
pub open spec fn col_at(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 1 } else if ends_line(s, i - 1) { 1 } else { col_at(s, i - 1) + 1 }
}
pub open spec fn is_pos(s: Seq<char>, i: int, p: Position) -> bool {
    p.pos == bp(s, i) && p.line == line_at(s, i) && p.col == col_at(s, i)
}
pub open spec fn is_name(c: char) -> bool { is_alpha(c) || is_digit(c) || c == '_' }
/// characters allowed in a quoted identifier (Q-CHAR)
pub open spec fn is_q(c: char) -> bool {
    is_name(c) || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '(' || c == ')' || c == '*' || c == '+' || c == ','
    || c == '-' || c == '.' || c == '/' || c == ':' || c == ';' || c == '<' || c == '>' || c == '=' || c == '?' || c == '@' || c == '['
    || c == ']' || c == '^' || c == '{' || c == '}' || c == '|' || c == '~' || c == ' ' || c == '"'
}
/// ends of the longest runs that start at `i`
pub open spec fn ws_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && is_ws(s[i]) { ws_end(s, i + 1) } else { i }
}
pub open spec fn digits_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && is_digit(s[i]) { digits_end(s, i + 1) } else { i }
}
pub open spec fn name_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && is_name(s[i]) { name_end(s, i + 1) } else { i }
}
pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && s[i] != '\n' && s[i] != '\r' { line_end(s, i + 1) } else { i }
}
pub open spec fn at(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
/// what a lexical element is: its end, and its class (None: an error)
pub struct Scan { pub end: int, pub kind: Option<ModelicaToken> }
pub open spec fn ok(end: int, kind: ModelicaToken) -> Scan { Scan { end, kind: Some(kind) } }
pub open spec fn bad(end: int) -> Scan { Scan { end, kind: None } }
/// contents of a string, from `i`
pub open spec fn scan_string(s: Seq<char>, i: int) -> Scan decreases s.len() + 1 - i {
    if i < 0 || i >= s.len() { bad(s.len() as int) }
    else if s[i] == '"' { ok(i + 1, ModelicaToken::String) }
    else if s[i] == '\\' { scan_string(s, i + 2) }
    else { scan_string(s, i + 1) }
}
pub open spec fn scan_qident(s: Seq<char>, i: int) -> Scan decreases s.len() + 1 - i {
    if i < 0 || i >= s.len() { bad(s.len() as int) }
    else if s[i] == '\'' { ok(i + 1, ModelicaToken::Identifier) }
    else if s[i] == '\\' { scan_qident(s, i + 2) }
    else if is_q(s[i]) { scan_qident(s, i + 1) }
    else { bad(i + 1) }
}
pub open spec fn scan_block(s: Seq<char>, i: int) -> Scan decreases s.len() - i {
    if i < 0 || i >= s.len() { bad(s.len() as int) }
    else if s[i] == '*' && at(s, i + 1, '/') { ok(i + 2, ModelicaToken::BlockComment) }
    else { scan_block(s, i + 1) }
}
/// optional exponent
pub open spec fn exp_end(s: Seq<char>, i: int) -> int {
    if at(s, i, 'e') || at(s, i, 'E') {
        if at(s, i + 1, '+') || at(s, i + 1, '-') { digits_end(s, i + 2) } else { digits_end(s, i + 1) }
    } else { i }
}
pub open spec fn scan_number(s: Seq<char>, i: int) -> Scan {
    let d = digits_end(s, i);
    if at(s, d, '.') { ok(exp_end(s, digits_end(s, d + 1)), ModelicaToken::UReal) }
    else if exp_end(s, d) > d { ok(exp_end(s, d), ModelicaToken::UReal) }
    else { ok(d, ModelicaToken::UInt) }
}
pub open spec fn keyword(w: Seq<char>) -> ModelicaToken {
    if w == "not"@ { ModelicaToken::Not } else
    if w == "and"@ { ModelicaToken::And } else
    if w == "or"@ { ModelicaToken::Or } else
    if w == "in"@ { ModelicaToken::In } else
    if w == "for"@ { ModelicaToken::For } else
    if w == "if"@ { ModelicaToken::If } else
    if w == "else"@ { ModelicaToken::Else } else
    if w == "elseif"@ { ModelicaToken::ElseIf } else
    if w == "then"@ { ModelicaToken::Then } else
    if w == "when"@ { ModelicaToken::When } else
    if w == "elsewhen"@ { ModelicaToken::ElseWhen } else
    if w == "while"@ { ModelicaToken::While } else
    if w == "loop"@ { ModelicaToken::Loop } else
    if w == "break"@ { ModelicaToken::Break } else
    if w == "return"@ { ModelicaToken::Return } else
    if w == "partial"@ { ModelicaToken::Partial } else
    if w == "class"@ { ModelicaToken::Class } else
    if w == "operator"@ { ModelicaToken::Operator } else
    if w == "expandable"@ { ModelicaToken::Expandable } else
    if w == "model"@ { ModelicaToken::Model } else
    if w == "function"@ { ModelicaToken::Function } else
    if w == "record"@ { ModelicaToken::Record } else
    if w == "type"@ { ModelicaToken::Type } else
    if w == "block"@ { ModelicaToken::Block } else
    if w == "connector"@ { ModelicaToken::Connector } else
    if w == "package"@ { ModelicaToken::Package } else
    if w == "pure"@ { ModelicaToken::Pure } else
    if w == "impure"@ { ModelicaToken::Impure } else
    if w == "end"@ { ModelicaToken::End } else
    if w == "der"@ { ModelicaToken::Der } else
    if w == "connect"@ { ModelicaToken::Connect } else
    if w == "initial"@ { ModelicaToken::Initial } else
    if w == "equation"@ { ModelicaToken::Equation } else
    if w == "algorithm"@ { ModelicaToken::Algorithm } else
    if w == "extends"@ { ModelicaToken::Extends } else
    if w == "import"@ { ModelicaToken::Import } else
    if w == "public"@ { ModelicaToken::Public } else
    if w == "protected"@ { ModelicaToken::Protected } else
    if w == "within"@ { ModelicaToken::Within } else
    if w == "final"@ { ModelicaToken::Final } else
    if w == "encapsulated"@ { ModelicaToken::Encapsulated } else
    if w == "enumeration"@ { ModelicaToken::Enumeration } else
    if w == "input"@ { ModelicaToken::Input } else
    if w == "output"@ { ModelicaToken::Output } else
    if w == "redeclare"@ { ModelicaToken::Redeclare } else
    if w == "inner"@ { ModelicaToken::Inner } else
    if w == "outer"@ { ModelicaToken::Outer } else
    if w == "replaceable"@ { ModelicaToken::Replaceable } else
    if w == "constrainedby"@ { ModelicaToken::Constrainedby } else
    if w == "flow"@ { ModelicaToken::Flow } else
    if w == "stream"@ { ModelicaToken::Stream } else
    if w == "discrete"@ { ModelicaToken::Discrete } else
    if w == "parameter"@ { ModelicaToken::Parameter } else
    if w == "constant"@ { ModelicaToken::Constant } else
    if w == "each"@ { ModelicaToken::Each } else
    if w == "annotation"@ { ModelicaToken::Annotation } else
    if w == "external"@ { ModelicaToken::External } else
    if w == "true"@ || w == "false"@ { ModelicaToken::Bool } else
    { ModelicaToken::Identifier }
}
/// the lexical element that starts at `i` (which is not whitespace)
pub open spec fn scan(s: Seq<char>, i: int) -> Scan {
    let c = s[i];
    if c == ';' { ok(i + 1, ModelicaToken::Semicolon) }
    else if c == ',' { ok(i + 1, ModelicaToken::Comma) }
    else if c == '+' { ok(i + 1, ModelicaToken::Plus) }
    else if c == '-' { ok(i + 1, ModelicaToken::Minus) }
    else if c == '*' { ok(i + 1, ModelicaToken::Star) }
    else if c == '^' { ok(i + 1, ModelicaToken::Flex) }
    else if c == '(' { ok(i + 1, ModelicaToken::LParen) }
    else if c == ')' { ok(i + 1, ModelicaToken::RParen) }
    else if c == '{' { ok(i + 1, ModelicaToken::LCurly) }
    else if c == '}' { ok(i + 1, ModelicaToken::RCurly) }
    else if c == '[' { ok(i + 1, ModelicaToken::LBracket) }
    else if c == ']' { ok(i + 1, ModelicaToken::RBracket) }
    else if c == ':' { if at(s, i + 1, '=') { ok(i + 2, ModelicaToken::Assign) } else { ok(i + 1, ModelicaToken::Colon) } }
    else if c == '=' { if at(s, i + 1, '=') { ok(i + 2, ModelicaToken::Eq) } else { ok(i + 1, ModelicaToken::Equal) } }
    else if c == '<' {
        if at(s, i + 1, '>') { ok(i + 2, ModelicaToken::Neq) }
        else if at(s, i + 1, '=') { ok(i + 2, ModelicaToken::Leq) }
        else { ok(i + 1, ModelicaToken::Les) }
    }
    else if c == '>' { if at(s, i + 1, '=') { ok(i + 2, ModelicaToken::Geq) } else { ok(i + 1, ModelicaToken::Gre) } }
    else if c == '.' {
        if at(s, i + 1, '+') { ok(i + 2, ModelicaToken::DotPlus) }
        else if at(s, i + 1, '-') { ok(i + 2, ModelicaToken::DotMinus) }
        else if at(s, i + 1, '*') { ok(i + 2, ModelicaToken::DotStar) }
        else if at(s, i + 1, '/') { ok(i + 2, ModelicaToken::DotSlash) }
        else if at(s, i + 1, '^') { ok(i + 2, ModelicaToken::DotFlex) }
        else { ok(i + 1, ModelicaToken::Dot) }
    }
    else if c == '"' { scan_string(s, i + 1) }
    else if c == '\'' { scan_qident(s, i + 1) }
    else if c == '/' {
        if at(s, i + 1, '/') { ok(line_end(s, i + 2), ModelicaToken::LineComment) }
        else if at(s, i + 1, '*') { scan_block(s, i + 2) }
        else { ok(i + 1, ModelicaToken::Slash) }
    }
    else if is_digit(c) { scan_number(s, i) }
    else if is_alpha(c) || c == '_' { ok(name_end(s, i), keyword(s.subrange(i, name_end(s, i)))) }
    else { bad(i + 1) }
}

/// one lexical element of the source: characters start..end
pub struct Item { pub start: int, pub end: int, pub kind: Option<ModelicaToken> }
/// all lexical elements from character `i` on: only whitespace lies between them
pub open spec fn items(s: Seq<char>, i: int) -> Seq<Item> decreases s.len() - i via items_decreases {
    let j = ws_end(s, i);
    if i < 0 || i > s.len() || j >= s.len() { Seq::empty() }
    else {
        let x = scan(s, j);
        seq![Item { start: j, end: x.end, kind: x.kind }] + items(s, x.end)
    }
}
#[via_fn]
proof fn items_decreases(s: Seq<char>, i: int) {
    if 0 <= i <= s.len() {
        lemma_ws_end(s, i);
        if ws_end(s, i) < s.len() { lemma_scan(s, ws_end(s, i)); }
    }
}
pub proof fn lemma_ws_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= ws_end(s, i) <= s.len(), ws_end(s, i) < s.len() ==> !is_ws(s[ws_end(s, i)])
    decreases s.len() - i
{ if i < s.len() && is_ws(s[i]) { lemma_ws_end(s, i + 1); } }
pub proof fn lemma_digits(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= digits_end(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && is_digit(s[i]) { lemma_digits(s, i + 1); } }
pub proof fn lemma_name(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= name_end(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && is_name(s[i]) { lemma_name(s, i + 1); } }
pub proof fn lemma_line(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= line_end(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && s[i] != '\n' && s[i] != '\r' { lemma_line(s, i + 1); } }
pub proof fn lemma_string(s: Seq<char>, i: int)
    requires 0 <= i <= s.len() + 1
    ensures scan_string(s, i).end <= s.len(), i <= s.len() ==> i <= scan_string(s, i).end
    decreases s.len() + 1 - i
{ if i < s.len() { if s[i] == '\\' { lemma_string(s, i + 2); } else if s[i] != '"' { lemma_string(s, i + 1); } } }
pub proof fn lemma_qident(s: Seq<char>, i: int)
    requires 0 <= i <= s.len() + 1
    ensures scan_qident(s, i).end <= s.len(), i <= s.len() ==> i <= scan_qident(s, i).end
    decreases s.len() + 1 - i
{ if i < s.len() { if s[i] == '\\' { lemma_qident(s, i + 2); } else if s[i] != '\'' && is_q(s[i]) { lemma_qident(s, i + 1); } } }
pub proof fn lemma_block(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= scan_block(s, i).end <= s.len()
    decreases s.len() - i
{ if i < s.len() && !(s[i] == '*' && at(s, i + 1, '/')) { lemma_block(s, i + 1); } }
/// every element has at least one character and ends within the text
pub proof fn lemma_scan(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), !is_ws(s[i])
    ensures i < scan(s, i).end <= s.len()
{
    lemma_string(s, i + 1); lemma_qident(s, i + 1); lemma_name(s, i);
    lemma_name(s, i + 1); lemma_digits(s, i); lemma_digits(s, i + 1);
    if i + 2 <= s.len() { lemma_line(s, i + 2); lemma_block(s, i + 2); }
    let d = digits_end(s, i);
    if d + 1 <= s.len() { lemma_digits(s, d + 1); }
    lemma_exp(s, d);
    if at(s, d, '.') { lemma_exp(s, digits_end(s, d + 1)); }
}
pub proof fn lemma_exp(s: Seq<char>, d: int)
    requires 0 <= d <= s.len()
    ensures d <= exp_end(s, d) <= s.len()
{
    if d + 1 <= s.len() { lemma_digits(s, d + 1); }
    if d + 2 <= s.len() { lemma_digits(s, d + 2); }
}

// --- positions

/// the character at byte offset `p`
pub open spec fn idx(s: Seq<char>, p: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] bp(s, k) == p }
pub proof fn lemma_idx(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures idx(s, bp(s, i) as int) == i
{ let k = idx(s, bp(s, i) as int); assert(bp(s, i) == bp(s, i) as int); lemma_bp_inj(s, i, k); }

pub proof fn lemma_bp_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bp(s, i) <= bp(s, j), bp(s, j) - bp(s, i) >= j - i
    decreases j - i
{ if i < j { lemma_bp_mono(s, i, j - 1); } }
pub proof fn lemma_pos_bound(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures 1 <= line_at(s, i) <= i + 1, 1 <= col_at(s, i) <= i + 1, bp(s, i) >= i, bp(s, i) <= bp(s, s.len() as int)
    decreases i
{ if i > 0 { lemma_pos_bound(s, i - 1); } lemma_bp_mono(s, i, s.len() as int); }
pub broadcast proof fn lemma_bp_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), #[trigger] bp(s, i) == #[trigger] bp(s, j)
    ensures i == j
{ if i < j { lemma_bp_mono(s, i, j); } else { lemma_bp_mono(s, j, i); } }

// --- what the lexer has produced
pub open spec fn tok_text(t: Token, s: Seq<char>, x: Item, idx: int) -> bool { t.text@ == s.subrange(x.start, x.end) && t.idx == idx }
pub open spec fn tok_kind(t: Token, x: Item) -> bool { Some(t.kind) == x.kind }
pub open spec fn tok_pos(t: Token, s: Seq<char>, x: Item) -> bool { is_pos(s, x.start, t.start) && is_pos(s, x.end, t.end) }

/// the three outputs hold exactly the elements `l`, in order, each in its collection,
/// tokens and comments sharing one numbering
pub open spec fn holds(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>) -> bool decreases l.len() {
    if l.len() == 0 { t.len() == 0 && c.len() == 0 && e.len() == 0 }
    else {
        let x = l.last();
        let p = l.drop_last();
        match x.kind {
            None => e.len() > 0 && holds(s, name, p, t, c, e.drop_last()),
            Some(k) => if is_comment(k) { c.len() > 0 && tok_text(c.last(), s, x, t.len() + c.len() - 1) && holds(s, name, p, t, c.drop_last(), e) }
                       else { t.len() > 0 && tok_text(t.last(), s, x, t.len() + c.len() - 1) && holds(s, name, p, t.drop_last(), c, e) },
        }
    }
}
pub open spec fn kinds_hold(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>) -> bool decreases l.len() {
    if l.len() == 0 { t.len() == 0 && c.len() == 0 && e.len() == 0 }
    else {
        let x = l.last();
        let p = l.drop_last();
        match x.kind {
            None => e.len() > 0 && kinds_hold(s, name, p, t, c, e.drop_last()),
            Some(k) => if is_comment(k) { c.len() > 0 && tok_kind(c.last(), x) && kinds_hold(s, name, p, t, c.drop_last(), e) }
                       else { t.len() > 0 && tok_kind(t.last(), x) && kinds_hold(s, name, p, t.drop_last(), c, e) },
        }
    }
}
pub open spec fn positions_hold(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>) -> bool decreases l.len() {
    if l.len() == 0 { t.len() == 0 && c.len() == 0 && e.len() == 0 }
    else {
        let x = l.last();
        let p = l.drop_last();
        match x.kind {
            None => e.len() > 0 && is_err(e.last()@, name, line_at(s, x.start), col_at(s, x.start)) && positions_hold(s, name, p, t, c, e.drop_last()),
            Some(k) => if is_comment(k) { c.len() > 0 && tok_pos(c.last(), s, x) && positions_hold(s, name, p, t, c.drop_last(), e) }
                       else { t.len() > 0 && tok_pos(t.last(), s, x) && positions_hold(s, name, p, t.drop_last(), c, e) },
        }
    }
}
impl<'a> Lexer<'a> {
    pub open spec fn s(&self) -> Seq<char> { self.source@ }
    pub open spec fn i(&self) -> int { self.chars.at() }
    pub open spec fn wf(&self) -> bool {
        self.chars.wf() && self.chars.src() == self.source@
        && is_pos(self.source@, self.chars.at(), self.current) && idx(self.source@, self.current.pos as int) == self.chars.at()
        && (self.at_eof ==> self.chars.at() == self.source@.len())
    }
    /// index of the character at which the current element starts
    pub open spec fn st(&self) -> int { idx(self.source@, self.start.pos as int) }
    /// scanning an element, nothing produced yet
    pub open spec fn scanning(&self) -> bool {
        self.wf() && 0 <= self.st() < self.i() && is_pos(self.s(), self.st(), self.start) && self.count <= self.st()
    }
    /// between two elements
    pub open spec fn between(&self) -> bool { self.wf() && is_pos(self.s(), self.i(), self.start) && self.st() == self.i() && self.count <= self.i() }
    /// nothing but the position moved
    pub open spec fn same_out(&self, o: &Lexer<'a>) -> bool {
        self.source@ == o.source@ && self.name@ == o.name@ && self.tokens@ == o.tokens@ && self.comments@ == o.comments@ && self.errors@ == o.errors@ && self.count == o.count
    }
    pub open spec fn moved(&self, o: &Lexer<'a>, to: int) -> bool {
        self.wf() && self.same_out(o) && self.start == o.start && self.i() == to
    }
    /// exactly one element was appended to the collection it belongs to
    pub open spec fn appended(&self, o: &Lexer<'a>, k: Option<ModelicaToken>) -> bool {
        self.source@ == o.source@ && self.name@ == o.name@ && match k {
            None => self.tokens@ == o.tokens@ && self.comments@ == o.comments@ && self.count == o.count
                && self.errors@.len() == o.errors@.len() + 1 && self.errors@.drop_last() == o.errors@,
            Some(k) => self.errors@ == o.errors@ && self.count == o.count + 1 && (
                if is_comment(k) { self.tokens@ == o.tokens@ && self.comments@.len() == o.comments@.len() + 1 && self.comments@.drop_last() == o.comments@ }
                else { self.comments@ == o.comments@ && self.tokens@.len() == o.tokens@.len() + 1 && self.tokens@.drop_last() == o.tokens@ }),
        }
    }
    pub open spec fn newest(&self, k: ModelicaToken) -> Token { if is_comment(k) { self.comments@.last() } else { self.tokens@.last() } }
    pub open spec fn text_ok(&self, a: int, b: int, k: Option<ModelicaToken>, count: int) -> bool {
        k is Some ==> tok_text(self.newest(k->0), self.s(), Item { start: a, end: b, kind: k }, count)
    }
    pub open spec fn kind_ok(&self, k: Option<ModelicaToken>) -> bool { k is Some ==> self.newest(k->0).kind == k->0 }
    pub open spec fn pos_ok(&self, a: int, b: int, k: Option<ModelicaToken>) -> bool {
        if k is Some { tok_pos(self.newest(k->0), self.s(), Item { start: a, end: b, kind: k }) }
        else { is_err(self.errors@.last()@, self.name@, line_at(self.s(), a), col_at(self.s(), a)) }
    }
    /// the outputs so far are the elements before the current position
    pub open spec fn inv_text(&self, l: Seq<Item>) -> bool { holds(self.s(), self.name@, l, self.tokens@, self.comments@, self.errors@) && self.count == self.tokens@.len() + self.comments@.len() }
    pub open spec fn inv_kind(&self, l: Seq<Item>) -> bool { kinds_hold(self.s(), self.name@, l, self.tokens@, self.comments@, self.errors@) }
    pub open spec fn inv_pos(&self, l: Seq<Item>) -> bool { positions_hold(self.s(), self.name@, l, self.tokens@, self.comments@, self.errors@) }
}
pub proof fn lemma_items_step(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures ws_end(s, i) >= s.len() ==> items(s, i) =~= Seq::empty(),
        ws_end(s, i) < s.len() ==> ({
            let j = ws_end(s, i);
            items(s, i) =~= seq![Item { start: j, end: scan(s, j).end, kind: scan(s, j).kind }] + items(s, scan(s, j).end) }),
{ }
pub proof fn lemma_scan_kind(s: Seq<char>, i: int)
    ensures 0 <= i < s.len() ==> scan(s, i).kind != Some(ModelicaToken::EOF),
        scan_string(s, i).kind != Some(ModelicaToken::EOF), scan_qident(s, i).kind != Some(ModelicaToken::EOF), scan_block(s, i).kind != Some(ModelicaToken::EOF)
    decreases s.len() + 3 - i
{
    if 0 <= i < s.len() {
        lemma_scan_kind(s, i + 1);
        lemma_scan_kind(s, i + 2);
    }
}
pub open spec fn no_eof(l: Seq<Item>) -> bool { forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).kind != Some(ModelicaToken::EOF) }
pub proof fn lemma_items_kinds(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures no_eof(items(s, i))
    decreases s.len() - i
{
    let j = ws_end(s, i);
    lemma_ws_end(s, i);
    if j < s.len() { lemma_scan(s, j); lemma_scan_kind(s, j); lemma_items_kinds(s, scan(s, j).end); }
}
pub proof fn lemma_lexed(s: Seq<char>, name: Seq<char>, l: Seq<Item>, t: Seq<Token>, c: Seq<Token>, e: Seq<String>)
    requires holds(s, name, l, t, c, e), kinds_hold(s, name, l, t, c, e), no_eof(l)
    ensures lexed(t, c)
    decreases l.len()
{
    if l.len() > 0 {
        let x = l.last();
        let p = l.drop_last();
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).kind != Some(ModelicaToken::EOF) by { assert(p[k] == l[k]); }
        assert(l[l.len() - 1] == x);
        match x.kind {
            None => { lemma_lexed(s, name, p, t, c, e.drop_last()); }
            Some(k) => if is_comment(k) {
                let d = c.drop_last();
                lemma_lexed(s, name, p, t, d, e);
                assert(forall|j: int| 0 <= j < d.len() ==> c[j] == d[j]);
            } else {
                let d = t.drop_last();
                lemma_lexed(s, name, p, d, c, e);
                assert(forall|j: int| 0 <= j < d.len() ==> t[j] == d[j]);
            }
        }
    }
}
pub proof fn lemma_push_last<T>(a: Seq<T>, x: T)
    ensures a.push(x).drop_last() =~= a, a.push(x).last() == x, a.push(x).len() == a.len() + 1
{ }
pub proof fn lemma_q()
    ensures forall|c: char| #[trigger] "!#$%&()*+,-./:;<>=?@[]^{}|~ \""@.contains(c) ==> is_q(c),
        forall|c: char| is_q(c) && !is_name(c) ==> #[trigger] "!#$%&()*+,-./:;<>=?@[]^{}|~ \""@.contains(c),
{
    reveal_strlit("!#$%&()*+,-./:;<>=?@[]^{}|~ \"");
    let l = "!#$%&()*+,-./:;<>=?@[]^{}|~ \""@;
    assert(l[0] == '!');
    assert(l[1] == '#');
    assert(l[2] == '$');
    assert(l[3] == '%');
    assert(l[4] == '&');
    assert(l[5] == '(');
    assert(l[6] == ')');
    assert(l[7] == '*');
    assert(l[8] == '+');
    assert(l[9] == ',');
    assert(l[10] == '-');
    assert(l[11] == '.');
    assert(l[12] == '/');
    assert(l[13] == ':');
    assert(l[14] == ';');
    assert(l[15] == '<');
    assert(l[16] == '>');
    assert(l[17] == '=');
    assert(l[18] == '?');
    assert(l[19] == '@');
    assert(l[20] == '[');
    assert(l[21] == ']');
    assert(l[22] == '^');
    assert(l[23] == '{');
    assert(l[24] == '}');
    assert(l[25] == '|');
    assert(l[26] == '~');
    assert(l[27] == ' ');
    assert(l[28] == '"');
    assert forall|c: char| #[trigger] l.contains(c) implies is_q(c) by { let k = choose|k: int| 0 <= k < l.len() && l[k] == c; }
    assert(l.len() == 29);
}

pub proof fn lemma_push_last_all()
    ensures forall|a: Seq<Token>, x: Token| #[trigger] a.push(x).drop_last() == a && a.push(x).last() == x && a.push(x).len() == a.len() + 1,
        forall|a: Seq<String>, x: String| #[trigger] a.push(x).drop_last() == a && a.push(x).last() == x && a.push(x).len() == a.len() + 1,
{
    assert forall|a: Seq<Token>, x: Token| #[trigger] a.push(x).drop_last() == a && a.push(x).last() == x by { assert(a.push(x).drop_last() =~= a); }
    assert forall|a: Seq<String>, x: String| #[trigger] a.push(x).drop_last() == a && a.push(x).last() == x by { assert(a.push(x).drop_last() =~= a); }
}

/// which characters the short literals used by the lexer consist of
pub proof fn lemma_lits()
    ensures forall|c: char| #[trigger] "="@.contains(c) <==> c == '=', forall|c: char| #[trigger] ">"@.contains(c) <==> c == '>',
        forall|c: char| #[trigger] "+"@.contains(c) <==> c == '+', forall|c: char| #[trigger] "-"@.contains(c) <==> c == '-',
        forall|c: char| #[trigger] "*"@.contains(c) <==> c == '*', forall|c: char| #[trigger] "/"@.contains(c) <==> c == '/',
        forall|c: char| #[trigger] "^"@.contains(c) <==> c == '^', forall|c: char| #[trigger] "."@.contains(c) <==> c == '.',
        forall|c: char| #[trigger] "eE"@.contains(c) <==> c == 'e' || c == 'E', forall|c: char| #[trigger] "+-"@.contains(c) <==> c == '+' || c == '-',
{
    reveal_strlit("="); reveal_strlit(">"); reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("*"); reveal_strlit("/"); reveal_strlit("^"); reveal_strlit("."); reveal_strlit("eE"); reveal_strlit("+-");
    assert("="@[0] == '=' && ">"@[0] == '>' && "+"@[0] == '+' && "-"@[0] == '-' && "*"@[0] == '*' && "/"@[0] == '/' && "^"@[0] == '^' && "."@[0] == '.');
    assert("eE"@[0] == 'e' && "eE"@[1] == 'E' && "+-"@[0] == '+' && "+-"@[1] == '-');
}
