
// ---------------------------------------------------------------- trusted: contains of arrays

pub open spec fn among<T>(s: Seq<T>, x: T) -> bool {
    (s.len() > 0 && s[0] == x) || (s.len() > 1 && s[1] == x) || (s.len() > 2 && s[2] == x) || (s.len() > 3 && s[3] == x)
    || (s.len() > 4 && s[4] == x) || (s.len() > 5 && s[5] == x) || (s.len() > 6 && exists|i: int| 6 <= i < s.len() && #[trigger] s[i] == x)
}
pub trait VArrContains<T> { spec fn sview(&self) -> Seq<T>; fn v_contains(&self, x: &T) -> (r: bool) ensures r == among(self.sview(), *x); }
impl<const N: usize> VArrContains<ModelicaToken> for [ModelicaToken; N] {
    open spec fn sview(&self) -> Seq<ModelicaToken> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, x: &ModelicaToken) -> (r: bool) { self.contains(x) }
}
impl<const N: usize> VArrContains<SyntaxKind> for [SyntaxKind; N] {
    open spec fn sview(&self) -> Seq<SyntaxKind> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, x: &SyntaxKind) -> (r: bool) { self.contains(x) }
}


// ---------------------------------------------------------------- the text being formatted
// The contracts hold for every value of these constants: `source` and `notes` stand for the tokens and the
// comments handed to `format`, `the_tree` for the tree.

pub uninterp spec fn source() -> Seq<Token>;
pub uninterp spec fn notes() -> Seq<Token>;
pub enum Gap { No, Space, Brk, Legal, Req }
pub struct Want { pub gap: Gap, pub lv: Option<int> }
/// the tree handed to `format`
pub uninterp spec fn the_tree() -> Tree;
/// what the style asks before token `x`
#[verifier::opaque]
pub open spec fn want(x: int) -> Want {
    if x == 0 { Want { gap: if the_tree().children@.len() > 0 && sym(the_tree(), 0) == Sym::T(ModelicaToken::Within) { Gap::Brk } else { Gap::Legal }, lv: None } }
    else { want_in(the_tree(), 0, 0, false, x) }
}
/// the child that holds token `x`
pub open spec fn kid_of(t: Tree, p: int, x: int) -> int { choose|k: int| holds_at(t, p, x, k) }
pub open spec fn holds_at(t: Tree, p: int, x: int, k: int) -> bool { 0 <= k < t.children@.len() && p + off(t, k) <= x < p + off(t, k + 1) }
/// what the style asks before token `x` of the tree `t` that starts at token `p`
#[verifier::opaque]
pub open spec fn want_in(t: Tree, p: int, L: int, m: bool, x: int) -> Want decreases t {
    let k = kid_of(t, p, x);
    if !(0 <= k < t.children@.len()) { arbitrary() }
    else if x == p + off(t, k) && k > 0 { Want { gap: gap(t, k, p, m), lv: lvl(t, k, L) } }
    else { match t.children@[k] { Child::Token(_) => arbitrary(), Child::Tree(c) => want_in(c, p + off(t, k), kid_lv(t, k, L), kid_m(t, k, m), x) } }
}

pub open spec fn vertical(g: Gap) -> bool { g is Brk || g is Legal || g is Req }
/// what stands before token `i`; before the first token there is something only when comments precede it
pub open spec fn wanted(i: int) -> Want {
    if i >= source().len() { Want { gap: Gap::Legal, lv: None } }
    else { want(i) }
}

// ---------------------------------------------------------------- reading a marker list

pub enum Sep { No, Space, Break, Blank, Bad }
/// What a list of markers says so far.
pub struct W {
    /// tokens and comments written or passed
    pub i: int, pub j: int,
    /// indentation level
    pub lv: int,
    /// indentation of the line
    pub ind: int,
    /// separator since the last word; first line break of the gap before the comments in it; a comment since the last token; that is a line comment
    pub sep: Sep, pub lead: Sep, pub any: bool, pub lc: bool,
    /// the words are the tokens and comments (C08), in order and with no comment lost at a break (C10), spaced (C12),
    /// broken (C13) and indented (C11) as wanted, a line comment ends its line (C09)
    pub words: bool, pub order: bool, pub horiz: bool, pub vert: bool, pub level: bool, pub join: bool,
}
/// the first comment from `j` that does not stand before number `x`
pub open spec fn skip(j: int, x: int) -> int decreases notes().len() - j {
    if 0 <= j < notes().len() && notes()[j].idx < x { skip(j + 1, x) } else { j }
}
pub open spec fn prev_line(i: int) -> int { if i <= 0 { 1 } else { source()[i - 1].end.line as int } }
pub open spec fn prev_kind(i: int) -> ModelicaToken { if i <= 0 { ModelicaToken::EOF } else { source()[i - 1].kind } }
pub open spec fn last_line(w: W) -> int { if w.any { notes()[w.j - 1].end.line as int } else { prev_line(w.i) } }
pub open spec fn by_lines(a: int, b: int) -> Sep { if b - a > 1 { Sep::Blank } else { Sep::Break } }
pub open spec fn broke(w: W) -> bool { w.sep is Break || w.sep is Blank || w.lead is Break || w.lead is Blank || w.i <= 0 }
/// a comment stands before token `w.i` and was not written
pub open spec fn pending(w: W) -> bool { w.j < notes().len() && notes()[w.j].idx < source()[w.i].idx }

// conditions under which token `w.i` may be written
pub open spec fn order_ok(w: W) -> bool { (w.j > 0 ==> notes()[w.j - 1].idx < source()[w.i].idx) && (broke(w) ==> !pending(w)) }
pub open spec fn horiz_ok(w: W) -> bool {
    w.i <= 0 || match wanted(w.i).gap { Gap::No => !(w.sep is Space), Gap::Space => !(w.sep is No), _ => true }
}
pub open spec fn vert_ok(w: W) -> bool {
    if w.i <= 0 && !w.any { w.sep is No } else {
    match wanted(w.i).gap {
        Gap::No | Gap::Space => (w.sep is No || w.sep is Space) && w.lead is No && !w.any,
        Gap::Brk => w.sep is Break,
        Gap::Legal => w.sep == by_lines(last_line(w), source()[w.i].start.line as int),
        Gap::Req => if w.lead is No { w.sep is Blank } else { w.sep == by_lines(last_line(w), source()[w.i].start.line as int) },
    } }
}
pub open spec fn level_ok(w: W) -> bool { wanted(w.i).lv is Some ==> w.ind == wanted(w.i).lv->0 }
pub open spec fn join_ok(w: W) -> bool { w.lc ==> w.sep is Break || w.sep is Blank }
/// the separator wanted before comment `w.j`
pub open spec fn note_sep(w: W) -> Sep {
    let n = notes()[w.j];
    if w.i <= 0 && !w.any && !(n.start.line == prev_line(w.i)) { Sep::No }
    else if n.start.line == prev_line(w.i) { if w.i <= 0 && !w.any { Sep::No } else { Sep::Space } }
    else if w.i > 0 && wanted(w.i).gap is Req && w.lead is No { Sep::Blank }
    else { by_lines(last_line(w), n.start.line as int) }
}

pub open spec fn step(w: W, m: Marker) -> W {
    match m {
        Marker::Indent => W { lv: w.lv + 1, ..w },
        Marker::Dedent => W { lv: w.lv - 1, level: w.level && w.lv >= 1, ..w },
        Marker::Space => W { sep: if w.sep is No { Sep::Space } else { Sep::Bad }, ..w },
        Marker::Break => W { ind: w.lv, sep: if w.sep is No { Sep::Break } else { Sep::Bad }, ..w },
        Marker::Blank => W { ind: w.lv, sep: if w.sep is No { Sep::Blank } else { Sep::Bad }, ..w },
        Marker::Token(s) => if note_text(s@) {
            let n = notes()[w.j];
            W { j: w.j + 1, sep: Sep::No, lead: if w.lead is No && (w.sep is Break || w.sep is Blank) { w.sep } else { w.lead }, any: true,
                lc: n.kind == ModelicaToken::LineComment,
                words: w.words && w.j < notes().len() && s@ == n.text@,
                order: w.order && (w.i > 0 ==> source()[w.i - 1].idx < n.idx),
                vert: w.vert && w.sep == note_sep(w),
                join: w.join && join_ok(w), ..w }
        } else {
            W { i: w.i + 1, j: skip(w.j, source()[w.i].idx as int), sep: Sep::No, lead: Sep::No, any: false, lc: false,
                words: w.words && w.i < source().len() && s@ == source()[w.i].text@,
                order: w.order && order_ok(w), horiz: w.horiz && horiz_ok(w), vert: w.vert && vert_ok(w),
                level: w.level && level_ok(w), join: w.join && join_ok(w), ..w }
        },
    }
}
pub open spec fn w0() -> W {
    W { i: 0, j: 0, lv: 0, ind: 0, sep: Sep::No, lead: Sep::No, any: false, lc: false, words: true, order: true, horiz: true, vert: true, level: true, join: true }
}
#[verifier::opaque]
pub open spec fn weave(m: Seq<Marker>) -> W decreases m.len() {
    if m.len() == 0 { w0() } else { step(weave(m.drop_last()), m.last()) }
}
pub broadcast proof fn lemma_weave(m: Seq<Marker>, x: Marker)
    ensures #[trigger] weave(m.push(x)) == step(weave(m), x)
{ reveal(weave); assert(m.push(x).drop_last() =~= m); }

// ---------------------------------------------------------------- the formatter

/// nothing since the last token
pub open spec fn fresh(w: W) -> bool { w.sep is No && w.lead is No && !w.any && !w.lc }
/// a space since the last token
pub open spec fn spaced(w: W) -> bool { w.sep is Space && w.lead is No && !w.any && !w.lc }
/// passed comments stand before the next token, the others after the last one
pub open spec fn placed(w: W) -> bool {
    0 <= w.i <= source().len() && 0 <= w.j <= notes().len()
    && (w.j > 0 && w.i < source().len() ==> notes()[w.j - 1].idx < source()[w.i].idx)
    && (w.j < notes().len() && w.i > 0 ==> notes()[w.j].idx > source()[w.i - 1].idx)
}
impl Formatter {
    pub open spec fn w(&self) -> W { weave(self.markers@) }
    pub open spec fn at(&self) -> int { weave(self.markers@).i }
    pub open spec fn lv(&self) -> int { weave(self.markers@).lv }
    pub open spec fn inv(&self) -> bool {
        read_ok(source(), notes()) && self.comments.wf() && self.comments.all() == notes() && self.comments.done() == self.w().j
        && placed(self.w()) && self.w().lv >= 0
        && self.prev_tok == prev_kind(self.w().i) && self.prev_line == prev_line(self.w().i)
        && (self.markers@.len() == 0 ==> self.w() == w0())
    }
    pub open spec fn good8(&self) -> bool { self.w().words }
    pub open spec fn good9(&self) -> bool { self.w().join }
    pub open spec fn good10(&self) -> bool { self.w().order }
    pub open spec fn good11(&self) -> bool { self.w().level }
    pub open spec fn good12(&self) -> bool { self.w().horiz }
    pub open spec fn good13(&self) -> bool { self.w().vert }
    pub open spec fn good(&self) -> bool { self.good8() && self.good9() && self.good10() && self.good11() && self.good12() && self.good13() }
}
pub open spec fn gap_of(b: Blank) -> Gap { match b { Blank::Required => Gap::Req, Blank::Legal => Gap::Legal, Blank::Illegal => Gap::Brk } }

// ---------------------------------------------------------------- the style

/// before the first token
pub open spec fn want_first(t: Tree) -> bool {
    t.children@.len() > 0 ==> want(0) == (Want { gap: if sym(t, 0) == Sym::T(ModelicaToken::Within) { Gap::Brk } else { Gap::Legal }, lv: None })
}
pub open spec fn wrap(c: bool) -> Gap { if c { Gap::Brk } else { Gap::Space } }
pub open spec fn wrap0(c: bool) -> Gap { if c { Gap::Brk } else { Gap::No } }
pub open spec fn kidt(t: Tree, k: int) -> Tree { t.children@[k]->Tree_0 }
/// a conditional expression on several lines
pub open spec fn long_if(t: Tree) -> bool { multi(t) && first_leaf(t).kind == ModelicaToken::If }
/// the operator `k` is not on the line of the operand after it or of the token before it
pub open spec fn at_break(t: Tree, k: int, p: int) -> bool { source()[p + off(t, k + 1)].start.line > source()[p + off(t, k) - 1].end.line }
pub open spec fn mod_gap(t: Tree) -> Gap { if sym(t, 0) is T { Gap::Space } else { Gap::No } }
pub open spec fn oel_gap(t: Tree) -> Gap { if sym(t, 0) is T { Gap::Space } else { Gap::No } }
pub open spec fn ends_comma(t: Tree) -> bool { sym(t, t.children@.len() - 1) is T }
/// ( , ): an output list that ends with a comma is followed by a space
pub open spec fn oel_end(t: Tree) -> Gap { if ends_comma(t) { Gap::Space } else { Gap::No } }
pub open spec fn comp_deeper(t: Tree) -> int { if sym(t, 0) == Sym::N(SyntaxKind::ElementList) || sym(t, 0) == Sym::N(SyntaxKind::AnnotationClause) { 1 } else { 0 } }
/// line of the first token `o` among the first `k` children (-1: none); a token `c` after it stands on a later line
#[verifier::opaque]
pub open spec fn scan(t: Tree, o: ModelicaToken, c: ModelicaToken, k: int) -> (int, bool) decreases k {
    if 0 < k <= t.children@.len() {
        let r = scan(t, o, c, k - 1);
        match t.children@[k - 1] {
            Child::Token(x) => if r.0 < 0 { if x.kind == o { (x.start.line as int, r.1) } else { r } }
                else if x.kind == c { (r.0, x.start.line > r.0) } else { r },
            Child::Tree(_) => r,
        }
    } else { (-1, false) }
}
pub open spec fn paren(t: Tree, o: ModelicaToken, c: ModelicaToken) -> bool { scan(t, o, c, t.children@.len() as int).1 }

/// before every token of the tree but the first, `want` is what the style asks
#[verifier::opaque]
pub open spec fn wants(t: Tree, p: int, L: int, m: bool) -> bool decreases t {
    forall|k: int| 0 <= k < t.children@.len() ==> (k > 0 ==> want(p + off(t, k)) == (Want { gap: gap(t, k, p, m), lv: lvl(t, k, L) }))
        && match #[trigger] t.children@[k] { Child::Token(_) => true, Child::Tree(c) => wants(c, p + off(t, k), kid_lv(t, k, L), kid_m(t, k, m)) }
}
pub proof fn lemma_node(t: Tree, p: int)
    requires shape(t, source(), p)
    ensures off(t, 0) == 0, size(t) == off(t, t.children@.len() as int), state(t, 0) == 0, fin(t.kind, state(t, t.children@.len() as int)),
        scan(t, ModelicaToken::LParen, ModelicaToken::RParen, 0) == (-1int, false), scan(t, ModelicaToken::LCurly, ModelicaToken::RCurly, 0) == (-1int, false),
        p >= 0 && t.children@.len() > 0 ==> full(t) && size(t) > 0 && p + size(t) <= source().len() && first_leaf(t) == source()[p] && last_leaf(t) == source()[p + size(t) - 1]
{ reveal(off); reveal(size); reveal(state); reveal(shape); reveal(scan); if p >= 0 && t.children@.len() > 0 { lemma_leaves(t, source(), p); } }
/// what is known about child `k`
pub proof fn lemma_kid(t: Tree, p: int, L: int, m: bool, k: int)
    requires shape(t, source(), p), wants(t, p, L, m), 0 <= p, 0 <= k < t.children@.len()
    ensures
        off(t, k + 1) == off(t, k) + csize(t.children@[k]), csize(t.children@[k]) > 0, k > 0 ==> off(t, k) > 0,
        p + off(t, k) < source().len(),
        state(t, k + 1) == delta(t.kind, state(t, k), sym(t, k)), state(t, k) >= 0, state(t, k + 1) >= 0,
        k + 1 == t.children@.len() ==> fin(t.kind, state(t, k + 1)),
        k > 0 ==> wanted(p + off(t, k)) == (Want { gap: gap(t, k, p, m), lv: lvl(t, k, L) }),
        match t.children@[k] {
            Child::Token(x) => x == source()[p + off(t, k)] && sym(t, k) == Sym::T(x.kind) && prev_kind(p + off(t, k + 1)) == x.kind,
            Child::Tree(c) => c.children@.len() > 0 && full(c) && shape(c, source(), p + off(t, k)) && wants(c, p + off(t, k), kid_lv(t, k, L), kid_m(t, k, m))
                && csize(t.children@[k]) == size(c) && size(c) > 0 && first_leaf(c) == source()[p + off(t, k)] && last_leaf(c) == source()[p + off(t, k + 1) - 1]
                && sym(t, k) == Sym::N(c.kind) && last_in(c.kind, prev_kind(p + off(t, k + 1))),
        },
        scan(t, ModelicaToken::LParen, ModelicaToken::RParen, k + 1) == scan1(t, ModelicaToken::LParen, ModelicaToken::RParen, k),
        scan(t, ModelicaToken::LCurly, ModelicaToken::RCurly, k + 1) == scan1(t, ModelicaToken::LCurly, ModelicaToken::RCurly, k),
{
    reveal(off); reveal(size); reveal(state); reveal(shape); reveal(wants); reveal(scan);
    match t.children@[k] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, source(), p + off(t, k)); lemma_last(c, source(), p + off(t, k)); assert(csize(t.children@[k]) == size(c)); } }
    if k > 0 {
        match t.children@[0] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, source(), p + off(t, 0)); assert(csize(t.children@[0]) == size(c)); } }
        lemma_off_mono(t, 1, k);
        assert(off(t, 1) == off(t, 0) + csize(t.children@[0]));
    }
}
pub open spec fn scan1(t: Tree, o: ModelicaToken, c: ModelicaToken, k: int) -> (int, bool) {
    let r = scan(t, o, c, k);
    match t.children@[k] {
        Child::Token(x) => if r.0 < 0 { if x.kind == o { (x.start.line as int, r.1) } else { r } }
            else if x.kind == c { (r.0, x.start.line > r.0) } else { r },
        Child::Tree(_) => r,
    }
}

// ---------------------------------------------------------------- neighbours

pub proof fn lemma_token(i: int)
    requires read_ok(source(), notes()), 0 <= i < source().len()
    ensures !note_text(source()[i].text@), 1 <= source()[i].start.line <= source()[i].end.line,
        i > 0 ==> source()[i - 1].end.line <= source()[i].start.line && source()[i - 1].idx < source()[i].idx
{ reveal(read_ok); if i > 0 { assert(before(source()[i - 1], source()[i])); } }
pub proof fn lemma_skip(j: int, x: int)
    requires 0 <= j <= notes().len()
    ensures j <= skip(j, x) <= notes().len(), skip(j, x) > j ==> notes()[skip(j, x) - 1].idx < x, skip(j, x) < notes().len() ==> notes()[skip(j, x)].idx >= x
    decreases notes().len() - j
{ if j < notes().len() && notes()[j].idx < x { lemma_skip(j + 1, x); } }
/// the comments passed with a token stand between it and the next one
pub proof fn lemma_place(i: int, j: int)
    requires read_ok(source(), notes()), 0 <= i < source().len(), 0 <= j <= notes().len(), j > 0 ==> notes()[j - 1].idx < source()[i].idx
    ensures ({ let n = skip(j, source()[i].idx as int);
        j <= n <= notes().len() && (n > 0 && i + 1 < source().len() ==> notes()[n - 1].idx < source()[i + 1].idx) && (n < notes().len() ==> notes()[n].idx > source()[i].idx) })
{ reveal(read_ok); lemma_skip(j, source()[i].idx as int); }
/// comment `j` and its neighbours
pub proof fn lemma_note(i: int, j: int)
    requires read_ok(source(), notes()), 0 <= j < notes().len(), 0 <= i <= source().len(), i > 0 ==> notes()[j].idx > source()[i - 1].idx
    ensures note_text(notes()[j].text@), 1 <= notes()[j].start.line <= notes()[j].end.line, prev_line(i) <= notes()[j].start.line,
        j > 0 ==> before(notes()[j - 1], notes()[j]), j + 1 < notes().len() ==> notes()[j].idx < notes()[j + 1].idx,
        i < source().len() && notes()[j].idx < source()[i].idx ==> before(notes()[j], source()[i]),
{
    reveal(read_ok);
    if j > 0 { assert(before(notes()[j - 1], notes()[j])); }
    if i > 0 { assert(before(source()[i - 1], notes()[j])); }
}
/// comments that do not stand on the line of the token before come after those that do
pub proof fn lemma_note_lines(i: int, j: int, c: Seq<Token>)
    requires read_ok(source(), notes()), 0 <= j < notes().len(), 0 <= i <= source().len(), i > 0 ==> notes()[j].idx > source()[i - 1].idx,
        c.len() > 0 ==> j > 0 && c.last() == notes()[j - 1], forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).start.line > prev_line(i), c.len() > 0 && i > 0 ==> notes()[j - 1].idx > source()[i - 1].idx
    ensures notes()[j].start.line >= prev_line(i), c.len() > 0 ==> notes()[j].start.line > prev_line(i), j + 1 < notes().len() ==> notes()[j].idx < notes()[j + 1].idx
{ lemma_note(i, j); if c.len() > 0 { lemma_note(i, j - 1); } }
pub proof fn lemma_first_note(i: int)
    requires read_ok(source(), notes()), source().len() > 0, source()[0].idx > 0
    ensures notes().len() > 0, notes()[0].idx < source()[0].idx
{ reveal(read_ok); }
/// the comments after the first one after a token come after the token
pub proof fn lemma_mono(i: int, j: int, n: int)
    requires read_ok(source(), notes()), 0 <= j <= n < notes().len(), 0 <= i <= source().len(), i > 0 ==> notes()[j].idx > source()[i - 1].idx
    ensures i > 0 ==> notes()[n].idx > source()[i - 1].idx, j < n ==> notes()[j].idx < notes()[n].idx
{ reveal(read_ok); }

// ---------------------------------------------------------------- the style of the tree

pub proof fn lemma_off_step(t: Tree, s: Seq<Token>, p: int, k: int)
    requires shape(t, s, p), 0 <= p, 0 <= k < t.children@.len()
    ensures off(t, k + 1) == off(t, k) + csize(t.children@[k]), csize(t.children@[k]) > 0, off(t, 0) == 0
{
    reveal(off); reveal(size); reveal(shape);
    match t.children@[k] { Child::Token(_) => {}, Child::Tree(c) => { lemma_leaves(c, s, p + off(t, k)); assert(csize(t.children@[k]) == size(c)); } }
}
pub proof fn lemma_kid_of(t: Tree, p: int, x: int, k: int)
    requires shape(t, source(), p), 0 <= p, holds_at(t, p, x, k)
    ensures kid_of(t, p, x) == k
{
    let n = kid_of(t, p, x);
    assert(holds_at(t, p, x, n));
    if n < k { lemma_off_mono(t, n + 1, k); }
    if k < n { lemma_off_mono(t, k + 1, n); }
}
/// `want` is what the style asks, node by node
pub proof fn lemma_wants(t: Tree, p: int, L: int, m: bool)
    requires shape(t, source(), p), 0 <= p, forall|x: int| p < x < p + size(t) ==> #[trigger] want(x) == want_in(t, p, L, m, x)
    ensures wants(t, p, L, m)
    decreases t
{
    reveal(wants); reveal(shape); reveal(size);
    let n = t.children@.len() as int;
    assert forall|k: int| 0 <= k < n implies (k > 0 ==> want(p + off(t, k)) == (Want { gap: gap(t, k, p, m), lv: lvl(t, k, L) }))
        && match #[trigger] t.children@[k] { Child::Token(_) => true, Child::Tree(c) => wants(c, p + off(t, k), kid_lv(t, k, L), kid_m(t, k, m)) } by {
        lemma_off_step(t, source(), p, k);
        lemma_off_mono(t, k + 1, n);
        let q = p + off(t, k);
        assert(holds_at(t, p, q, k));
        lemma_kid_of(t, p, q, k);
        assert(size(t) == off(t, n)) by { reveal(off); }
        if k > 0 {
            lemma_off_step(t, source(), p, 0);
            lemma_off_mono(t, 1, k);
            reveal(want_in);
            assert(want(q) == want_in(t, p, L, m, q));
        }
        match t.children@[k] {
            Child::Token(_) => {}
            Child::Tree(c) => {
                assert(csize(t.children@[k]) == size(c)) by { reveal(off); }
                assert forall|x: int| q < x < q + size(c) implies #[trigger] want(x) == want_in(c, q, kid_lv(t, k, L), kid_m(t, k, m), x) by {
                    reveal(want_in);
                    assert(holds_at(t, p, x, k));
                    lemma_kid_of(t, p, x, k);
                    assert(want(x) == want_in(t, p, L, m, x));
                }
                lemma_wants(c, q, kid_lv(t, k, L), kid_m(t, k, m));
            }
        }
    }
}
