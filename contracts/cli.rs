// ---------------------------------------------------------------- trusted: files, arguments, exit

/// A path is what it says; what it names is a matter of the file system, which
/// is assumed not to be rearranged by others during the run.
#[verifier::external_body]
pub struct VPath { p: std::path::PathBuf }
pub type PathV = Seq<char>;
pub uninterp spec fn is_dir(p: PathV) -> bool;
/// the entries of a directory, in the order they are listed; None: it cannot be read
pub uninterp spec fn entries(d: PathV) -> Seq<Option<PathV>>;
/// directories are finite trees
pub uninterp spec fn height(p: PathV) -> nat;
/// what follows the last dot of the last component
pub uninterp spec fn extension(p: PathV) -> Option<Seq<char>>;
pub broadcast axiom fn axiom_height(d: PathV, i: int, p: PathV)
    requires 0 <= i < entries(d).len(), #[trigger] entries(d)[i] == Some(p), #[trigger] is_dir(p)
    ensures height(p) < height(d);

impl View for VPath { type V = PathV; uninterp spec fn view(&self) -> PathV; }
pub struct VName { pub t: String }
impl VDisp for VName { open spec fn disp(&self) -> Seq<char> { self.t@ } }
impl VName {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t@ { unimplemented!() }
}
impl VPath {
    #[verifier::external_body]
    pub fn from(s: &String) -> (r: VPath) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == is_dir(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&str>)
        ensures (r matches Some(x) ==> extension(self@) == Some(x@)), r is None ==> extension(self@) is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: VName) { unimplemented!() }
    pub fn as_path(&self) -> (r: &VPath) ensures r == self { self }
}

/// an error the operating system reported
#[verifier::external_body]
pub struct VErr { e: std::io::Error }
impl VErr {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
/// `unwrap`, `expect` and the like on an operating system error: the process
/// ends with a non-zero code when there is one
#[verifier::external_body]
pub fn v_unwrap<T>(x: Result<T, VErr>) -> (r: T) ensures x == Ok::<T, VErr>(r) { unimplemented!() }

#[verifier::external_body]
pub struct VDirEntry { e: std::fs::DirEntry }
impl VDirEntry {
    pub uninterp spec fn at(&self) -> PathV;
    #[verifier::external_body]
    pub fn path(&self) -> (r: VPath) ensures r@ == self.at() { unimplemented!() }
}
#[verifier::external_body]
pub struct VReadDir { e: std::fs::ReadDir }
impl VReadDir { pub uninterp spec fn of(&self) -> PathV; }
pub uninterp spec fn listed(d: VReadDir) -> Seq<Result<VDirEntry, VErr>>;
pub open spec fn lists(s: Seq<Result<VDirEntry, VErr>>, d: PathV) -> bool {
    s.len() == entries(d).len()
    && forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) is Ok ==> entries(d)[i] == Some((s[i]->Ok_0).at()))
        && (s[i] is Err ==> entries(d)[i] is None)
}
impl VIntoIter<Result<VDirEntry, VErr>> for VReadDir {
    open spec fn elems(&self) -> Seq<Result<VDirEntry, VErr>> { listed(*self) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<Result<VDirEntry, VErr>>) { unimplemented!() }
}

/// What the process has done so far.
pub enum Ev {
    /// a file was read, with its text if that worked
    Read(PathV, Option<Seq<char>>),
    /// a file was overwritten (the flag: without an error)
    Write(PathV, Seq<char>, bool),
}
#[verifier::external_body]
pub struct VWorld { x: u8 }
impl VWorld {
    pub uninterp spec fn args(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn log(&self) -> Seq<Ev>;
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }

#[verifier::external_body]
pub fn v_args(w: &mut VWorld) -> (r: Vec<String>)
    ensures *final(w) == *old(w), texts(r@) == old(w).args()
{ unimplemented!() }
#[verifier::external_body]
pub fn v_out(w: &mut VWorld) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn v_outr(w: &mut VWorld) -> (r: Result<(), VErr>) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn v_read_dir(w: &mut VWorld, d: &VPath) -> (r: Result<VReadDir, VErr>)
    ensures *final(w) == *old(w), r matches Ok(x) ==> lists(listed(x), d@)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_read(w: &mut VWorld, p: &VPath) -> (r: Result<String, VErr>)
    ensures
        final(w).args() == old(w).args(),
        final(w).log() == old(w).log().push(Ev::Read(p@, match r { Ok(s) => Some(s@), Err(_) => None })),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_write(w: &mut VWorld, p: &VPath, text: String) -> (r: Result<(), VErr>)
    requires
        may_write(old(w).args(), old(w).log(), p@, text@), //[C15]
    ensures
        final(w).args() == old(w).args(),
        final(w).log() == old(w).log().push(Ev::Write(p@, text@, r is Ok)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_exit(w: &mut VWorld, code: i32) -> !
    requires
        all_read(old(w).args(), old(w).log()), //[C16]
        all_written(old(w).args(), old(w).log()), //[C15]
        right_code(old(w).args(), old(w).log(), code as int), //[C15]
{ unimplemented!() }
#[verifier::external_body]
pub fn v_starts_with(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body]
pub fn v_slice_from(s: &Vec<String>, a: usize) -> (r: &[String])
    requires a <= s@.len()
    ensures r@ == s@.skip(a as int)
{ unimplemented!() }
pub trait VContains<T> { spec fn among(&self, x: T) -> bool; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.among(*x); }
impl<'a, const N: usize> VContains<&'a str> for [&'a str; N] {
    open spec fn among(&self, x: &'a str) -> bool { exists|i: int| 0 <= i < N && (#[trigger] self@[i])@ == x@ }
    #[verifier::external_body]
    fn v_contains(&self, x: &&'a str) -> (r: bool) { unimplemented!() }
}

// ---------------------------------------------------------------- the library, as C04-C14 describe it

/// the text is accepted
pub uninterp spec fn valid(src: Seq<char>) -> bool;
/// its formatted form
pub uninterp spec fn formatted(src: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub struct VTokens { x: u8 }
#[verifier::external_body] pub struct VEvents { x: u8 }
pub struct VParsed { pub tokens: VTokens, pub comments: VTokens, pub events: VEvents, pub errors: Vec<String> }
pub uninterp spec fn read_from(t: VTokens, c: VTokens, e: VEvents, src: Seq<char>) -> bool;
#[verifier::external_body]
pub fn parse(name: &str, source: &str, kind: SyntaxKind) -> (r: VParsed)
    requires
        kind == SyntaxKind::StoredDefinition,
    ensures
        r.errors@.len() == 0 <==> valid(source@),
        read_from(r.tokens, r.comments, r.events, source@),
{ unimplemented!() }
#[verifier::external_body]
pub fn pretty_print(tokens: VTokens, comments: VTokens, events: VEvents) -> (r: String)
    requires
        exists|s: Seq<char>| valid(s) && #[trigger] read_from(tokens, comments, events, s),
    ensures
        forall|s: Seq<char>| #[trigger] read_from(tokens, comments, events, s) ==> r@ == formatted(s),
{ unimplemented!() }

// ---------------------------------------------------------------- which files are selected

pub open spec fn is_mo(p: PathV) -> bool { extension(p) == Some(seq!['m', 'o']) }
/// the Modelica files among the first `k` entries of a directory and below them
pub open spec fn in_dir(d: PathV, k: int) -> Seq<PathV> decreases height(d), k {
    if k <= 0 || k > entries(d).len() { seq![] } else {
        in_dir(d, k - 1) + match entries(d)[k - 1] {
            Some(p) => if is_dir(p) { if height(p) < height(d) { in_dir(p, entries(p).len() as int) } else { seq![] } }
                else if is_mo(p) { seq![p] } else { seq![] },
            None => seq![],
        }
    }
}
pub open spec fn selected(args: Seq<Seq<char>>, k: int) -> Seq<PathV> decreases k {
    if k <= 0 { seq![] } else {
        selected(args, k - 1) + (if is_dir(args[k - 1]) { in_dir(args[k - 1], entries(args[k - 1]).len() as int) } else { seq![args[k - 1]] })
    }
}
/// check mode or not, and the paths; None when the arguments ask for no processing
pub open spec fn usage(args: Seq<Seq<char>>) -> Option<(bool, Seq<Seq<char>>)> {
    if args.len() < 2 || is_word(args[1], 0) || is_word(args[1], 1) || is_word(args[1], 2) || is_word(args[1], 3) { None }
    else if is_word(args[1], 4) { if args.len() < 3 { None } else { Some((true, args.skip(2))) } }
    else if args[1].len() > 0 && args[1][0] == '-' { None }
    else { Some((false, args.skip(1))) }
}
pub open spec fn is_word(s: Seq<char>, k: int) -> bool {
    s == (if k == 0 { seq!['-', 'h'] } else if k == 1 { seq!['-', '-', 'h', 'e', 'l', 'p'] } else if k == 2 { seq!['-', 'v'] }
        else if k == 3 { seq!['-', '-', 'v', 'e', 'r', 's', 'i', 'o', 'n'] } else { seq!['-', '-', 'c', 'h', 'e', 'c', 'k'] })
}
pub open spec fn chosen(args: Seq<Seq<char>>) -> Seq<PathV> {
    match usage(args) { Some((_, ps)) => selected(ps, ps.len() as int), None => seq![] }
}
pub open spec fn checking(args: Seq<Seq<char>>) -> bool { usage(args) matches Some((true, _)) }

// ---------------------------------------------------------------- what a run may do

pub open spec fn mo_of(s: Seq<PathV>, k: int) -> Seq<PathV> decreases k {
    if k <= 0 { seq![] } else if is_mo(s[k - 1]) { mo_of(s, k - 1).push(s[k - 1]) } else { mo_of(s, k - 1) }
}
pub open spec fn reads(log: Seq<Ev>) -> Seq<PathV> decreases log.len() {
    if log.len() == 0 { seq![] } else { match log.last() {
        Ev::Read(p, _) => reads(log.drop_last()).push(p),
        Ev::Write(..) => reads(log.drop_last()),
    } }
}
pub open spec fn out_text(src: Seq<char>) -> Seq<char> { formatted(src) + seq!['\n'] }
/// C15: a write follows the successful reading of the same file, outside check
/// mode, when the text is accepted; it writes the formatted text
pub open spec fn may_write(args: Seq<Seq<char>>, log: Seq<Ev>, p: PathV, text: Seq<char>) -> bool {
    usage(args) is Some && !checking(args) && log.len() > 0 && chosen(args).contains(p) && is_mo(p)
    && match log.last() { Ev::Read(q, Some(src)) => q == p && valid(src) && text == out_text(src), _ => false }
}
/// C16: exactly the selected Modelica files were read, in order
pub open spec fn all_read(args: Seq<Seq<char>>, log: Seq<Ev>) -> bool {
    reads(log) == mo_of(chosen(args), chosen(args).len() as int)
}
/// C15: every accepted file that was not formatted has been written
#[verifier::opaque]
pub open spec fn settled(log: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < log.len() ==> match #[trigger] log[i] {
        Ev::Read(_, Some(s)) => valid(s) && s != out_text(s) ==> i + 1 < log.len() && log[i + 1] is Write,
        _ => true,
    }
}
pub open spec fn all_written(args: Seq<Seq<char>>, log: Seq<Ev>) -> bool {
    !checking(args) ==> settled(log)
}
#[verifier::opaque]
pub open spec fn clean(log: Seq<Ev>, check: bool) -> bool {
    forall|i: int| 0 <= i < log.len() ==> match #[trigger] log[i] {
        Ev::Read(_, Some(s)) => valid(s) && (check ==> s == out_text(s)),
        Ev::Read(_, None) => false,
        Ev::Write(_, _, ok) => ok,
    }
}
#[verifier::opaque]
pub open spec fn all_mo(s: Seq<PathV>, n: int) -> bool { forall|i: int| 0 <= i < n ==> is_mo(#[trigger] s[i]) }
/// C15: the exit code
pub open spec fn right_code(args: Seq<Seq<char>>, log: Seq<Ev>, code: int) -> bool {
    usage(args) is Some ==> (code == 0 <==> all_mo(chosen(args), chosen(args).len() as int) && clean(log, checking(args)))
}

pub open spec fn pathseq(v: Seq<VPath>) -> Seq<PathV> { v.map_values(|p: VPath| p@) }
pub broadcast proof fn lemma_paths_add(a: Seq<VPath>, b: Seq<VPath>) ensures #[trigger] pathseq(a + b) == pathseq(a) + pathseq(b) { assert(pathseq(a + b) =~= pathseq(a) + pathseq(b)); }
pub broadcast proof fn lemma_paths_push(a: Seq<VPath>, p: VPath) ensures #[trigger] pathseq(a.push(p)) == pathseq(a).push(p@) { assert(pathseq(a.push(p)) =~= pathseq(a).push(p@)); }
pub broadcast proof fn lemma_paths_none() ensures #[trigger] pathseq(Seq::empty()) == Seq::<PathV>::empty() { assert(pathseq(Seq::empty()) =~= Seq::<PathV>::empty()); }
pub broadcast proof fn lemma_one(p: PathV) ensures #[trigger] Seq::<PathV>::empty().push(p) == seq![p] {}
pub broadcast proof fn lemma_nil(s: Seq<PathV>) ensures #[trigger] (s + Seq::<PathV>::empty()) == s { assert(s + Seq::<PathV>::empty() =~= s); }
pub broadcast group group_paths { lemma_paths_add, lemma_paths_push, lemma_paths_none, lemma_nil, axiom_height }
pub broadcast proof fn lemma_reads_push(log: Seq<Ev>, e: Ev)
    ensures #[trigger] reads(log.push(e)) == (match e { Ev::Read(p, _) => reads(log).push(p), _ => reads(log) })
{ assert(log.push(e).drop_last() =~= log); }
/// an event after a settled log
pub broadcast proof fn lemma_settled_push(log: Seq<Ev>, e: Ev)
    ensures
        settled(log) && !(e matches Ev::Read(_, Some(s)) && valid(s) && s != out_text(s)) ==> #[trigger] settled(log.push(e)),
{
    reveal(settled);
    let l2 = log.push(e);
    if settled(log) && !(e matches Ev::Read(_, Some(s)) && valid(s) && s != out_text(s)) {
        assert forall|i: int| 0 <= i < log.len() as int + 1 implies match #[trigger] l2[i] {
            Ev::Read(_, Some(s)) => valid(s) && s != out_text(s) ==> i + 1 < l2.len() && l2[i + 1] is Write, _ => true } by {
            if i < log.len() { assert(l2[i] == log[i]); if i + 1 < log.len() { assert(l2[i + 1] == log[i + 1]); } }
        }
    }
}
/// reading a file and writing it settles it
pub broadcast proof fn lemma_settled_write(log: Seq<Ev>, e: Ev, p: PathV, t: Seq<char>, ok: bool)
    ensures settled(log) ==> #[trigger] settled(log.push(e).push(Ev::Write(p, t, ok)))
{
    reveal(settled);
    let l2 = log.push(e).push(Ev::Write(p, t, ok));
    if settled(log) {
        assert forall|i: int| 0 <= i < log.len() as int + 2 implies match #[trigger] l2[i] {
            Ev::Read(_, Some(s)) => valid(s) && s != out_text(s) ==> i + 1 < l2.len() && l2[i + 1] is Write, _ => true } by {
            if i < log.len() { assert(l2[i] == log[i]); if i + 1 < log.len() { assert(l2[i + 1] == log[i + 1]); } }
        }
    }
}
pub open spec fn clean_ev(e: Ev, check: bool) -> bool {
    match e { Ev::Read(_, Some(s)) => valid(s) && (check ==> s == out_text(s)), Ev::Read(_, None) => false, Ev::Write(_, _, ok) => ok }
}
pub broadcast proof fn lemma_clean_push(log: Seq<Ev>, e: Ev, check: bool)
    ensures #[trigger] clean(log.push(e), check) == (clean(log, check) && clean_ev(e, check))
{
    reveal(clean);
    let l2 = log.push(e);
    assert(l2[log.len() as int] == e);
    if clean(l2, check) {
        assert forall|i: int| 0 <= i < log.len() implies match #[trigger] log[i] { Ev::Read(_, Some(s)) => valid(s) && (check ==> s == out_text(s)), Ev::Read(_, None) => false, Ev::Write(_, _, ok) => ok } by { assert(l2[i] == log[i]); }
    }
    if clean(log, check) && clean_ev(e, check) {
        assert forall|i: int| 0 <= i < l2.len() implies match #[trigger] l2[i] { Ev::Read(_, Some(s)) => valid(s) && (check ==> s == out_text(s)), Ev::Read(_, None) => false, Ev::Write(_, _, ok) => ok } by { if i < log.len() { assert(l2[i] == log[i]); } }
    }
}
pub proof fn lemma_all_mo(s: Seq<PathV>, n: int)
    requires 0 <= n < s.len()
    ensures all_mo(s, n + 1) == (all_mo(s, n) && is_mo(s[n]))
{ reveal(all_mo); }
pub proof fn lemma_start(check: bool)
    ensures settled(seq![]), clean(seq![], check), forall|s: Seq<PathV>| #[trigger] all_mo(s, 0)
{ reveal(settled); reveal(clean); reveal(all_mo); }
pub broadcast group group_log { lemma_reads_push, lemma_settled_push, lemma_settled_write, lemma_clean_push }
pub proof fn lemma_words()
    ensures "-h"@ == seq!['-', 'h'], "--help"@ == seq!['-', '-', 'h', 'e', 'l', 'p'], "-v"@ == seq!['-', 'v'],
        "--version"@ == seq!['-', '-', 'v', 'e', 'r', 's', 'i', 'o', 'n'], "--check"@ == seq!['-', '-', 'c', 'h', 'e', 'c', 'k'],
{
    reveal_strlit("-h"); reveal_strlit("--help"); reveal_strlit("-v"); reveal_strlit("--version"); reveal_strlit("--check");
    assert("-h"@ =~= seq!['-', 'h']);
    assert("--help"@ =~= seq!['-', '-', 'h', 'e', 'l', 'p']);
    assert("-v"@ =~= seq!['-', 'v']);
    assert("--version"@ =~= seq!['-', '-', 'v', 'e', 'r', 's', 'i', 'o', 'n']);
    assert("--check"@ =~= seq!['-', '-', 'c', 'h', 'e', 'c', 'k']);
}
pub proof fn lemma_args(v: Seq<String>, a: Seq<Seq<char>>)
    requires texts(v) == a
    ensures v.len() == a.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i]@ == a[i],
        v.len() >= 2 ==> texts(v.skip(1)) =~= a.skip(1), v.len() >= 3 ==> texts(v.skip(2)) =~= a.skip(2),
{ assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i]@ == a[i] by { assert(texts(v)[i] == v[i]@); } }
