#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, non_camel_case_types, unreachable_code, unused_must_use)]
use vstd::prelude::*;
verus! {

broadcast use vstd::seq_lib::group_seq_properties;

// ---------------------------------------------------------------- trusted: strings
// std's formatting, concatenation and copying of strings.

#[verifier::external_body]
pub fn v_string(s: &str) -> (r: String)
    ensures r@ == s@
{ String::from(s) }

#[verifier::external_body]
pub fn v_lit(out: &mut String, s: &str)
    ensures final(out)@ == old(out)@ + s@
{ out.push_str(s) }

pub trait VDisp { spec fn disp(&self) -> Seq<char>; }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
/// decimal numerals of `usize`
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![('0' as u8 + n) as char] } else { dec(n / 10).push(('0' as u8 + n % 10) as char) }
}
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }

#[verifier::external_body]
pub fn v_disp<T: VDisp + ?Sized>(out: &mut String, x: &T)
    ensures final(out)@ == old(out)@ + x.disp()
{ unimplemented!() }

pub uninterp spec fn debug_text<T>(x: T) -> Seq<char>;
#[verifier::external_body]
pub fn v_debug<T>(out: &mut String, x: &T)
    ensures final(out)@ == old(out)@ + debug_text(*x)
{ unimplemented!() }

#[verifier::external_body]
pub fn v_str_add(mut a: String, b: &str) -> (r: String)
    ensures r@ == a@ + b@
{ a.push_str(b); a }

#[verifier::external_body]
pub fn v_streq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ a == b }

pub open spec fn joined(s: Seq<String>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { s[0]@ }
    else { joined(s.drop_last(), sep) + sep + s.last()@ }
}
pub trait VJoin { spec fn parts(&self) -> Seq<String>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.parts(), sep@); }
impl VJoin for Vec<String> {
    open spec fn parts(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}

// ---------------------------------------------------------------- panics

#[verifier::external_body]
pub fn v_panic() -> !
    requires false
{ panic!() }

pub fn v_assert(c: bool)
    requires c
{ }

// ---------------------------------------------------------------- trusted: iterators of Vec and slices

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VIter<T> { it: std::vec::IntoIter<T> }
impl<T> VIter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn done(&self) -> int;
    pub open spec fn more(&self) -> bool { self.done() < self.all().len() }
    pub open spec fn cur(&self) -> T { self.all()[self.done()] }
    pub open spec fn wf(&self) -> bool { 0 <= self.done() <= self.all().len() }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).all() == old(self).all(),
            final(self).wf(),
            old(self).more() ==> r == Some(old(self).cur()) && final(self).done() == old(self).done() + 1,
            !old(self).more() ==> r is None && final(self).done() == old(self).done(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>)
        requires old(self).wf(),
        ensures
            final(self).all() == old(self).all(), final(self).done() == old(self).done(),
            old(self).more() ==> r is Some && *r->0 == old(self).cur(),
            !old(self).more() ==> r is None,
    { unimplemented!() }

    pub fn v_peekable(self) -> (r: VIter<T>) ensures r == self { self }
    pub fn v_into_iter(self) -> (r: VIter<T>) ensures r == self { self }

    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r.done() == 0, r.wf(), r.all() == enumerated(self.all().skip(self.done())), self.all().len() <= usize::MAX,
    { unimplemented!() }
}
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> {
    Seq::new(s.len(), |i: int| (i as usize, s[i]))
}
pub trait VIntoIter<T> : Sized {
    spec fn elems(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VIter<T>) ensures r.all() == self.elems(), r.done() == 0, r.wf();
}
impl<T> VIntoIter<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter<&'a T> for &'a Vec<T> {
    open spec fn elems(&self) -> Seq<&'a T> { refs((*self)@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter<&'a T> for &'a [T] {
    open spec fn elems(&self) -> Seq<&'a T> { refs((*self)@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub trait VLastMut<T> {
    spec fn at_end(&self) -> Seq<T>;
    fn v_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures
            old(self).at_end().len() == 0 ==> r is None && final(self).at_end() == old(self).at_end(),
            old(self).at_end().len() > 0 ==> r is Some && *r->0 == old(self).at_end().last() && final(self).at_end() == old(self).at_end().drop_last().push(*final(r->0));
}
impl<T> VLastMut<T> for Vec<T> {
    open spec fn at_end(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_last_mut(&mut self) -> (r: Option<&mut T>) { self.last_mut() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VIterRef<T> {
    spec fn elems_ref(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r.all() == refs(self.elems_ref()), r.done() == 0, r.wf();
}
impl<T> VIterRef<T> for Vec<T> {
    open spec fn elems_ref(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VIterRef<T> for [T] {
    open spec fn elems_ref(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
