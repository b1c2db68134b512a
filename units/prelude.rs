// Trusted prelude: what is assumed of the standard library beyond vstd. Every item here is listed in the evidence.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, non_camel_case_types)]
#![feature(allocator_api)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::convert::*;
use vstd::string::*;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::borrow::{Cow, ToOwned};
use std::fmt::Debug;
verus! {
//# trust the target has 64-bit addresses
global size_of usize == 8;
pub mod ax {
use super::*;
// Strings with the same characters are the same string.
pub broadcast axiom fn axiom_string_ext(a: String) ensures string_of(#[trigger] a@) == a;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures (#[trigger] a@ == #[trigger] b@) <==> a == b;
pub uninterp spec fn string_of(s: Seq<char>) -> String;
// Every character sequence is some string.
pub broadcast axiom fn axiom_string_of(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s;
// usize::try_from(u16) goes through the blanket implementation and never fails.
pub broadcast axiom fn axiom_usize_u16(k: u16) ensures <usize as TryFromSpec<u16>>::obeys_try_from_spec(),
    #[trigger] <usize as TryFromSpec<u16>>::try_from_spec(k) == Ok::<usize, <usize as TryFrom<u16>>::Error>(k as usize);
// A HashMap with String keys looks a &str up by its characters.
pub broadcast axiom fn axiom_borrowed_key<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) <==> m.contains_key(string_of(k@));
pub broadcast axiom fn axiom_borrowed_value<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.contains_key(string_of(k@)) && m[string_of(k@)] == v;
// String hashes and compares as HashMap needs it.
pub broadcast axiom fn axiom_key_string() ensures #[trigger] obeys_key_model::<String>();
// to_string() of a string type copies the characters, clone() of a Cow<str> too.
pub broadcast axiom fn axiom_cow_to_string(c: Cow<str>, s: String) ensures #[trigger] to_string_from_display_ensures::<Cow<str>>(&c, s) <==> s@ == c@;
pub broadcast axiom fn axiom_string_to_string(c: String, s: String) ensures #[trigger] to_string_from_display_ensures::<String>(&c, s) <==> s@ == c@;
pub broadcast axiom fn axiom_refstr_to_string(c: &str, s: String) ensures #[trigger] to_string_from_display_ensures::<&str>(&c, s) <==> s@ == c@;
pub broadcast axiom fn axiom_cow_clone(c: Cow<str>, s: Cow<str>) ensures #[trigger] cloned(c, s) ==> s@ == c@;
// String == &str, String == str, Cow::from(String), Cow::from(&String): by their characters.
pub broadcast axiom fn axiom_obeys_string_refstr() ensures #[trigger] <String as PartialEqSpec<&'static str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_obeys_string_str() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq_refstr(a: String, b: &str) ensures (#[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b)) == (a@ == b@);
pub broadcast axiom fn axiom_string_eq_str(a: String, b: &str) ensures (#[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b)) == (a@ == b@);
pub broadcast axiom fn axiom_obeys_cow_string() ensures #[trigger] <Cow<'static, str> as FromSpec<String>>::obeys_from_spec();
pub broadcast axiom fn axiom_obeys_cow_refstring() ensures #[trigger] <Cow<'static, str> as FromSpec<&'static String>>::obeys_from_spec();
pub broadcast axiom fn axiom_cow_from_string(s: String) ensures (#[trigger] <Cow<str> as FromSpec<String>>::from_spec(s))@ == s@;
pub broadcast axiom fn axiom_cow_from_refstring(s: &String) ensures (#[trigger] <Cow<str> as FromSpec<&String>>::from_spec(s))@ == s@;
}
use ax::string_of;
broadcast use {vstd::std_specs::hash::group_hash_axioms, ax::axiom_string_ext, ax::axiom_string_of, ax::axiom_usize_u16, ax::axiom_borrowed_key, ax::axiom_borrowed_value,
    ax::axiom_key_string, ax::axiom_cow_to_string, ax::axiom_string_to_string, ax::axiom_refstr_to_string, ax::axiom_cow_clone, ax::axiom_obeys_string_refstr, ax::axiom_obeys_string_str, ax::axiom_string_eq_refstr, ax::axiom_string_eq_str,
    ax::axiom_obeys_cow_string, ax::axiom_obeys_cow_refstring, ax::axiom_cow_from_string, ax::axiom_cow_from_refstring};
pub assume_specification<T: PartialEq> [<[T]>::contains] (v: &[T], x: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).eq_spec(x));


pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (x: &T) -> (r: T)
    ensures cloned(*x, r);
pub assume_specification [<std::string::String as std::convert::AsRef<str>>::as_ref] (x: &std::string::String) -> (r: &str)
    ensures r@ == x@;
pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut std::option::Option<T>, x: T) -> (r: std::option::Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T> [std::mem::replace] (a: &mut T, x: T) -> (r: T)
    ensures r == *old(a), *final(a) == x;
// rule R5
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub uninterp spec fn s_ascii(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_byteq(a: &[u8], b: &str) -> (r: bool) ensures r == (s_ascii(a@) == b@) { a == b.as_bytes() }
// stands for a body when its reachability is checked
#[verifier::external_body]
pub fn vx_unreached<T>() -> T requires false { unimplemented!() }
// rule R6
#[verifier::external_body]
pub fn vx_message() -> (r: String) { String::new() }
// rule R9
#[verifier::external_body]
pub fn vx_append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
// c.clone()
pub fn vx_cow_clone<'a>(c: &Cow<'a, str>) -> (r: Cow<'a, str>) ensures r@ == c@ { match c { Cow::Borrowed(s) => Cow::Borrowed(s), Cow::Owned(s) => Cow::Owned(s.clone()) } }
// &*c (the deref coercion from &Cow<str> to &str)
pub fn vx_cow<'a>(c: &'a Cow<str>) -> (r: &'a str) ensures r@ == c@ { match c { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
    ensures r == &**b;
// o.as_mut().map(|x| x.as_mut())
pub fn vx_opt_box_mut<T>(o: &mut Option<Box<T>>) -> (r: Option<&mut T>)
    ensures match r { Some(x) => *old(o) is Some && *x == *old(o)->0 && *final(o) == Some(Box::new(*final(x))), None => *old(o) is None && *final(o) == *old(o) }
{
    match o { Some(b) => Some(&mut **b), None => None }
}
}
