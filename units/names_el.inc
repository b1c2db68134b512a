//# include tables_el.inc
impl ElementType {
//# fn src/types.rs ElementType::as_str
//# ret r
//# spec
    ensures r@ == s_el_name(*self)
//# endfn
//# fn src/types.rs ElementType::annotationtype
//# ret r
//# spec
    ensures r == s_el_at(*self)
//# endfn
//# fn src/types.rs ElementType::is_in_group
//# ret r
//# spec
    ensures r == s_in_group(group, *self)
//# endfn
}
//# if prove
impl ElementType {
//# fn src/types.rs std::str::FromStr/ElementType::from_str
//# tsub /Self::Err/ => /FoliaError/
//# ret r
//# spec
    ensures match r { Ok(t) => s_el_name(t) == tag@, Err(_) => !s_el_is_name(tag@) }
//# endfn
}
//# end-if
impl ElementGroup {
//# fn src/types.rs ElementGroup::elementtypes
//# ret r
//# spec
    ensures forall|t: ElementType| #[trigger] s_in_group(*self, t) == (exists|i: int| 0 <= i < r@.len() && r@[i] == t)
//# endfn
//# fn src/types.rs ElementGroup::contains
//# ret r
//# spec
    ensures r == s_in_group(*self, elementtype)
//# ghost start
    proof { broadcast use {axiom_et_obeys, axiom_et_eq}; }
//# endfn
}
