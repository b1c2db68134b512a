//# include tables.inc
//# include tables_at.inc
impl AnnotationType {
//# fn src/types.rs AnnotationType::as_str
//# ret r
//# spec
    ensures r@ == s_at_name(*self)
//# endfn
//# fn src/types.rs AnnotationType::from_str
//# ret r
//# spec
    ensures match r { Some(t) => s_at_name(t) == s@, None => !s_at_is_name(s@) }
//# endfn
//# fn src/types.rs AnnotationType::as_element_str
//# ret r
//# spec
    ensures r@ == s_at_tag(*self)
//# endfn
//# fn src/types.rs AnnotationType::layertype
//# ret r
//# spec
    ensures r == s_at_layer(*self)
//# endfn
//# fn src/types.rs AnnotationType::elementtype
//# ret r
//# spec
    ensures r == s_at_element(*self)
//# endfn
}
