//# include prelude.rs
verus! {
#[derive(Clone, Copy)] pub struct NaiveDateTime { pub secs: i64 }   // opaque: no function here looks inside
//# include attrib_types.inc
//# include doc_types.inc
//# include vx_iter.inc
//# unit-mode names
//# include names_at.inc
//# include names_el.inc
//# unit-mode attribs
//# include attrib_fns.inc
//# unit-mode elements
//# include element_read.inc
//# unit-mode store
//# include store_trait.inc
//# include doc_spec.inc
//# include doc_store.inc
//# unit-mode strings
//# include strings.inc

//# unit-mode reading
//# include reading.inc
//# unit-mode declare
//# include declare.inc
//# unit-mode processors
//# include procs.inc
//# unit-mode matching
//# include matching.inc
//# unit-mode select
//# include select.inc
//# unit-mode post
//# include post.inc
//# unit-mode tree
//# include tree.inc
//# unit-mode add
//# include add.inc
}
