// What the specification says about element types. The table itself is not looked into.
//# item src/specification.rs struct Properties
//# trust the properties of an element type are a function of the specification: Specification::get is a lookup in a table that has all types
pub uninterp spec fn s_props(s: Specification, t: ElementType) -> Properties;
impl Specification {
#[verifier::external_body]
pub fn get(&self, elementtype: ElementType) -> (r: &Properties) ensures *r == s_props(*self, elementtype) { unimplemented!() }
}
pub open spec fn s_props_of(d: Document, t: ElementType) -> Properties { s_props(d.elementstore.specification, t) }
impl Document {
//# fn src/document.rs Document::props
//# ret r
//# spec
    ensures *r == s_props_of(*self, elementtype)
//# endfn
}
