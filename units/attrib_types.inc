//# item src/types.rs type ElementKey
//# item src/types.rs type ProcKey
//# item src/types.rs type DecKey
//# item src/types.rs type SubsetKey
//# item src/types.rs type ClassKey
//# item src/types.rs enum ElementType derive(Debug,Copy,Clone,PartialEq,Eq,Structural)
//# item src/types.rs enum ElementGroup derive(Debug,Copy,Clone,PartialEq,Eq,Structural)
//# item src/types.rs enum DataType
//# item src/metadata.rs enum ProcessorType derive(Debug,Copy,Clone,PartialEq,Eq,Structural)
//# item src/attrib.rs enum AttribType derive(Copy,Clone,PartialEq,Eq,Structural)
//# item src/attrib.rs enum Attribute
//# item src/element.rs struct ElementData
// the derived PartialEq of ElementType is structural equality
pub broadcast axiom fn axiom_et_obeys() ensures #[trigger] <ElementType as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_et_eq(a: ElementType, b: ElementType) ensures (#[trigger] <ElementType as PartialEqSpec>::eq_spec(&a, &b)) == (a == b);
