// stand-ins for types of other crates that no function under contract looks into
#[derive(Debug)] #[verifier::external_body] pub struct IoError { x: std::io::Error }
#[derive(Debug)] pub struct XmlError { pub x: u8 }
pub struct Specification { pub x: u8 }
//# sub /io::Error/ => /IoError/
//# sub /quick_xml::Error/ => /XmlError/
//# trust a RefCell that is only used through an owned value is its content
//# sub /RefCell<Vec<Processor>>/ => /Vec<Processor>/
//# item src/error.rs enum FoliaError derive(Debug)
//# item src/types.rs enum AnnotationType derive(Copy,Clone,PartialEq,Eq,Structural,Hash)
//# item src/metadata.rs struct Declaration
//# item src/metadata.rs struct ClassStore
//# item src/metadata.rs struct SubsetStore
//# item src/metadata.rs struct DeclarationStore
//# item src/metadata.rs struct ProvenanceStore
//# item src/metadata.rs struct Processor
//# item src/metadata.rs struct Metadata
//# item src/elementstore.rs struct ElementStore
//# item src/document.rs struct Document
