// The state of a document as the contracts see it.
// a list of strings and its index (StringStore): the index is exactly the inverse of the list
pub open spec fn ss_inv<Key>(items: Seq<Option<String>>, index: Map<String, Key>) -> bool where usize: TryFrom<Key> {
    &&& forall|s: String| #[trigger] index.contains_key(s) ==> 0 <= s_idx(index[s]) < items.len() && items[s_idx(index[s])] == Some(s)
    &&& forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]) is Some && index.contains_key(items[i]->0) && s_idx(index[items[i]->0]) == i
}
pub open spec fn s_classes_ok(c: Option<ClassStore>) -> bool { c is Some ==> ss_inv(c->0.items@, c->0.index@) }
pub open spec fn s_subsets_ok(c: Option<SubsetStore>) -> bool { c is Some ==> ss_inv(c->0.items@, c->0.index@) }
pub open spec fn s_dec_ok(d: Declaration) -> bool { s_classes_ok(d.classes) && s_subsets_ok(d.subsets) && s_classes_ok(d.subclasses) }
// the strings of a store, by key
pub open spec fn s_strings(c: Option<ClassStore>) -> Seq<Option<String>> { match c { Some(c) => c.items@, None => Seq::empty() } }
pub open spec fn s_strings2(c: Option<SubsetStore>) -> Seq<Option<String>> { match c { Some(c) => c.items@, None => Seq::empty() } }
pub open spec fn s_opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
// the name an annotation type and a set are indexed under
pub open spec fn s_dec_id(t: AnnotationType, set: Option<Seq<char>>) -> Seq<char> { match set { Some(s) => s_at_name(t) + seq!['/'] + s, None => s_at_name(t) } }
pub open spec fn s_elems(d: Document) -> Seq<Option<Box<ElementData>>> { d.elementstore.items@ }
pub open spec fn s_decs(d: Document) -> Seq<Option<Box<Declaration>>> { d.declarationstore.items@ }
pub open spec fn s_procs(d: Document) -> Seq<Option<Box<Processor>>> { d.provenancestore.items@ }
pub open spec fn s_elem(d: Document, k: int) -> Option<ElementData> { if 0 <= k < s_elems(d).len() && s_elems(d)[k] is Some { Some(*s_elems(d)[k]->0) } else { None } }
pub open spec fn s_dec(d: Document, k: int) -> Option<Declaration> { if 0 <= k < s_decs(d).len() && s_decs(d)[k] is Some { Some(*s_decs(d)[k]->0) } else { None } }
pub open spec fn s_proc(d: Document, k: int) -> Option<Processor> { if 0 <= k < s_procs(d).len() && s_procs(d)[k] is Some { Some(*s_procs(d)[k]->0) } else { None } }
pub open spec fn s_elems_inv(d: Document) -> bool { s_inv::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@) }
pub open spec fn s_decs_inv(d: Document) -> bool { s_inv::<Declaration, DecKey>(d.declarationstore.items@, d.declarationstore.index@) && forall|i: int| 0 <= i < s_decs(d).len() ==> (#[trigger] s_decs(d)[i]) is Some && s_dec_ok(*s_decs(d)[i]->0) }
pub open spec fn s_procs_inv(d: Document) -> bool { s_inv::<Processor, ProcKey>(d.provenancestore.items@, d.provenancestore.index@) }
pub open spec fn s_doc_inv(d: Document) -> bool { s_elems_inv(d) && s_decs_inv(d) && s_procs_inv(d) }
// d with one of its stores blanked out: what the others and the rest of the document are
pub open spec fn s_but_elems(d: Document) -> Document { Document { elementstore: ElementStore { items: arbitrary(), index: arbitrary(), ..d.elementstore }, ..d } }
pub open spec fn s_but_decs(d: Document) -> Document { Document { declarationstore: arbitrary(), ..d } }
pub open spec fn s_but_procs(d: Document) -> Document { Document { provenancestore: ProvenanceStore { items: arbitrary(), index: arbitrary(), ..d.provenancestore }, ..d } }
pub open spec fn s_but_provenance(d: Document) -> Document { Document { provenancestore: arbitrary(), ..d } }
