// Adding an element with everything in it, and what happens to all of that once it is in its place.
// the new elements have been dealt with, in the order in which they are listed; w is what the document was before each and after the last
pub open spec fn s_posted_all(w: Seq<Document>, keys: Seq<ElementKey>) -> bool {
    w.len() == keys.len() + 1 && forall|n: int| 0 <= n < keys.len() ==> s_posted_at(w, keys, n)
}
pub open spec fn s_posted_at(w: Seq<Document>, keys: Seq<ElementKey>, n: int) -> bool { s_posted(w[n], keys[n] as int, None, w[n + 1], Ok(())) }
// el and the new elements in it are there: it is k, the others are listed
pub open spec fn s_added_as(d: Document, parent: Option<ElementKey>, el: ElementData, d1: Document, k: ElementKey, keys: Seq<ElementKey>) -> bool {
    &&& t_inv(d1) && t_added(d, el, d1) && k == s_elems(d).len() && s_elems(d1).len() == k + t_size(el) && t_parent(s_elems(d1), k as int) is None && t_list(Seq::empty(), keys, k + 1, s_elems(d1).len() as int)
    &&& t_bound(el, 0) ==> t_born(d1, k as int, parent, el)
}
pub open spec fn s_placed(d1: Document, parent: Option<ElementKey>, k: ElementKey, d2: Document) -> bool {
    match parent { None => d2 == d1, Some(p) => s_but_elems(d2) == s_but_elems(d1) && d2.elementstore.index@ == d1.elementstore.index@ && t_attached(s_elems(d1), p as int, k as int, s_elems(d2)) }
}
pub open spec fn s_to_post(parent: Option<ElementKey>, k: ElementKey, keys: Seq<ElementKey>) -> Seq<ElementKey> { if parent is Some { keys.push(k) } else { keys } }
pub open spec fn s_added_el(d: Document, parent: Option<ElementKey>, el: ElementData, m: Document, k: ElementKey) -> bool {
    exists|d1: Document, keys: Seq<ElementKey>, w: Seq<Document>| #[trigger] s_added_as(d, parent, el, d1, k, keys) && #[trigger] s_posted_all(w, s_to_post(parent, k, keys)) && s_placed(d1, parent, k, w[0]) && s_sound(d1) && s_sound(w[0]) && w.last() == m
}
pub open spec fn s_sound(d: Document) -> bool { s_good(d) && s_refs_ok(d) && s_doc_inv(d) }
