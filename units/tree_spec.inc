// The element tree. t_parent: what an element is attached to, t_data: what it consists of.
pub open spec fn t_parent(s: Seq<Option<Box<ElementData>>>, i: int) -> Option<int> { if 0 <= i < s.len() && s[i] is Some { match s[i]->0.parent { Some(p) => Some(p as int), None => None } } else { None } }
pub open spec fn t_data(s: Seq<Option<Box<ElementData>>>, i: int) -> Seq<DataType> { if 0 <= i < s.len() && s[i] is Some { s[i]->0.data@ } else { Seq::empty() } }
pub open spec fn t_el(k: int) -> DataType { DataType::Element(k as ElementKey) }
// no element is twice among the data
pub open spec fn t_once(data: Seq<DataType>) -> bool { forall|a: int, b: int| 0 <= a < b < data.len() && (#[trigger] data[a]) is Element ==> #[trigger] data[b] != data[a] }
pub open spec fn t_rank(s: Seq<Option<Box<ElementData>>>, rank: spec_fn(int) -> nat) -> bool { forall|i: int| 0 <= i < s.len() ==> match #[trigger] t_parent(s, i) { Some(p) => rank(p) < rank(i), None => true } }
// parents and children agree, every child is there once and in no other element, and nothing is below itself
pub open spec fn t_tree(s: Seq<Option<Box<ElementData>>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> match #[trigger] t_parent(s, i) { Some(p) => 0 <= p < s.len() && t_data(s, p).contains(t_el(i)), None => true }
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t_data(s, i).len() ==> match #[trigger] t_data(s, i)[j] { DataType::Element(k) => k < s.len() && t_parent(s, k as int) == Some(i), _ => true }
    &&& forall|i: int| 0 <= i < s.len() ==> t_once(#[trigger] t_data(s, i))
    &&& exists|rank: spec_fn(int) -> nat| t_rank(s, rank)
}
// a is reached from i in at most f steps to the parent
pub open spec fn t_reach(s: Seq<Option<Box<ElementData>>>, i: int, a: int, f: nat) -> bool
    decreases f
{
    i == a || (f > 0 && match t_parent(s, i) { Some(p) => t_reach(s, p, a, (f - 1) as nat), None => false })
}
// a is i, or i is below it
pub open spec fn t_above(s: Seq<Option<Box<ElementData>>>, i: int, a: int) -> bool { exists|f: nat| t_reach(s, i, a, f) }
// what is above i has not changed
pub open spec fn t_up(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>, i: int) -> bool { forall|a: int| #[trigger] t_above(s, i, a) ==> t_parent(t, a) == t_parent(s, a) }
// where x is first
pub open spec fn t_first(data: Seq<DataType>, x: DataType, i: int) -> bool { 0 <= i < data.len() && data[i] == x && forall|j: int| 0 <= j < i ==> #[trigger] data[j] != x }
pub open spec fn t_without(data: Seq<DataType>, x: DataType) -> Seq<DataType> { if data.contains(x) { data.remove(choose|i: int| t_first(data, x, i)) } else { data } }
// everything but the links between elements
pub open spec fn t_same(a: ElementData, b: ElementData) -> bool { a.elementtype == b.elementtype && a.attribs == b.attribs && a.key == b.key }
pub open spec fn t_kept(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>) -> bool {
    s.len() <= t.len() && forall|i: int| 0 <= i < s.len() ==> s[i] is Some && (#[trigger] t[i]) is Some && t_same(*s[i]->0, *t[i]->0)
}
// child has been attached to parent, as its last
pub open spec fn t_attached(s: Seq<Option<Box<ElementData>>>, parent: int, child: int, t: Seq<Option<Box<ElementData>>>) -> bool {
    &&& s.len() == t.len() && t_kept(s, t)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] t_parent(t, i) == (if i == child { Some(parent) } else { t_parent(s, i) })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] t_data(t, i) == t_moved(s, parent, child, i)
    &&& forall|i: int| 0 <= i < s.len() && i != parent && i != child && t_parent(s, child) != Some(i) ==> #[trigger] t[i] == s[i]
}
pub open spec fn t_moved(s: Seq<Option<Box<ElementData>>>, parent: int, child: int, i: int) -> Seq<DataType> {
    let kept = if t_parent(s, child) == Some(i) { t_without(t_data(s, i), t_el(child)) } else { t_data(s, i) };
    if i == parent { kept.push(t_el(child)) } else { kept }
}
// child has been taken from its parent
pub open spec fn t_detached(s: Seq<Option<Box<ElementData>>>, child: int, t: Seq<Option<Box<ElementData>>>) -> bool {
    &&& s.len() == t.len() && t_kept(s, t)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] t_parent(t, i) == (if i == child { None } else { t_parent(s, i) })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] t_data(t, i) == (if t_parent(s, child) == Some(i) { t_without(t_data(s, i), t_el(child)) } else { t_data(s, i) })
    &&& forall|i: int| 0 <= i < s.len() && i != child && t_parent(s, child) != Some(i) ==> #[trigger] t[i] == s[i]
}
// the invariant of the elements of a document
pub open spec fn t_inv(d: Document) -> bool {
    &&& s_elems_inv(d) && t_tree(s_elems(d)) && s_elems(d).len() <= 0x1_0000_0000
    &&& forall|i: int| 0 <= i < s_elems(d).len() ==> (#[trigger] s_elems(d)[i]) is Some && s_elems(d)[i]->0.key == Some(i as ElementKey)
}
// d without its elements and declarations
pub open spec fn t_rest(d: Document) -> Document { Document { declarationstore: arbitrary(), ..s_but_elems(d) } }
// f holds for a new element and all new ones in it
pub open spec fn t_every(e: ElementData, f: spec_fn(ElementData) -> bool) -> bool
    decreases e
{
    f(e) && forall|j: int| 0 <= j < e.data@.len() ==> match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, f), _ => true }
}
// an element as one makes it: without a parent, and not mixing encoded and other attributes
pub open spec fn t_plain(e: ElementData) -> bool { e.parent is None && (s_any_encodable(e.attribs@) ==> s_none_decodable(e.attribs@)) }
pub open spec fn t_given(e: ElementData) -> bool { t_every(e, |x: ElementData| t_plain(x)) }
// the existing elements it is given as children are below n
pub open spec fn t_under(e: ElementData, n: int) -> bool { forall|j: int| 0 <= j < e.data@.len() ==> match #[trigger] e.data@[j] { DataType::Element(k) => k < n, _ => true } }
pub open spec fn t_bound(e: ElementData, n: int) -> bool { t_every(e, |x: ElementData| t_under(x, n)) }
// k is not among the existing elements it is given as children
pub open spec fn t_lacks(e: ElementData, k: int) -> bool { forall|j: int| 0 <= j < e.data@.len() ==> match #[trigger] e.data@[j] { DataType::Element(x) => x != k, _ => true } }
pub open spec fn t_free(e: ElementData, k: int) -> bool { t_every(e, |x: ElementData| t_lacks(x, k)) }
// the references to spans it is given are below n
pub open spec fn t_refs_under(e: ElementData, n: int) -> bool { forall|j: int| 0 <= j < e.data@.len() ==> match #[trigger] e.data@[j] { DataType::SpanReference(k) => k < n, _ => true } }
pub open spec fn t_refs(e: ElementData, n: int) -> bool { t_every(e, |x: ElementData| t_refs_under(x, n)) }
// what the selections need of the elements
#[verifier::opaque]
pub open spec fn t_fine(s: Seq<Option<Box<ElementData>>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> s_none_encodable(s[i]->0.attribs@)
    &&& forall|i: int, c: int| 0 <= i < s.len() && 0 <= c < t_data(s, i).len() ==> match #[trigger] t_data(s, i)[c] { DataType::SpanReference(k) => k < s.len(), _ => true }
}
// how often an ID is in a new element and the new ones in it, and how many elements it is
pub open spec fn t_count(e: ElementData, id: Seq<char>) -> nat
    decreases e, e.data@.len() + 1
{ (if s_el_id(e) == Some(id) { 1nat } else { 0 }) + t_count_in(e, e.data@.len(), id) }
pub open spec fn t_count_in(e: ElementData, n: nat, id: Seq<char>) -> nat
    decreases e, n
{ if n == 0 || n > e.data@.len() { 0 } else { t_count_in(e, (n - 1) as nat, id) + match e.data@[n - 1] { DataType::AddElement(x) => t_count(x, id), _ => 0 } } }
pub open spec fn t_size(e: ElementData) -> nat
    decreases e, e.data@.len() + 1
{ 1 + t_size_in(e, e.data@.len()) }
pub open spec fn t_size_in(e: ElementData, n: nat) -> nat
    decreases e, n
{ if n == 0 || n > e.data@.len() { 0 } else { t_size_in(e, (n - 1) as nat) + match e.data@[n - 1] { DataType::AddElement(x) => t_size(x), _ => 0 } } }
// its IDs are not in use
pub open spec fn t_new_ids(d: Document, e: ElementData) -> bool { forall|id: Seq<char>| #[trigger] t_count(e, id) <= 1 && (t_count(e, id) == 1 ==> s_lookup(d.elementstore.index@, id) is None) }
// the existing elements it is given as children are there, and none of them is what it is going to be added to, or above that
pub open spec fn t_there(d: Document, parent: Option<ElementKey>, e: ElementData) -> bool {
    forall|j: int| 0 <= j < e.data@.len() ==> match #[trigger] e.data@[j] { DataType::Element(k) => k < s_elems(d).len() && (parent is Some ==> !t_above(s_elems(d), parent->0 as int, k as int)), _ => true }
}
pub open spec fn t_all_there(d: Document, parent: Option<ElementKey>, e: ElementData) -> bool { t_every(e, |x: ElementData| t_there(d, parent, x)) }
pub open spec fn t_ok_from(e: ElementData, n: int, f: spec_fn(ElementData) -> bool) -> bool { forall|j: int| n <= j < e.data@.len() ==> match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, f), _ => true } }
// what stays the same however much is added
pub open spec fn t_grown(d: Document, e: Document) -> bool {
    &&& t_rest(e) == t_rest(d) && s_decs_grown(d, e) && t_kept(s_elems(d), s_elems(e))
    &&& forall|id: Seq<char>| s_lookup(d.elementstore.index@, id) is Some ==> #[trigger] s_lookup(e.elementstore.index@, id) == s_lookup(d.elementstore.index@, id)
}
// what adding el to d does not change (whether it succeeds or not)
pub open spec fn t_added(d: Document, el: ElementData, e: Document) -> bool {
    &&& t_grown(d, e)
    &&& forall|id: Seq<char>| #[trigger] s_lookup(e.elementstore.index@, id) is Some ==> s_lookup(d.elementstore.index@, id) is Some || t_count(el, id) == 1
    &&& forall|i: int| #[trigger] t_free(el, i) && 0 <= i < s_elems(d).len() ==> #[trigger] t_parent(s_elems(e), i) == t_parent(s_elems(d), i)
    &&& t_fine(s_elems(d)) && t_refs(el, s_elems(d).len() as int) ==> t_fine(s_elems(e))
    &&& t_bound(el, 0) ==> forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_elems(e)[i] == s_elems(d)[i]
}
// element k has got what was given: it was encoded in an earlier state that f has grown from
#[verifier::opaque]
pub open spec fn t_enc(f: Document, k: int, context: Option<ElementKey>, el: ElementData) -> bool {
    exists|p: Document, g: ElementData, q: Document, x: ElementData| #[trigger] s_encode_el(p, g, context, q, Ok(x)) && s_encode_el_pre(p, g) && s_same_but_data(g, el) && s_elem(f, k) is Some && s_elem(f, k)->0.attribs == x.attribs && s_elem(f, k)->0.elementtype == x.elementtype
        && s_decs_grown(q, f) && t_rest(p) == t_rest(f) && match context { Some(c) => match s_elem(p, c as int) { Some(y) => s_elem(f, c as int) is Some && t_same(y, s_elem(f, c as int)->0), None => true }, None => true }
}
// element k is the new element el, complete with the new elements in it, in the order in which they were given
pub open spec fn t_born(d: Document, k: int, context: Option<ElementKey>, el: ElementData) -> bool
    decreases el
{
    &&& 0 <= k < s_elems(d).len() && t_enc(d, k, context, el) && t_data(s_elems(d), k).len() == el.data@.len()
    &&& forall|j: int| 0 <= j < el.data@.len() ==> match #[trigger] el.data@[j] {
        DataType::AddElement(c) => match t_data(s_elems(d), k)[j] { DataType::Element(x) => k < x && t_parent(s_elems(d), x as int) == Some(k) && t_born(d, x as int, Some(k as ElementKey), c), _ => false },
        y => t_data(s_elems(d), k)[j] == y }
}
pub open spec fn t_kid(d: Document, k: int, given: DataType, is: DataType) -> bool {
    match given {
        DataType::AddElement(c) => match is { DataType::Element(x) => k < x && t_parent(s_elems(d), x as int) == Some(k) && t_born(d, x as int, Some(k as ElementKey), c), _ => false },
        y => is == y }
}
// the keys from lo up to hi have been added to the list, each once
pub open spec fn t_list(before: Seq<ElementKey>, after: Seq<ElementKey>, lo: int, hi: int) -> bool {
    &&& after.len() == before.len() + hi - lo && before.is_prefix_of(after)
    &&& forall|i: int| lo <= i < hi ==> #[trigger] t_listed(after, before.len() as int, i)
    &&& forall|j: int| before.len() <= j < after.len() ==> lo <= #[trigger] after[j] < hi
}
pub open spec fn t_listed(s: Seq<ElementKey>, from: int, i: int) -> bool { exists|j: int| from <= j < s.len() && #[trigger] s[j] == i }
