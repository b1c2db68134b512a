// Walking over the elements of a document.
// how far below the deepest element an element is at most: what gets smaller on the way down
pub open spec fn t_rk(s: Seq<Option<Box<ElementData>>>) -> spec_fn(int) -> nat { choose|rank: spec_fn(int) -> nat| t_rank(s, rank) }
pub open spec fn t_top(s: Seq<Option<Box<ElementData>>>, n: nat, h: nat) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] t_rk(s)(i) <= h }
pub open spec fn t_height(s: Seq<Option<Box<ElementData>>>, i: int) -> nat { let h = choose|h: nat| t_top(s, s.len(), h); if t_rk(s)(i) <= h { (h - t_rk(s)(i)) as nat } else { 0 } }
pub open spec fn t_depth(s: Seq<Option<Box<ElementData>>>, i: int) -> nat { t_rk(s)(i) }
pub proof fn lemma_t_top(s: Seq<Option<Box<ElementData>>>, n: nat)
    requires n <= s.len()
    ensures exists|h: nat| t_top(s, n, h)
    decreases n
{
    if n > 0 {
        lemma_t_top(s, (n - 1) as nat);
        let m = (n - 1) as nat;
        let h = choose|h: nat| t_top(s, m, h);
        let x = t_rk(s)(n - 1);
        let g = if h < x { x } else { h };
        assert(t_top(s, n, g));
    } else { assert(t_top(s, 0, 0)); }
}
// a child is further down than its parent
pub proof fn lemma_t_height(s: Seq<Option<Box<ElementData>>>, p: int, c: int)
    requires t_tree(s), 0 <= c < s.len(), t_parent(s, c) == Some(p)
    ensures t_height(s, c) < t_height(s, p), t_depth(s, p) < t_depth(s, c), 0 <= p < s.len()
{
    lemma_t_top(s, s.len());
    let g = choose|h: nat| t_top(s, s.len(), h);
    assert(t_rank(s, t_rk(s)));
    assert(t_rk(s)(p) < t_rk(s)(c));
    assert(t_rk(s)(c) <= g && t_rk(s)(p) <= g);
}
//# item src/specification.rs enum AcceptedData
//# item src/select.rs enum Recursion
pub open spec fn s_accepts(a: AcceptedData, t: ElementType) -> bool { match a { AcceptedData::AcceptElementType(x) => x == t, AcceptedData::AcceptElementGroup(g) => s_in_group(g, t) } }
pub open spec fn s_accepted(v: Seq<AcceptedData>, t: ElementType) -> bool { exists|i: int| 0 <= i < v.len() && s_accepts(#[trigger] v[i], t) }
// whether to go on below an element of this type
pub open spec fn s_goes(r: Recursion, t: ElementType) -> bool { match r { Recursion::No => false, Recursion::Always => true, Recursion::LimitedTo(v) => s_accepted(v@, t), Recursion::ExceptFor(v) => !s_accepted(v@, t) } }
// where a data item is: in which element, the how manieth there, how deep
pub struct Spot { pub at: int, pub cursor: int, pub depth: nat }
pub open spec fn s_item(d: Document, p: Spot) -> DataType { t_data(s_elems(d), p.at)[p.cursor] }
pub open spec fn s_goes_at(d: Document, r: Recursion, k: int) -> bool { s_goes(r, s_elems(d)[k]->0.elementtype) }
// all data items from a cursor in an element, in document order
pub open spec fn s_walk(d: Document, r: Recursion, k: int, c: int, depth: nat) -> Seq<Spot>
    decreases t_height(s_elems(d), k), t_data(s_elems(d), k).len() - c when t_inv(d) && 0 <= c via s_walk_ends
{
    if c >= t_data(s_elems(d), k).len() { Seq::empty() }
    else {
        seq![Spot { at: k, cursor: c, depth: depth }]
        + (if s_goes_at(d, r, k) { match t_data(s_elems(d), k)[c] { DataType::Element(x) => s_walk(d, r, x as int, 0, depth + 1), _ => Seq::empty() } } else { Seq::empty() })
        + s_walk(d, r, k, c + 1, depth)
    }
}
#[via_fn]
proof fn s_walk_ends(d: Document, r: Recursion, k: int, c: int, depth: nat) {
    let s = s_elems(d);
    if c < t_data(s, k).len() { if let DataType::Element(x) = t_data(s, k)[c] { assert(0 <= k < s.len()); assert(t_parent(s, x as int) == Some(k)); lemma_t_height(s, k, x as int); } }
}
// what is below the data item at a cursor
pub open spec fn s_under(d: Document, r: Recursion, k: int, c: int, depth: nat) -> Seq<Spot> {
    if s_goes_at(d, r, k) { match t_data(s_elems(d), k)[c] { DataType::Element(x) => s_walk(d, r, x as int, 0, depth + 1), _ => Seq::empty() } } else { Seq::empty() }
}
// what is still to come: the top of the stack first
pub open spec fn s_to_come(d: Document, r: Recursion, stack: Seq<(ElementKey, usize)>) -> Seq<Spot>
    decreases stack.len()
{
    if stack.len() == 0 { Seq::empty() } else { s_walk(d, r, stack.last().0 as int, stack.last().1 as int, stack.len()) + s_to_come(d, r, stack.drop_last()) }
}
//# item src/select.rs struct SelectIterator
//# item src/select.rs struct SelectItem
//# item src/select.rs struct SelectElementsIterator
//# item src/select.rs struct SelectElementsItem
//# item src/select.rs struct AncestorIterator
// the elements that have been marked as returned
pub open spec fn s_marked(v: Seq<bool>, offset: int, k: int) -> bool { offset <= k < offset + v.len() && v[k - offset] }
pub open spec fn s_same_walk(a: SelectIterator, b: SelectIterator) -> bool { *a.document == *b.document && a.selector == b.selector && a.recursion == b.recursion && a.inclusive == b.inclusive && a.spanreferences == b.spanreferences }
// the span annotation a data item stands for
pub open spec fn s_span_of(d: Document, item: DataType) -> Option<int> {
    match item { DataType::SpanReference(k) => Some(k as int), DataType::Element(k) => match s_elem(d, k as int) { Some(e) => if s_in_group(ElementGroup::Span, e.elementtype) { Some(k as int) } else { None }, None => None }, _ => None }
}
pub open spec fn s_dup(it: SelectIterator, item: DataType) -> bool { it.spanreferences && match s_span_of(*it.document, item) { Some(k) => s_marked(it.returned@, it.returned_offset as int, k), None => false } }
pub open spec fn s_yields(it: SelectIterator, item: DataType) -> bool { s_matches(*it.document, it.selector, item) && !s_dup(it, item) }
// what holds of a document between the calls of its functions
#[verifier::opaque]
pub open spec fn s_good(d: Document) -> bool { t_inv(d) && s_all_encoded(d) && d.elementstore.root == DataType::Element(0) }
// the parts of it the walk needs
pub proof fn lemma_s_good(d: Document, k: int)
    requires s_good(d), 0 <= k < s_elems(d).len()
    ensures s_all_encoded(d), d.elementstore.root == DataType::Element(0), s_elem(d, k) is Some, s_elems(d).len() <= 0x1_0000_0000, s_elem(d, k)->0.key == Some(k as ElementKey),
        forall|c: int| 0 <= c < t_data(s_elems(d), k).len() ==> match #[trigger] t_data(s_elems(d), k)[c] { DataType::Element(x) => x < s_elems(d).len(), _ => true },
        match t_parent(s_elems(d), k) { Some(p) => 0 <= p < s_elems(d).len() && p != k && s_elem(d, p) is Some && t_data(s_elems(d), p) == s_elem(d, p)->0.data@ && t_data(s_elems(d), p).contains(DataType::Element(k as ElementKey)), None => true },
        t_data(s_elems(d), k) == s_elem(d, k)->0.data@, t_parent(s_elems(d), k) == (match s_elem(d, k)->0.parent { Some(p) => Some(p as int), None => None })
{
    reveal(s_good);
    let s = s_elems(d);
    assert(s[k] is Some);
    assert forall|c: int| 0 <= c < t_data(s, k).len() implies match #[trigger] t_data(s, k)[c] { DataType::Element(x) => x < s.len(), _ => true } by { }
    if let Some(p) = t_parent(s, k) { lemma_t_height(s, p, k); assert(s[p] is Some); }
}
pub open spec fn s_it_ok(it: SelectIterator) -> bool {
    &&& s_good(*it.document)
    &&& forall|i: int| 0 <= i < it.stack@.len() ==> (#[trigger] it.stack@[i]).0 < s_elems(*it.document).len()
    &&& it.returned_offset + it.returned@.len() <= 0x1_0000_0000
}
pub open spec fn s_rest(it: SelectIterator) -> Seq<Spot> { s_to_come(*it.document, it.recursion, it.stack@) }
pub open spec fn s_same_marks(a: SelectIterator, b: SelectIterator) -> bool { forall|k: int| #[trigger] s_marked(b.returned@, b.returned_offset as int, k) == s_marked(a.returned@, a.returned_offset as int, k) }
// the first that is yielded is the nth
pub open spec fn s_found(it: SelectIterator, w: Seq<Spot>, n: int) -> bool {
    0 <= n < w.len() && s_yields(it, s_item(*it.document, w[n])) && forall|i: int| 0 <= i < n ==> !s_yields(it, s_item(*it.document, #[trigger] w[i]))
}
pub open spec fn s_is_at(d: Document, x: SelectItem, p: Spot) -> bool { x.parent_key == p.at && x.cursor == p.cursor && x.depth == p.depth && *x.data == s_item(d, p) }
pub open spec fn s_now_marked(a: SelectIterator, b: SelectIterator, item: DataType) -> bool {
    forall|k: int| #[trigger] s_marked(b.returned@, b.returned_offset as int, k) == (s_marked(a.returned@, a.returned_offset as int, k) || (a.spanreferences && s_span_of(*a.document, item) == Some(k)))
}
// the element itself comes first
pub open spec fn s_itself(it: SelectIterator) -> bool { it.iteration == 0 && it.inclusive && it.stack@.len() > 0 && s_matches(*it.document, it.selector, DataType::Element(it.stack@.last().0)) }
// one step
pub open spec fn s_next(a: SelectIterator, b: SelectIterator, r: Option<SelectItem>) -> bool {
    let d = *a.document;
    if a.iteration == 0 && !s_matchable(a.selector) { r is None && b.stack@ == a.stack@ && s_same_marks(a, b) }
    else if s_itself(a) {
        let k = a.stack@.last().0;
        &&& b.stack@ == a.stack@ && s_same_marks(a, b) && r is Some && *r->0.data == DataType::Element(k) && r->0.cursor == 0 && r->0.depth == 0
        &&& r->0.parent_key == (match t_parent(s_elems(d), k as int) { Some(p) => p, None => k as int })
    } else {
        match r {
            Some(x) => exists|n: int| #[trigger] s_found(a, s_rest(a), n) && s_is_at(d, x, s_rest(a)[n]) && s_rest(b) == s_rest(a).skip(n + 1) && s_now_marked(a, b, *x.data),
            None => s_rest(b).len() == 0 && s_same_marks(a, b) && forall|i: int| 0 <= i < s_rest(a).len() ==> !s_yields(a, s_item(d, #[trigger] s_rest(a)[i])),
        }
    }
}
// references to spans refer to elements
pub open spec fn s_refs_ok(d: Document) -> bool { forall|i: int, c: int| 0 <= i < s_elems(d).len() && 0 <= c < t_data(s_elems(d), i).len() ==> match #[trigger] t_data(s_elems(d), i)[c] { DataType::SpanReference(k) => k < s_elems(d).len(), _ => true } }
// what a walk over elements only yields: elements, and those references to spans stand for
pub open spec fn s_is_el(item: DataType) -> bool { item is Element || item is SpanReference }
pub open spec fn s_el_of(item: DataType) -> int { match item { DataType::Element(k) => k as int, DataType::SpanReference(k) => k as int, _ => -1 } }
pub open spec fn s_el_found(it: SelectIterator, w: Seq<Spot>, n: int) -> bool {
    0 <= n < w.len() && s_yields(it, s_item(*it.document, w[n])) && s_is_el(s_item(*it.document, w[n])) && forall|i: int| 0 <= i < n ==> !(s_is_el(s_item(*it.document, #[trigger] w[i])) && s_yields(it, s_item(*it.document, w[i])))
}
pub open spec fn s_is_el_at(d: Document, e: Element, k: int) -> bool { s_elem(d, k) == Some(*e.data) && v_doc(e.document) == Some(d) }
// one step
pub open spec fn s_el_next(a: SelectIterator, b: SelectIterator, r: Option<SelectElementsItem>) -> bool {
    let d = *a.document;
    if a.iteration == 0 && !s_matchable(a.selector) { r is None && b.stack@ == a.stack@ && s_same_marks(a, b) }
    else if s_itself(a) { b.stack@ == a.stack@ && s_same_marks(a, b) && r is Some && s_is_el_at(d, r->0.element, a.stack@.last().0 as int) }
    else {
        match r {
            Some(x) => exists|n: int| #[trigger] s_el_found(a, s_rest(a), n) && s_is_el_at(d, x.element, s_el_of(s_item(d, s_rest(a)[n]))) && s_rest(b) == s_rest(a).skip(n + 1) && s_now_marked(a, b, s_item(d, s_rest(a)[n])),
            None => s_rest(b).len() == 0 && s_same_marks(a, b) && forall|i: int| 0 <= i < s_rest(a).len() ==> !(s_is_el(s_item(d, #[trigger] s_rest(a)[i])) && s_yields(a, s_item(d, s_rest(a)[i]))),
        }
    }
}
// the nearest element strictly above k that the selector matches, not going on above those the recursion excludes
pub open spec fn s_anc(d: Document, s: Selector, r: Recursion, k: int) -> Option<int>
    decreases t_depth(s_elems(d), k) when s_good(d) via s_anc_ends
{
    match t_parent(s_elems(d), k) { None => None, Some(p) => if s_matches(d, s, DataType::Element(p as ElementKey)) { Some(p) } else if s_goes_at(d, r, p) { s_anc(d, s, r, p) } else { None } }
}
#[via_fn]
proof fn s_anc_ends(d: Document, s: Selector, r: Recursion, k: int) { reveal(s_good); if let Some(p) = t_parent(s_elems(d), k) { assert(0 <= k < s_elems(d).len()); lemma_t_height(s_elems(d), p, k); } }
// matches the same
pub open spec fn s_selects_same(a: Selector, b: Selector) -> bool { s_matchable(a) == s_matchable(b) && forall|d: Document, item: DataType| s_matches(d, a, item) == s_matches(d, b, item) }
// the elements strictly above k, nearest first
pub open spec fn s_chain(d: Document, k: int) -> Seq<ElementKey>
    decreases t_depth(s_elems(d), k) when s_good(d) via s_chain_ends
{
    match t_parent(s_elems(d), k) { None => Seq::empty(), Some(p) => seq![p as ElementKey] + s_chain(d, p) }
}
#[via_fn]
proof fn s_chain_ends(d: Document, k: int) { reveal(s_good); if let Some(p) = t_parent(s_elems(d), k) { assert(0 <= k < s_elems(d).len()); lemma_t_height(s_elems(d), p, k); } }
// those of them the selector matches
pub open spec fn s_ancs(d: Document, s: Selector, k: int) -> Seq<ElementKey> { s_chain(d, k).filter(|p: ElementKey| s_matches(d, s, DataType::Element(p))) }
// those all of the first n elements have: of the first that exists, without those the others do not have
pub open spec fn s_common(d: Document, s: Selector, ks: Seq<ElementKey>, n: nat) -> Option<Seq<ElementKey>>
    decreases n
{
    if n == 0 { None } else {
        let before = s_common(d, s, ks, (n - 1) as nat);
        let k = ks[n - 1] as int;
        if s_elem(d, k) is None { before } else { match before { None => Some(s_ancs(d, s, k)), Some(v) => Some(v.filter(|p: ElementKey| s_ancs(d, s, k).contains(p))) } }
    }
}
