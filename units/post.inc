//# include post_spec.inc
pub proof fn lemma_t_push(data: Seq<DataType>, x: DataType)
    requires t_once(data), x is Element ==> !data.contains(x)
    ensures forall|y: DataType| #[trigger] data.push(x).contains(y) <==> data.contains(y) || y == x, t_once(data.push(x))
{
    let r = data.push(x);
    assert forall|y: DataType| #[trigger] r.contains(y) <==> data.contains(y) || y == x by { if data.contains(y) { let m = choose|m: int| 0 <= m < data.len() && data[m] == y; assert(r[m] == y); } assert(r[data.len() as int] == x); if r.contains(y) { let k = choose|k: int| 0 <= k < r.len() && r[k] == y; if k < data.len() { assert(data[k] == y); } } }
    assert forall|a: int, b: int| 0 <= a < b < r.len() && (#[trigger] r[a]) is Element implies #[trigger] r[b] != r[a] by { assert(r[a] == data[a]); if b < data.len() { assert(data[b] != data[a]); } else if x == data[a] { assert(data.contains(x)); } }
}
// data that is no element makes no difference to the tree
pub proof fn lemma_t_other(s: Seq<Option<Box<ElementData>>>, k: int, x: DataType, t: Seq<Option<Box<ElementData>>>)
    requires t_tree(s), 0 <= k < s.len(), s[k] is Some, t.len() == s.len(), t[k] is Some, s_same_but_data(*s[k]->0, *t[k]->0), t_data(t, k) == t_data(s, k).push(x), !(x is Element), forall|i: int| 0 <= i < s.len() && i != k ==> t[i] == s[i]
    ensures t_tree(t), forall|i: int| #[trigger] t_parent(t, i) == t_parent(s, i), forall|i: int| i != k ==> #[trigger] t_data(t, i) == t_data(s, i)
{
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    assert forall|i: int| #[trigger] t_parent(t, i) == t_parent(s, i) by { if i != k && 0 <= i < s.len() { assert(t[i] == s[i]); } }
    assert forall|i: int| i != k implies #[trigger] t_data(t, i) == t_data(s, i) by { if 0 <= i < s.len() { assert(t[i] == s[i]); } }
    lemma_t_push(t_data(s, k), x);
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t_parent(t, i) { Some(p) => 0 <= p < t.len() && t_data(t, p).contains(t_el(i)) && rank(p) < rank(i), None => true } by { assert(t_parent(s, i) == t_parent(t, i)); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t_data(t, i).len() implies match #[trigger] t_data(t, i)[j] { DataType::Element(k) => k < t.len() && t_parent(t, k as int) == Some(i), _ => true } by { if j < t_data(s, i).len() { assert(t_data(s, i)[j] == t_data(t, i)[j]); } }
    assert forall|i: int| 0 <= i < t.len() implies t_once(#[trigger] t_data(t, i)) by { assert(t_once(t_data(s, i))); }
    assert(t_rank(t, rank));
}
proof fn lemma_p_idref(a: Seq<Attribute>, n: int)
    requires 0 <= n < a.len()
    ensures s_idref(a.take(n + 1)) == (if let Attribute::Idref(x) = a[n] { Some(x@) } else { s_idref(a.take(n)) })
{ assert(a.take(n + 1).drop_last() =~= a.take(n)); }
// a selector of spans
pub open spec fn s_span_selector(s: Selector) -> bool { s_blank(s) && s.elementgroup == Cmp::Is(ElementGroup::Span) && s.next is None && s.datatypes@ == seq![DataTypeSelector::Elements] }
proof fn lemma_p_span(d: Document, s: Selector)
    requires s_span_selector(s)
    ensures forall|k: ElementKey| #[trigger] s_matches(d, s, DataType::Element(k)) == s_is_span(d, k as int)
{
    assert(s.datatypes@[0] == DataTypeSelector::Elements);
    assert(s_kind(s, DataTypeSelector::Elements));
}
proof fn lemma_p_above(d: Document, s: Selector, k: int)
    requires s_span_selector(s), s_good(d), 0 <= k < s_elems(d).len()
    ensures s_anc(d, s, Recursion::Always, k) == s_span_above(d, k)
    decreases t_depth(s_elems(d), k)
{
    lemma_p_span(d, s);
    lemma_s_good(d, k);
    reveal(s_good);
    if let Some(p) = t_parent(s_elems(d), k) { lemma_t_height(s_elems(d), p, k); assert(s_matches(d, s, DataType::Element(p as ElementKey)) == s_is_span(d, p)); lemma_p_above(d, s, p); }
}
proof fn lemma_p_in(d: Document, stack: Seq<ElementKey>, n: int)
    requires 0 <= n <= stack.len(), forall|j: int| 0 <= j < n ==> !s_is_span(d, #[trigger] stack.reverse()[j] as int)
    ensures s_span_in(d, stack) == (if n < stack.len() { s_span_in(d, stack.take(stack.len() - n)) } else { None }),
        n < stack.len() && s_is_span(d, stack.reverse()[n] as int) ==> s_span_in(d, stack) == Some(stack.reverse()[n] as int)
    decreases n
{
    assert(stack.take(stack.len() as int) =~= stack);
    if n > 0 {
        lemma_p_in(d, stack, n - 1);
        let s = stack.take(stack.len() - (n - 1));
        assert(s.last() == stack.reverse()[n - 1]);
        assert(s.drop_last() =~= stack.take(stack.len() - n));
    }
    if n < stack.len() { assert(stack.take(stack.len() - n).last() == stack.reverse()[n]); }
}
// the links between elements are the same
proof fn lemma_p_links(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>)
    requires t_tree(s), t.len() == s.len(), forall|i: int| #[trigger] t_parent(t, i) == t_parent(s, i), forall|i: int| #[trigger] t_data(t, i) == t_data(s, i)
    ensures t_tree(t)
{
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t_parent(t, i) { Some(p) => 0 <= p < t.len() && t_data(t, p).contains(t_el(i)) && rank(p) < rank(i), None => true } by { assert(t_parent(s, i) == t_parent(t, i)); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t_data(t, i).len() implies match #[trigger] t_data(t, i)[j] { DataType::Element(k) => k < t.len() && t_parent(t, k as int) == Some(i), _ => true } by { assert(t_data(s, i)[j] == t_data(t, i)[j]); }
    assert forall|i: int| 0 <= i < t.len() implies t_once(#[trigger] t_data(t, i)) by { assert(t_once(t_data(s, i))); }
    assert(t_rank(t, rank));
}
proof fn lemma_p_pushed(d: Document, d2: Document, k: int, x: DataType)
    requires s_good(d), s_refs_ok(d), s_doc_inv(d), s_pushed(d, d2, k, x), !(x is Element), match x { DataType::SpanReference(s) => s < s_elems(d).len(), _ => true }
    ensures s_good(d2), s_refs_ok(d2), s_doc_inv(d2), t_inv(d2)
{
    reveal(s_good);
    let s = s_elems(d); let t = s_elems(d2);
    assert(s_but_elems(d2).declarationstore == d2.declarationstore && s_but_elems(d2).provenancestore == d2.provenancestore && s_but_elems(d2).elementstore.root == d2.elementstore.root);
    assert(s_but_elems(d).declarationstore == d.declarationstore && s_but_elems(d).provenancestore == d.provenancestore && s_but_elems(d).elementstore.root == d.elementstore.root);
    lemma_t_other(s, k, x, t);
    assert(t =~= s.update(k, Some(Box::new(s_elem(d2, k)->0))));
    lemma_update_inv::<ElementData, ElementKey>(s, d.elementstore.index@, k, s_elem(d2, k)->0);
    assert forall|i: int, c: int| 0 <= i < t.len() && 0 <= c < t_data(t, i).len() implies match #[trigger] t_data(t, i)[c] { DataType::SpanReference(q) => q < t.len(), _ => true } by { if i != k || c < t_data(s, k).len() { assert(t_data(s, i)[c] == t_data(t, i)[c]); } }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Some && t[i]->0.key == Some(i as ElementKey) && s_none_encodable(t[i]->0.attribs@) by { assert(s[i] is Some); }
}
proof fn lemma_p_attributed(d: Document, d2: Document, k: int, a: DecKey)
    requires s_good(d), s_refs_ok(d), s_doc_inv(d), s_attributed(d, d2, k, Attribute::DeclarationRef(a))
    ensures s_good(d2), s_refs_ok(d2), s_doc_inv(d2), t_inv(d2)
{
    reveal(s_good);
    let s = s_elems(d); let t = s_elems(d2);
    assert(s_but_elems(d2).declarationstore == d2.declarationstore && s_but_elems(d2).provenancestore == d2.provenancestore && s_but_elems(d2).elementstore.root == d2.elementstore.root);
    assert(s_but_elems(d).declarationstore == d.declarationstore && s_but_elems(d).provenancestore == d.provenancestore && s_but_elems(d).elementstore.root == d.elementstore.root);
    assert forall|i: int| #[trigger] t_parent(t, i) == t_parent(s, i) by { if 0 <= i < s.len() && i != k { assert(t[i] == s[i]); } }
    assert forall|i: int| #[trigger] t_data(t, i) == t_data(s, i) by { if 0 <= i < s.len() && i != k { assert(t[i] == s[i]); } }
    lemma_p_links(s, t);
    let e = s_elem(d, k)->0; let f = s_elem(d2, k)->0;
    lemma_p_id(e, f, Attribute::DeclarationRef(a));
    assert(t =~= s.update(k, Some(Box::new(f))));
    lemma_update_inv::<ElementData, ElementKey>(s, d.elementstore.index@, k, f);
    assert(s[k] is Some);
    assert(s_none_encodable(e.attribs@));
    assert(s_none_encodable(f.attribs@));
    assert forall|i: int, c: int| 0 <= i < t.len() && 0 <= c < t_data(t, i).len() implies match #[trigger] t_data(t, i)[c] { DataType::SpanReference(q) => q < t.len(), _ => true } by { assert(t_data(s, i)[c] == t_data(t, i)[c]); }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Some && t[i]->0.key == Some(i as ElementKey) && s_none_encodable(t[i]->0.attribs@) by { assert(s[i] is Some); }
}
proof fn lemma_p_first(s: Seq<Attribute>, a: Attribute, f: spec_fn(Attribute) -> bool)
    requires !f(a)
    ensures s_first(s.push(a), f) == s_first(s, f)
{
    lemma_first(s, f); lemma_first(s.push(a), f);
    match s_first(s, f) { Some(i) => { assert(s.push(a)[i] == s[i]); }, None => {} }
    match s_first(s.push(a), f) { Some(i) => { assert(i < s.len()); assert(s.push(a)[i] == s[i]); }, None => { if let Some(i) = s_first(s, f) { assert(f(s.push(a)[i])); } } }
    if let (Some(i), Some(j)) = (s_first(s, f), s_first(s.push(a), f)) { if i < j { assert(f(s.push(a)[i])); } if j < i { assert(f(s[j])); } }
}
proof fn lemma_p_id(e: ElementData, f: ElementData, a: Attribute)
    requires f.attribs@ == e.attribs@.push(a), !(a is Id)
    ensures s_el_id(f) == s_el_id(e)
{
    lemma_p_first(e.attribs@, a, |x: Attribute| x is Id);
    if let Some(i) = s_first(e.attribs@, |x: Attribute| x is Id) { lemma_first(e.attribs@, |x: Attribute| x is Id); assert(f.attribs@[i] == e.attribs@[i]); }
}
// what the selector for the set of a layer matches
pub open spec fn s_fit_selector(s: Selector) -> bool {
    s.elementgroup == Cmp::Is(ElementGroup::Span) && s.set is Some && s.next is None && s.datatypes@ == seq![DataTypeSelector::Elements] && s.elementtype is Any && s.class is Any && s.processor is Any && s.subset is Any && s.confidence is Any && s.annotator is Any && s.annotatortype is Any
}
proof fn lemma_p_fit(d: Document, s: Selector)
    requires s_fit_selector(s)
    ensures s_matchable(s), forall|item: DataType| s_is_el(item) ==> (#[trigger] s_matches(d, s, item) <==> s_is_span(d, s_el_of(item)) && s_encv(s_elem(d, s_el_of(item))->0, AttribType::SET) is Some)
{
    assert(s.datatypes@[0] == DataTypeSelector::Elements);
    assert(s_kind(s, DataTypeSelector::Elements));
}
// none of the first n of the walk fits, and nothing that does has been marked
pub open spec fn s_none_fits(d: Document, t: ElementType, it: SelectIterator, w: Seq<Spot>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> !s_fits(d, t, s_item(d, #[trigger] w[i]))
    &&& forall|k: int| #[trigger] s_marked(it.returned@, it.returned_offset as int, k) ==> !s_fits(d, t, DataType::SpanReference(k as ElementKey))
}
// nothing between two that are yielded fits, unless it is marked, and then it has been met
proof fn lemma_p_step(d: Document, t: ElementType, m: SelectIterator, it: SelectIterator, w: Seq<Spot>, n: int, q: int, s: Selector)
    requires *m.document == d, m.selector == s, s_fit_selector(s), 0 <= n <= q < w.len(), s_none_fits(d, t, m, w, n), s_el_found(m, w.skip(n), q - n), s_now_marked(m, it, s_item(d, w[q]))
    ensures s_none_fits(d, t, m, w, q), s_is_span(d, s_el_of(s_item(d, w[q]))), s_encv(s_elem(d, s_el_of(s_item(d, w[q])))->0, AttribType::SET) is Some, s_is_el(s_item(d, w[q])),
        s_fits(d, t, s_item(d, w[q])) ==> s_first_fit(d, t, w, q), !s_fits(d, t, s_item(d, w[q])) ==> s_none_fits(d, t, it, w, q + 1)
{
    hide(s_matches); hide(s_in_group);
    lemma_p_fit(d, s);
    assert(w.skip(n)[q - n] == w[q]);
    assert forall|i: int| 0 <= i < q implies !s_fits(d, t, s_item(d, #[trigger] w[i])) by { if i >= n { assert(w.skip(n)[i - n] == w[i]); lemma_p_fits_key(d, t, s_item(d, w[i])); } }
    lemma_p_fits_key(d, t, s_item(d, w[q]));
}
proof fn lemma_p_rest(d: Document, t: ElementType, m: SelectIterator, w: Seq<Spot>, n: int)
    requires *m.document == d, s_fit_selector(m.selector), 0 <= n <= w.len(), s_none_fits(d, t, m, w, n), forall|i: int| 0 <= i < w.skip(n).len() ==> !(s_is_el(s_item(d, #[trigger] w.skip(n)[i])) && s_yields(m, s_item(d, w.skip(n)[i])))
    ensures forall|i: int| 0 <= i < w.len() ==> !s_fits(d, t, s_item(d, #[trigger] w[i]))
{
    hide(s_matches); hide(s_in_group);
    lemma_p_fit(d, m.selector);
    assert forall|i: int| 0 <= i < w.len() implies !s_fits(d, t, s_item(d, #[trigger] w[i])) by { if i >= n { assert(w.skip(n)[i - n] == w[i]); lemma_p_fits_key(d, t, s_item(d, w[i])); } }
}
proof fn lemma_p_fits_key(d: Document, t: ElementType, item: DataType)
    ensures s_span_of(d, item) is Some ==> s_is_el(item) && s_span_of(d, item)->0 == s_el_of(item) && s_fits(d, t, DataType::SpanReference(s_span_of(d, item)->0 as ElementKey)) == s_fits(d, t, item)
{ }
proof fn lemma_p_start(d: Document, k: ElementKey, st: Seq<(ElementKey, usize)>)
    requires st == seq![(k, 0usize)]
    ensures s_to_come(d, Recursion::Always, st) == s_walk(d, Recursion::Always, k as int, 0, 1)
{
    assert(s_to_come(d, Recursion::Always, st.drop_last()).len() == 0);
    assert(s_to_come(d, Recursion::Always, st) =~= s_walk(d, Recursion::Always, k as int, 0, 1));
}
proof fn lemma_p_same(d: Document)
    requires s_good(d), s_refs_ok(d), s_doc_inv(d)
    ensures s_same_doc(d, d), forall|d2: Document| #[trigger] s_same_doc(d, d2) ==> s_good(d2) && s_refs_ok(d2) && s_doc_inv(d2)
{
    reveal(s_good);
    assert forall|d2: Document| #[trigger] s_same_doc(d, d2) implies s_good(d2) && s_refs_ok(d2) && s_doc_inv(d2) by {
        assert(s_but_elems(d2).declarationstore == d2.declarationstore && s_but_elems(d2).provenancestore == d2.provenancestore && s_but_elems(d2).elementstore.root == d2.elementstore.root);
        assert(s_but_elems(d).declarationstore == d.declarationstore && s_but_elems(d).provenancestore == d.provenancestore && s_but_elems(d).elementstore.root == d.elementstore.root);
    }
}
proof fn lemma_p_span_there(d: Document, k: int, stack: Option<Seq<ElementKey>>)
    requires s_good(d), 0 <= k < s_elems(d).len(), s_span_for(d, k, stack) is Some
    ensures s_is_span(d, s_span_for(d, k, stack)->0), 0 <= s_span_for(d, k, stack)->0 < s_elems(d).len()
    decreases match stack { Some(v) => v.len(), None => t_depth(s_elems(d), k) }
{
    hide(s_in_group);
    lemma_s_good(d, k);
    match stack {
        Some(v) => { if v.len() > 0 && !s_is_span(d, v.last() as int) { lemma_p_span_there(d, k, Some(v.drop_last())); } },
        None => { if let Some(p) = t_parent(s_elems(d), k) { if !s_is_span(d, p) { reveal(s_good); lemma_t_height(s_elems(d), p, k); lemma_p_span_there(d, p, None); } } },
    }
}
// A document is in memory: a walk over it has fewer than 2^64 - 2 steps, as each is at a data item of its own (c06_once).
#[verifier::external_body]
pub fn axiom_memory(d: &Document, k: ElementKey)
    requires s_good(*d)
    ensures s_walk(*d, Recursion::Always, k as int, 0, 1).len() + 2 < usize::MAX
{ }
impl Document {
//# fn src/document.rs Document::post_add
//# attr #[verifier::allow_complex_invariants]
//# ret r
//# spec
    requires s_good(*old(self)), s_refs_ok(*old(self)), s_doc_inv(*old(self))
    ensures s_posted(*old(self), element_key as int, match stack { Some(v) => Some(v@), None => None }, *final(self), r),
        s_good(*final(self)), s_refs_ok(*final(self)), s_doc_inv(*final(self))
//# replace /stack.unwrap().iter().rev()/ => /vx_rev(stack.unwrap())/
//# replace /spanelement.elementtype()/ => /spanelement.element.elementtype()/
//# replace /spanelement.declaration_key()/ => /spanelement.element.declaration_key()/
//# loop 1 it
    invariant v_idref(idref) == s_idref(element.attribs@.take(it.index())),
//# ghost loop 1 start
    proof { assert(attrib == &element.attribs@[it.index()]); lemma_p_idref(element.attribs@, it.index()); }
//# ghost loop 1 after
    proof { assert(element.attribs@.take(element.attribs@.len() as int) =~= element.attribs@); }
//# ghost let selector after
    proof { assert(s_span_selector(selector)); lemma_p_span(d, selector); }
//# loop 2 it
    invariant_except_break
        span_key is None, forall|j: int| 0 <= j < it.index() ==> !s_is_span(d, #[trigger] stack->0@.reverse()[j] as int),
    ensures
        match span_key { Some(k) => s_span_in(d, stack->0@) == Some(k as int), None => s_span_in(d, stack->0@) is None },
//# ghost loop 2 start
    proof { lemma_p_in(d, stack->0@, it.index()); assert(*key == stack->0@.reverse()[it.index()]); }
//# ghost loop 2 after
    proof { if span_key is None { lemma_p_in(d, stack->0@, stack->0@.len() as int); } assert(span_key is None ==> s_span_in(d, stack->0@) is None); assert(span_key is Some ==> s_span_in(d, stack->0@) == Some(span_key->0 as int)); }
//# ghost loop 2 before
    proof { if stack->0@.len() == 0 { lemma_p_in(d, stack->0@, 0); } }
//# ghost loop 2 end
    proof { lemma_p_in(d, stack->0@, it.index() + 1); }
//# loop 3 =vx_it
    invariant_except_break
        span_key is None, vx_it == m,
    ensures
        match span_key { Some(k) => s_span_above(d, element_key as int) == Some(k as int), None => s_span_above(d, element_key as int) is None },
    decreases 0int
//# ghost loop 3 init
    let ghost m = vx_it;
    proof { lemma_p_above(d, m.selector, element_key as int); }
//# ghost loop 3 start
    proof { let p = s_anc(d, m.selector, m.recursion, element_key as int)->0; assert(s_elem(d, p) is Some); lemma_s_good(d, p); }
//# loop 4 =vx_it
    invariant_except_break
        add_attributes is None, vx_it.iterator == m, s_it_ok(m), s_same_walk(m, a), *m.document == d, *a.document == d, 0 <= n <= w.len(), s_rest(m) == w.skip(n), s_none_fits(d, t, m, w, n), m.iteration + s_rest(m).len() <= w.len(), w.len() + 2 < usize::MAX,
        s_fit_selector(a.selector), s_matchable(a.selector), !a.inclusive, s_refs_ok(d),
    ensures
        match add_attributes { Some(v) => v@.len() == 1 && v@[0] is DeclarationRef && exists|q: int| #[trigger] s_first_fit(d, t, w, q) && v@[0] == Attribute::DeclarationRef(s_encv(s_elem(d, s_el_of(s_item(d, w[q])))->0, AttribType::SET)->0 as DecKey), None => forall|q: int| 0 <= q < w.len() ==> !s_fits(d, t, s_item(d, #[trigger] w[q])) },
    decreases w.len() - n
//# ghost loop 4 init
    let ghost a = vx_it.iterator;
    let ghost mut m = vx_it.iterator;
    let ghost w = s_walk(d, Recursion::Always, element_key as int, 0, 1);
    let ghost mut n: int = 0;
    let ghost t = elementtype;
    proof {
        lemma_p_start(d, element_key, a.stack@);
        assert(w.skip(0) =~= w);
        lemma_p_fit(d, a.selector);
    }
//# ghost loop 4 start
    let ghost it = vx_it.iterator;
    let ghost mut q: int = 0;
    proof {
        let k = choose|k: int| #[trigger] s_el_found(m, s_rest(m), k) && s_is_el_at(d, spanelement.element, s_el_of(s_item(d, s_rest(m)[k]))) && s_rest(it) == s_rest(m).skip(k + 1) && s_now_marked(m, it, s_item(d, s_rest(m)[k]));
        q = n + k;
        assert(s_rest(m)[k] == w[q]);
        assert(w.skip(n).skip(k + 1) =~= w.skip(q + 1));
        lemma_p_step(d, t, m, it, w, n, q, a.selector);
    }
//# ghost loop 4 done
    proof { if add_attributes is None { lemma_p_rest(d, t, m, w, n); } assert(match add_attributes { Some(v) => v@.len() == 1 && v@[0] is DeclarationRef, None => true }); }
//# ghost loop 4 end
    proof { n = q + 1; m = it; }
//# ghost call ParseError 1 before
    proof { assert(s_same_doc(d, *self)); }
//# ghost call ParseError 2 before
    proof { assert(*self == d); assert(stack is Some ==> s_span_in(d, stack->0@) is None); assert(stack is None ==> s_span_above(d, element_key as int) is None); }
//# ghost loop 5 before
    let ghost e0 = *element;
    let ghost av = add_attributes@;
//# loop 5 it5
    invariant s_rest_same(*element, e0), element.attribs@ == (if it5.index() == 0 { e0.attribs@ } else { e0.attribs@.push(av[0]) }),
//# ghost loop 5 start
    proof { assert(attrib == av[0]); }
//# ghost start
    hide(s_matches); hide(s_matchable); hide(s_walk); hide(s_to_come); hide(s_in_group);
    reveal(s_posted);
    axiom_memory(self, element_key);
    let ghost d = *self;
    proof { if s_elem(*self, element_key as int) is Some { lemma_s_good(d, element_key as int); } lemma_p_same(d); }
//# ghost tail
    proof {
        let e = s_elem(d, element_key as int)->0;
        let st = match stack { Some(v) => Some(v@), None => None };
        if e.elementtype is WordReference {
            let (x, s) = (s_target(d, element_key as int)->0, s_span_for(d, element_key as int, st)->0);
            lemma_p_span_there(d, element_key as int, st);
            lemma_p_pushed(d, *self, x, DataType::SpanReference(s as ElementKey));
            assert(s_posted_wref(d, element_key as int, st, *self, Ok(())));
        } else if s_elems(*self) != s_elems(d) {
            assert(s_in_group(ElementGroup::Layer, e.elementtype));
            assert(s_find(e.attribs@, AttribType::SET) is None);
            let a = s_elem(*self, element_key as int)->0.attribs@.last();
            assert(a is DeclarationRef);
            assert(s_attributed(d, *self, element_key as int, a));
            let w = s_walk(d, Recursion::Always, element_key as int, 0, 1);
            assert(exists|q: int| #[trigger] s_first_fit(d, e.elementtype, w, q) && a == Attribute::DeclarationRef(s_encv(s_elem(d, s_el_of(s_item(d, w[q])))->0, AttribType::SET)->0 as DecKey));
            assert(s_posted_layer(d, element_key as int, e.elementtype, *self, Ok(())));
            lemma_p_attributed(d, *self, element_key as int, s_elem(*self, element_key as int)->0.attribs@.last()->DeclarationRef_0);
        } else {
            assert(s_same_doc(d, *self));
            if s_in_group(ElementGroup::Layer, e.elementtype) && s_find(e.attribs@, AttribType::SET) is None { assert(s_posted_layer(d, element_key as int, e.elementtype, *self, Ok(()))); }
        }
    }
//# endfn
}
pub open spec fn v_idref(x: Option<String>) -> Option<Seq<char>> { match x { Some(x) => Some(x@), None => None } }
