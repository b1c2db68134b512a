//# properties C06 C07 C08
//# covers C06: getting elements and annotations of a type below an element (get_element, get_elements, get_annotation, get_annotations)
//# covers C07: features of an element (get_feature, get_features)
//# covers C08: getting ancestors by type or group
//# include core.inc
verus! {
//# unit-mode getters
//# include matching_lemmas.inc
// in the declaration of a type and set
pub open spec fn s_in_dec(d: Document, t: ElementType, e: ElementData, set: Option<Seq<char>>) -> bool {
    s_el_at(t) is Some && match s_read_dec(Some(d), e) { Some(dec) => dec.annotationtype == s_el_at(t)->0 && s_opt(dec.set) == set, None => false }
}
// what is asked of the set of an element of some type
pub open spec fn s_set_is(d: Document, c: Cmp<String>, t: ElementType, e: ElementData) -> bool {
    match c { Cmp::Any => true, Cmp::Some => s_encv(e, AttribType::SET) is Some, Cmp::Unmatchable => false, Cmp::Is(x) => s_in_dec(d, t, e, Some(x@)), Cmp::None => s_in_dec(d, t, e, None) }
}
// an element that is asked for
pub open spec fn s_wanted(d: Document, t: ElementType, set: Cmp<String>, e: ElementData) -> bool { e.elementtype == t && s_set_is(d, set, t, e) }
// a feature of an element that is asked for
pub open spec fn s_own_feature(d: Document, of: ElementData, subset: Cmp<String>, e: ElementData) -> bool {
    &&& e.elementtype is Feature
    &&& s_in_dec(d, of.elementtype, e, s_read_set(Some(d), of))
    &&& match subset { Cmp::Any => true, Cmp::Some => s_encv(e, AttribType::SUBSET) is Some, Cmp::None => s_encv(e, AttribType::SUBSET) is None, Cmp::Unmatchable => false, Cmp::Is(x) => s_read_subset(Some(d), e) == Some(x@) }
}
pub open spec fn s_select(s: Selector, d: Document, t: ElementType, set: Cmp<String>) -> bool {
    forall|x: DataType| s_is_el(x) ==> #[trigger] s_matches(d, s, x) == (match s_elem(d, s_el_of(x)) { Some(e) => s_wanted(d, t, set, e), None => false })
}
pub open spec fn s_select_features(s: Selector, d: Document, of: ElementData, subset: Cmp<String>) -> bool {
    forall|x: DataType| s_is_el(x) ==> #[trigger] s_matches(d, s, x) == (match s_elem(d, s_el_of(x)) { Some(e) => s_own_feature(d, of, subset, e), None => false })
}
pub open spec fn s_select_group(s: Selector, d: Document, g: ElementGroup, set: Cmp<String>) -> bool {
    set is Any ==> forall|x: DataType| s_is_el(x) ==> #[trigger] s_matches(d, s, x) == (match s_elem(d, s_el_of(x)) { Some(e) => s_in_group(g, e.elementtype), None => false })
}
proof fn lemma_g_type(d: Document, q: Query, s: Selector, t: ElementType, set: Cmp<String>)
    requires s_doc_inv(d), s_all_encoded(d), s_compiled(d, q, s), s_blank_query(Query { elementtype: Cmp::Any, ..q }), q.elementgroup is Any, q.elementtype == Cmp::Is(t), q.set == set
    ensures s_select(s, d, t, set)
{
    broadcast use group_matching;
    assert forall|x: DataType| s_is_el(x) implies #[trigger] s_matches(d, s, x) == (match s_elem(d, s_el_of(x)) { Some(e) => s_wanted(d, t, set, e), None => false }) by {
        if let Some(e) = s_elem(d, s_el_of(x)) { c07_query(d, q, s, s_el_of(x) as ElementKey, e); }
    }
}
proof fn lemma_g_features(d: Document, q: Query, s: Selector, of: ElementData, subset: Cmp<String>)
    requires s_doc_inv(d), s_all_encoded(d), s_compiled(d, q, s), s_blank_query(Query { elementtype: Cmp::Any, contexttype: Cmp::Any, subset: Cmp::Any, ..q }), q.elementgroup is Any, q.elementtype == Cmp::Is(ElementType::Feature), q.contexttype == Cmp::Is(of.elementtype), q.subset == subset,
        match s_read_set(Some(d), of) { Some(x) => q.set is Is && q.set->0@ == x, None => q.set is None }
    ensures s_select_features(s, d, of, subset)
{
    broadcast use group_matching;
    assert forall|x: DataType| s_is_el(x) implies #[trigger] s_matches(d, s, x) == (match s_elem(d, s_el_of(x)) { Some(e) => s_own_feature(d, of, subset, e), None => false }) by {
        if let Some(e) = s_elem(d, s_el_of(x)) { c07_query(d, q, s, s_el_of(x) as ElementKey, e); }
    }
}
proof fn lemma_g_group(d: Document, q: Query, s: Selector, g: ElementGroup, set: Cmp<String>)
    requires s_doc_inv(d), s_all_encoded(d), s_compiled(d, q, s), s_blank_query(q), q.elementgroup == Cmp::Is(g), q.set == set
    ensures s_select_group(s, d, g, set)
{
    broadcast use group_matching;
    if set is Any { assert forall|x: DataType| s_is_el(x) implies #[trigger] s_matches(d, s, x) == (match s_elem(d, s_el_of(x)) { Some(e) => s_in_group(g, e.elementtype), None => false }) by {
        if let Some(e) = s_elem(d, s_el_of(x)) { c07_query(d, q, s, s_el_of(x) as ElementKey, e); }
    } }
}
// an element that was got from a document
pub open spec fn s_got(e: Element) -> bool { match v_doc(e.document) { Some(d) => s_sound(d) && e.data.key is Some && s_elem(d, e.data.key->0 as int) == Some(*e.data), None => false } }
// a walk over what is below it that has not started
pub open spec fn s_fresh(m: SelectIterator, e: Element, r: Recursion) -> bool {
    v_doc(e.document) == Some(*m.document) && m.recursion == r && !m.inclusive && m.spanreferences && m.iteration == 0 && m.stack@ == seq![(e.data.key->0, 0usize)] && m.returned@.len() == 0 && m.returned_offset == 0
}
// the spots below an element, in document order
pub open spec fn s_below_el(e: Element, r: Recursion) -> Seq<Spot> { s_walk(v_doc(e.document)->0, r, e.data.key->0 as int, 0, 1) }
// the first of them that is wanted
pub open spec fn s_is_wanted(d: Document, t: ElementType, set: Cmp<String>, x: DataType) -> bool { s_is_el(x) && match s_elem(d, s_el_of(x)) { Some(e) => s_wanted(d, t, set, e), None => false } }
pub open spec fn s_first_wanted(d: Document, t: ElementType, set: Cmp<String>, w: Seq<Spot>, n: int) -> bool { 0 <= n < w.len() && s_is_wanted(d, t, set, s_item(d, w[n])) && forall|i: int| 0 <= i < n ==> !s_is_wanted(d, t, set, s_item(d, #[trigger] w[i])) }
pub open spec fn s_no_wanted(d: Document, t: ElementType, set: Cmp<String>, w: Seq<Spot>) -> bool { forall|i: int| 0 <= i < w.len() ==> !s_is_wanted(d, t, set, s_item(d, #[trigger] w[i])) }
pub open spec fn s_is_own(d: Document, of: ElementData, subset: Cmp<String>, x: DataType) -> bool { s_is_el(x) && match s_elem(d, s_el_of(x)) { Some(e) => s_own_feature(d, of, subset, e), None => false } }
pub open spec fn s_first_own(d: Document, of: ElementData, subset: Cmp<String>, w: Seq<Spot>, n: int) -> bool { 0 <= n < w.len() && s_is_own(d, of, subset, s_item(d, w[n])) && forall|i: int| 0 <= i < n ==> !s_is_own(d, of, subset, s_item(d, #[trigger] w[i])) }
pub open spec fn s_no_own(d: Document, of: ElementData, subset: Cmp<String>, w: Seq<Spot>) -> bool { forall|i: int| 0 <= i < w.len() ==> !s_is_own(d, of, subset, s_item(d, #[trigger] w[i])) }
pub open spec fn s_el_1st(d: Document, s: Selector, w: Seq<Spot>, n: int) -> bool { 0 <= n < w.len() && s_is_el(s_item(d, w[n])) && s_matches(d, s, s_item(d, w[n])) && forall|i: int| 0 <= i < n ==> !(s_is_el(s_item(d, #[trigger] w[i])) && s_matches(d, s, s_item(d, w[i]))) }
pub open spec fn s_1st(d: Document, s: Selector, w: Seq<Spot>, r: Option<SelectElementsItem>) -> bool {
    match r { Some(x) => exists|n: int| #[trigger] s_el_1st(d, s, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))), None => forall|i: int| 0 <= i < w.len() ==> !(s_is_el(s_item(d, #[trigger] w[i])) && s_matches(d, s, s_item(d, w[i]))) }
}
proof fn lemma_g_matchable(d: Document, s: Selector, x: DataType)
    requires !s_matchable(s), s_is_el(x)
    ensures !s_matches(d, s, x)
    decreases s
{ if let Some(n) = s.next { lemma_g_matchable(d, *n, x); } }
// the first step of such a walk
proof fn lemma_g_first(m: SelectIterator, e: Element, r: Recursion)
    requires s_got(e), s_fresh(m, e, r), s_below_el(e, r).len() + 1 < usize::MAX
    ensures s_it_ok(m), s_refs_ok(*m.document), !s_itself(m), s_rest(m) == s_below_el(e, r), forall|b: SelectIterator, x: Option<SelectElementsItem>| #[trigger] s_el_next(m, b, x) ==> s_1st(*m.document, m.selector, s_below_el(e, r), x),
{
    hide(s_matches); hide(s_matchable); hide(s_walk);
    let d = *m.document; let k = e.data.key->0; let w = s_below_el(e, r);
    assert(m.stack@.drop_last() =~= Seq::empty());
    assert(s_to_come(d, r, m.stack@.drop_last()) =~= Seq::empty());
    assert(s_rest(m) =~= w);
    assert forall|i: int| 0 <= i < w.len() implies s_yields(m, s_item(d, #[trigger] w[i])) == s_matches(d, m.selector, s_item(d, w[i])) by { }
    assert forall|b: SelectIterator, x: Option<SelectElementsItem>| #[trigger] s_el_next(m, b, x) implies s_1st(d, m.selector, w, x) by {
        if !s_matchable(m.selector) {
            assert forall|i: int| 0 <= i < w.len() implies !(s_is_el(s_item(d, #[trigger] w[i])) && s_matches(d, m.selector, s_item(d, w[i]))) by { if s_is_el(s_item(d, w[i])) { lemma_g_matchable(d, m.selector, s_item(d, w[i])); } }
        } else if let Some(y) = x {
            let n = choose|n: int| #[trigger] s_el_found(m, w, n) && s_is_el_at(d, y.element, s_el_of(s_item(d, w[n])));
            let i = w[n];
            assert(s_el_1st(d, m.selector, w, n));
        }
    }
}
proof fn lemma_g_wanted(d: Document, s: Selector, t: ElementType, set: Cmp<String>, w: Seq<Spot>, r: Option<SelectElementsItem>)
    requires s_select(s, d, t, set), s_1st(d, s, w, r)
    ensures match r { Some(x) => exists|n: int| #[trigger] s_first_wanted(d, t, set, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))), None => s_no_wanted(d, t, set, w) }
{
    hide(s_matches); hide(s_wanted);
    if let Some(x) = r { let n = choose|n: int| #[trigger] s_el_1st(d, s, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))); assert(s_first_wanted(d, t, set, w, n)); }
}
proof fn lemma_g_own(d: Document, s: Selector, of: ElementData, subset: Cmp<String>, w: Seq<Spot>, r: Option<SelectElementsItem>)
    requires s_select_features(s, d, of, subset), s_1st(d, s, w, r)
    ensures match r { Some(x) => exists|n: int| #[trigger] s_first_own(d, of, subset, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))), None => s_no_own(d, of, subset, w) }
{
    hide(s_matches); hide(s_own_feature);
    if let Some(x) = r { let n = choose|n: int| #[trigger] s_el_1st(d, s, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))); assert(s_first_own(d, of, subset, w, n)); }
}
impl<'a> Element<'a> {
//# fn src/element.rs Element::get_elements
//# ret r
//# spec
    requires s_got(*self)
    ensures s_fresh(r.iterator, *self, recursion), s_select(r.iterator.selector, *r.iterator.document, elementtype, set)
//# ghost start
    hide(s_matches); hide(s_select);
    let ghost d = v_doc(self.document)->0;
    proof {
        lemma_g_sound(d);
        assert forall|q: Query, s: Selector| #[trigger] s_compiled(d, q, s) && s_blank_query(Query { elementtype: Cmp::Any, ..q }) && q.elementgroup is Any && q.elementtype == Cmp::Is(elementtype) && q.set == set implies s_select(s, d, elementtype, set) by { lemma_g_type(d, q, s, elementtype, set); }
    }
//# endfn
//# fn src/element.rs Element::get_element
//# ret r
//# closure 1 |e: SelectElementsItem| -> (o: Element) ensures o == e.element
//# spec
    requires self.document is Some ==> s_got(*self) && s_below_el(*self, recursion).len() + 1 < usize::MAX
    ensures self.document is None ==> r is None,
        self.document is Some ==> ({ let d = v_doc(self.document)->0; let w = s_below_el(*self, recursion); match r { Some(x) => exists|n: int| #[trigger] s_first_wanted(d, elementtype, set, w, n) && s_is_el_at(d, x, s_el_of(s_item(d, w[n]))), None => s_no_wanted(d, elementtype, set, w) } })
//# ghost start
    hide(s_matches); hide(s_select); hide(s_walk); hide(s_el_next);
    let ghost d = v_doc(self.document)->0;
    proof {
        let e = *self; let w = s_below_el(e, recursion);
        if self.document is Some {
        assert forall|m: SelectIterator| #[trigger] s_fresh(m, e, recursion) implies s_it_ok(m) && s_refs_ok(*m.document) && !s_itself(m) && s_rest(m) == w by { lemma_g_first(m, e, recursion); }
        assert forall|m: SelectIterator, b: SelectIterator, x: Option<SelectElementsItem>| s_fresh(m, e, recursion) && s_select(m.selector, d, elementtype, set) && #[trigger] s_el_next(m, b, x) implies (match x { Some(x) => exists|n: int| #[trigger] s_first_wanted(d, elementtype, set, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))), None => s_no_wanted(d, elementtype, set, w) }) by { lemma_g_first(m, e, recursion); lemma_g_wanted(d, m.selector, elementtype, set, w, x); }
        }
    }
//# endfn
//# fn src/element.rs Element::get_annotations
//# ret r
//# spec
    requires s_got(*self)
    ensures s_fresh(r.iterator, *self, recursion), s_select(r.iterator.selector, *r.iterator.document, s_at_element(annotationtype), set)
//# endfn
//# fn src/element.rs Element::get_annotation
//# ret r
//# spec
    requires self.document is Some ==> s_got(*self) && s_below_el(*self, recursion).len() + 1 < usize::MAX
    ensures self.document is None ==> r is None,
        self.document is Some ==> ({ let d = v_doc(self.document)->0; let w = s_below_el(*self, recursion); let t = s_at_element(annotationtype); match r { Some(x) => exists|n: int| #[trigger] s_first_wanted(d, t, set, w, n) && s_is_el_at(d, x, s_el_of(s_item(d, w[n]))), None => s_no_wanted(d, t, set, w) } })
//# endfn
//# fn src/element.rs Element::get_features
//# ret r
//# spec
    requires s_got(*self)
    ensures s_fresh(r.iterator, *self, Recursion::No), s_select_features(r.iterator.selector, *r.iterator.document, *self.data, subset)
//# ghost start
    hide(s_matches); hide(s_select_features);
    let ghost d = v_doc(self.document)->0; let ghost of = *self.data;
    proof {
        lemma_g_sound(d);
        assert forall|q: Query, s: Selector| #[trigger] s_compiled(d, q, s) && s_blank_query(Query { elementtype: Cmp::Any, contexttype: Cmp::Any, subset: Cmp::Any, ..q }) && q.elementgroup is Any && q.elementtype == Cmp::Is(ElementType::Feature) && q.contexttype == Cmp::Is(of.elementtype) && q.subset == subset
            && (match s_read_set(Some(d), of) { Some(x) => q.set is Is && q.set->0@ == x, None => q.set is None }) implies s_select_features(s, d, of, subset) by { lemma_g_features(d, q, s, of, subset); }
    }
//# endfn
//# fn src/element.rs Element::get_feature
//# ret r
//# closure 1 |e: SelectElementsItem| -> (o: Element) ensures o == e.element
//# spec
    requires self.document is Some ==> s_got(*self) && s_below_el(*self, Recursion::No).len() + 1 < usize::MAX
    ensures self.document is None ==> r is None,
        self.document is Some ==> ({ let d = v_doc(self.document)->0; let w = s_below_el(*self, Recursion::No); match r { Some(x) => exists|n: int| #[trigger] s_first_own(d, *self.data, subset, w, n) && s_is_el_at(d, x, s_el_of(s_item(d, w[n]))), None => s_no_own(d, *self.data, subset, w) } })
//# ghost start
    hide(s_matches); hide(s_select_features); hide(s_walk); hide(s_el_next);
    let ghost of = *self.data; let ghost d = v_doc(self.document)->0;
    proof {
        let e = *self; let w = s_below_el(e, Recursion::No);
        if self.document is Some {
        assert forall|m: SelectIterator| #[trigger] s_fresh(m, e, Recursion::No) implies s_it_ok(m) && s_refs_ok(*m.document) && !s_itself(m) && s_rest(m) == w by { lemma_g_first(m, e, Recursion::No); }
        assert forall|m: SelectIterator, b: SelectIterator, x: Option<SelectElementsItem>| s_fresh(m, e, Recursion::No) && s_select_features(m.selector, d, of, subset) && #[trigger] s_el_next(m, b, x) implies (match x { Some(x) => exists|n: int| #[trigger] s_first_own(d, of, subset, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n]))), None => s_no_own(d, of, subset, w) }) by { lemma_g_first(m, e, Recursion::No); lemma_g_own(d, m.selector, of, subset, w, x); }
        }
    }
//# endfn
//# fn src/element.rs Element::get_ancestors
//# ret r
//# spec
    requires s_got(*self)
    ensures v_doc(self.document) == Some(*r.document), r.key == self.data.key->0, r.recursion is Always, s_select(r.selector, *r.document, elementtype, set)
//# ghost start
    hide(s_matches); hide(s_select);
    let ghost d = v_doc(self.document)->0;
    proof {
        lemma_g_sound(d);
        assert forall|q: Query, s: Selector| #[trigger] s_compiled(d, q, s) && s_blank_query(Query { elementtype: Cmp::Any, ..q }) && q.elementgroup is Any && q.elementtype == Cmp::Is(elementtype) && q.set == set implies s_select(s, d, elementtype, set) by { lemma_g_type(d, q, s, elementtype, set); }
    }
//# endfn
//# fn src/element.rs Element::get_ancestors_by_group
//# ret r
//# spec
    requires s_got(*self)
    ensures v_doc(self.document) == Some(*r.document), r.key == self.data.key->0, r.recursion is Always, s_select_group(r.selector, *r.document, elementgroup, set)
//# ghost start
    hide(s_matches); hide(s_select_group);
    let ghost d = v_doc(self.document)->0;
    proof {
        lemma_g_sound(d);
        assert forall|q: Query, s: Selector| #[trigger] s_compiled(d, q, s) && s_blank_query(q) && q.elementgroup == Cmp::Is(elementgroup) && q.set == set implies s_select_group(s, d, elementgroup, set) by { lemma_g_group(d, q, s, elementgroup, set); }
    }
//# endfn
//# fn src/element.rs Element::get_ancestor
//# ret r
//# closure 1 |e: SelectElementsItem| -> (o: Element) ensures o == e.element
//# spec
    requires self.document is Some ==> s_got(*self)
    ensures self.document is None ==> r is None,
        self.document is Some ==> exists|s: Selector| #[trigger] s_select(s, v_doc(self.document)->0, elementtype, set) && s_is_anc(*self, s, r)
//# ghost start
    hide(s_matches); hide(s_select); hide(s_anc);
    proof { if self.document is Some { let d = v_doc(self.document)->0; lemma_g_sound(d); lemma_s_good(d, self.data.key->0 as int); } }
//# endfn
//# fn src/element.rs Element::get_ancestor_by_group
//# ret r
//# closure 1 |e: SelectElementsItem| -> (o: Element) ensures o == e.element
//# spec
    requires self.document is Some ==> s_got(*self)
    ensures self.document is None ==> r is None,
        self.document is Some ==> exists|s: Selector| #[trigger] s_select_group(s, v_doc(self.document)->0, elementgroup, set) && s_is_anc(*self, s, r)
//# ghost start
    hide(s_matches); hide(s_select_group); hide(s_anc);
    proof { if self.document is Some { let d = v_doc(self.document)->0; lemma_g_sound(d); lemma_s_good(d, self.data.key->0 as int); } }
//# endfn
}
// the nearest above an element a selector matches
pub open spec fn s_is_anc(e: Element, s: Selector, r: Option<Element>) -> bool { let d = v_doc(e.document)->0; match s_anc(d, s, Recursion::Always, e.data.key->0 as int) { Some(p) => r is Some && s_is_el_at(d, r->0, p), None => r is None } }
proof fn lemma_g_sound(d: Document)
    requires s_sound(d)
    ensures s_doc_inv(d), s_all_encoded(d), s_good(d), s_refs_ok(d)
{ reveal(s_good); }
// C08: the nearest of the elements above it that are wanted; none if there is none.
pub open spec fn s_wanted_above(d: Document, k: int, t: ElementType, set: Cmp<String>, a: int) -> bool { a != k && t_above(s_elems(d), k, a) && s_elem(d, a) is Some && s_wanted(d, t, set, s_elem(d, a)->0) }
proof fn c08_got(e: Element, s: Selector, t: ElementType, set: Cmp<String>, r: Option<Element>)
    requires s_got(e), s_select(s, v_doc(e.document)->0, t, set), s_is_anc(e, s, r)
    ensures ({ let d = v_doc(e.document)->0; let k = e.data.key->0 as int; match r {
        Some(x) => exists|p: int| s_is_el_at(d, x, p) && #[trigger] s_wanted_above(d, k, t, set, p) && forall|a: int| #[trigger] s_wanted_above(d, k, t, set, a) ==> a == p || t_above(s_elems(d), p, a),
        None => forall|a: int| !#[trigger] s_wanted_above(d, k, t, set, a) } })
{
    hide(s_matches); hide(s_wanted); hide(t_above); hide(s_ancs); hide(s_anc);
    let d = v_doc(e.document)->0; let k = e.data.key->0 as int;
    lemma_g_sound(d); lemma_s_good(d, k);
    c08_chain(d, k);
    lemma_s_anc(d, s, Recursion::Always, k);
    c08_ancestors(d, s, k);
    let v = s_ancs(d, s, k);
    assert forall|a: int| #[trigger] s_wanted_above(d, k, t, set, a) implies v.contains(a as ElementKey) && 0 <= a < s_elems(d).len() by { assert(0 <= a < s_elems(d).len()); assert(s_is_el(DataType::Element(a as ElementKey))); assert(s_matches(d, s, DataType::Element(a as ElementKey))); }
    if let Some(p) = s_anc(d, s, Recursion::Always, k) {
        assert(v[0] == p as ElementKey);
        assert(v.contains(p as ElementKey));
        assert(s_matches(d, s, DataType::Element(p as ElementKey))); assert(s_is_el(DataType::Element(p as ElementKey)));
        lemma_s_good(d, p);
        assert(s_wanted_above(d, k, t, set, p));
        assert forall|a: int| #[trigger] s_wanted_above(d, k, t, set, a) implies a == p || t_above(s_elems(d), p, a) by { let j = choose|j: int| 0 <= j < v.len() && v[j] == a as ElementKey; if j > 0 { let u = v[0]; assert(t_above(s_elems(d), v[0] as int, v[j] as int)); } }
    } else {
        assert forall|a: int| !#[trigger] s_wanted_above(d, k, t, set, a) by { if s_wanted_above(d, k, t, set, a) { assert(v.contains(a as ElementKey)); } }
    }
}
}
fn main() {}
