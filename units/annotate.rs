//# properties C11
//# covers C11: annotate, annotate_span and all they decide: what is accepted, where a span annotation ends up, that a layer that is there is reused, and that there is still no more than one layer of a type and set where there was no more than one
//# include core.inc
verus! {
//# unit-mode annotate
//# include encode_lemmas.inc
//# include matching_lemmas.inc
//# include props.inc
//# include add_lemmas.inc
//# derived src/specification.rs AcceptedData PartialEq
impl PartialEqSpecImpl for AcceptedData {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &AcceptedData) -> bool { *self == *other }
}
impl PartialEq for AcceptedData {
    fn eq(&self, other: &AcceptedData) -> (r: bool) {
        broadcast use {axiom_et_obeys, axiom_et_eq};
        match (self, other) { (AcceptedData::AcceptElementType(a), AcceptedData::AcceptElementType(b)) => *a == *b, (AcceptedData::AcceptElementGroup(a), AcceptedData::AcceptElementGroup(b)) => *a == *b, _ => false }
    }
}
// an element of this type may be put in one of that type
pub open spec fn s_takes(d: Document, t: ElementType, u: ElementType) -> bool { s_accepted(s_props_of(d, t).accepted_data@, u) }
// a layer of this type and set
pub open spec fn s_layer_of(d: Document, lt: ElementType, set: Option<Seq<char>>, x: int) -> bool {
    match s_elem(d, x) { Some(e) => e.elementtype == lt && s_el_at(lt) is Some && match s_read_dec(Some(d), e) { Some(dec) => dec.annotationtype == s_el_at(lt)->0 && s_opt(dec.set) == set, None => false }, None => false }
}
pub open spec fn s_layer_at(d: Document, k: int, lt: ElementType, set: Option<Seq<char>>, c: int) -> bool {
    0 <= c < t_data(s_elems(d), k).len() && s_is_el(t_data(s_elems(d), k)[c]) && s_layer_of(d, lt, set, s_el_of(t_data(s_elems(d), k)[c]))
}
// the first of the layers under k
pub open spec fn s_layer_first(d: Document, k: int, lt: ElementType, set: Option<Seq<char>>, c: int) -> bool {
    s_layer_at(d, k, lt, set, c) && forall|j: int| 0 <= j < c ==> !#[trigger] s_layer_at(d, k, lt, set, j)
}
pub open spec fn s_no_layer(d: Document, k: int, lt: ElementType, set: Option<Seq<char>>) -> bool { forall|j: int| !#[trigger] s_layer_at(d, k, lt, set, j) }
pub open spec fn s_layer_query(q: Query, lt: ElementType, set: Option<Seq<char>>) -> bool {
    s_blank_query(Query { elementtype: Cmp::Any, ..q }) && q.elementgroup is Any && q.elementtype == Cmp::Is(lt) && match set { Some(x) => q.set is Is && q.set->0@ == x, None => q.set is None }
}
proof fn lemma_n_layer(d: Document, q: Query, s: Selector, lt: ElementType, set: Option<Seq<char>>, k: ElementKey)
    requires s_doc_inv(d), s_all_encoded(d), s_compiled(d, q, s), s_layer_query(q, lt, set)
    ensures s_matches(d, s, DataType::Element(k)) == s_layer_of(d, lt, set, k as int), s_matches(d, s, DataType::SpanReference(k)) == s_layer_of(d, lt, set, k as int)
{
    broadcast use group_matching;
    if let Some(e) = s_elem(d, k as int) { c07_query(d, q, s, k, e); }
}
// the walk over the children alone
proof fn lemma_n_walk(d: Document, k: int, c: int)
    requires t_inv(d), 0 <= c, 0 <= k
    ensures s_walk(d, Recursion::No, k, c, 1).len() == (if c < t_data(s_elems(d), k).len() { t_data(s_elems(d), k).len() - c } else { 0 }),
        forall|i: int| 0 <= i < s_walk(d, Recursion::No, k, c, 1).len() ==> #[trigger] s_walk(d, Recursion::No, k, c, 1)[i] == (Spot { at: k, cursor: c + i, depth: 1 }),
    decreases t_data(s_elems(d), k).len() - c
{
    if c < t_data(s_elems(d), k).len() {
        lemma_n_walk(d, k, c + 1);
        assert(s_walk(d, Recursion::No, k, c, 1) =~= seq![Spot { at: k, cursor: c, depth: 1 }] + s_walk(d, Recursion::No, k, c + 1, 1));
    }
}
proof fn lemma_n_start(d: Document, k: ElementKey, stack: Seq<(ElementKey, usize)>)
    requires s_good(d), stack == seq![(k, 0usize)]
    ensures s_to_come(d, Recursion::No, stack) == s_walk(d, Recursion::No, k as int, 0, 1), s_walk(d, Recursion::No, k as int, 0, 1).len() == t_data(s_elems(d), k as int).len(),
        forall|i: int| 0 <= i < t_data(s_elems(d), k as int).len() ==> #[trigger] s_walk(d, Recursion::No, k as int, 0, 1)[i] == (Spot { at: k as int, cursor: i, depth: 1 }),
{
    reveal(s_good);
    lemma_n_walk(d, k as int, 0);
    assert(stack.drop_last().len() == 0);
    assert(s_to_come(d, Recursion::No, stack.drop_last()) =~= Seq::empty());
    assert(s_to_come(d, Recursion::No, stack) =~= s_walk(d, Recursion::No, k as int, 0, 1));
}
proof fn lemma_n_long(d: Document, k: int, c: int)
    requires t_inv(d), 0 <= c, 0 <= k
    ensures s_walk(d, Recursion::Always, k, c, 1).len() >= t_data(s_elems(d), k).len() - c
    decreases t_data(s_elems(d), k).len() - c
{ if c < t_data(s_elems(d), k).len() { lemma_n_long(d, k, c + 1); } }
// the walk get_layer_key goes on
pub open spec fn s_layer_walk(m: SelectIterator, d: Document, k: ElementKey, q: Query, lt: ElementType, set: Option<Seq<char>>) -> bool {
    *m.document == d && s_compiled(d, q, m.selector) && s_layer_query(q, lt, set) && m.recursion is No && !m.inclusive && m.spanreferences && m.iteration == 0 && m.stack@ == seq![(k, 0usize)] && m.returned@.len() == 0 && m.returned_offset == 0
}
pub open spec fn s_layer_res(d: Document, k: ElementKey, lt: ElementType, set: Option<Seq<char>>, r: Option<SelectElementsItem>) -> bool {
    match r { Some(x) => exists|c: int| #[trigger] s_layer_first(d, k as int, lt, set, c) && s_is_el_at(d, x.element, s_el_of(t_data(s_elems(d), k as int)[c])) && 0 <= s_el_of(t_data(s_elems(d), k as int)[c]) < s_elems(d).len(), None => s_no_layer(d, k as int, lt, set) }
}
proof fn lemma_n_none(d: Document, k: ElementKey, q: Query, lt: ElementType, set: Option<Seq<char>>, m: SelectIterator)
    requires s_sound(d), s_elem(d, k as int) is Some, s_layer_walk(m, d, k, q, lt, set), s_walk(d, Recursion::Always, k as int, 0, 1).len() + 2 < usize::MAX
    ensures s_it_ok(m), !s_itself(m), s_rest(m).len() + 1 < usize::MAX, s_rest(m).len() == t_data(s_elems(d), k as int).len(),
        forall|b: SelectIterator, r: Option<SelectElementsItem>| #[trigger] s_el_next(m, b, r) ==> s_layer_res(d, k, lt, set, r),
{
    hide(s_matches); hide(s_matchable); hide(s_walk); hide(s_to_come); hide(s_compiled);
    lemma_s_good(d, k as int);
    lemma_n_start(d, k, m.stack@);
    assert(t_inv(d)) by { reveal(s_good); }
    lemma_n_long(d, k as int, 0);
    let w = s_rest(m);
    let data = t_data(s_elems(d), k as int);
    assert(m.recursion == Recursion::No);
    assert forall|i: int| 0 <= i < w.len() implies s_item(d, #[trigger] w[i]) == data[i] && (s_is_el(data[i]) && s_yields(m, data[i]) <==> s_layer_at(d, k as int, lt, set, i)) by {
        lemma_n_item(d, q, m.selector, lt, set, data[i]);
        assert(w[i] == (Spot { at: k as int, cursor: i, depth: 1 }));
    }
    assert forall|b: SelectIterator, r: Option<SelectElementsItem>| #[trigger] s_el_next(m, b, r) implies s_layer_res(d, k, lt, set, r) by {
        if !s_matchable(m.selector) {
            assert forall|j: int| !#[trigger] s_layer_at(d, k as int, lt, set, j) by {
                if s_layer_at(d, k as int, lt, set, j) { let i = w[j]; lemma_n_item(d, q, m.selector, lt, set, data[j]); lemma_n_unmatchable(d, m.selector, data[j]); }
            }
        } else if let Some(x) = r {
            let n = choose|n: int| #[trigger] s_el_found(m, w, n) && s_is_el_at(d, x.element, s_el_of(s_item(d, w[n])));
            let i = w[n];
            assert forall|j: int| 0 <= j < n implies !#[trigger] s_layer_at(d, k as int, lt, set, j) by { let i = w[j]; }
            assert(s_layer_first(d, k as int, lt, set, n));
        } else {
            assert forall|j: int| !#[trigger] s_layer_at(d, k as int, lt, set, j) by { if s_layer_at(d, k as int, lt, set, j) { let i = w[j]; } }
        }
    }
}
proof fn lemma_n_item(d: Document, q: Query, s: Selector, lt: ElementType, set: Option<Seq<char>>, x: DataType)
    requires s_sound(d), s_compiled(d, q, s), s_layer_query(q, lt, set)
    ensures s_is_el(x) ==> s_matches(d, s, x) == s_layer_of(d, lt, set, s_el_of(x))
{
    reveal(s_good);
    match x { DataType::Element(k) => lemma_n_layer(d, q, s, lt, set, k), DataType::SpanReference(k) => lemma_n_layer(d, q, s, lt, set, k), _ => {} }
}
proof fn lemma_n_unmatchable(d: Document, s: Selector, x: DataType)
    requires !s_matchable(s), s_is_el(x)
    ensures !s_matches(d, s, x)
    decreases s
{ if let Some(n) = s.next { lemma_n_unmatchable(d, *n, x); } }
// what the words of a new span annotation are
pub open spec fn s_span_key(d: Document, x: DataType) -> Option<ElementKey> {
    match x {
        DataType::Element(k) => Some(k),
        DataType::AddElement(e) => if e.elementtype is WordReference { match s_find(e.attribs@, AttribType::IDREF) { Some(i) => s_lookup(d.elementstore.index@, s_text(e.attribs@[i])->0), None => None } } else { None },
        _ => None,
    }
}
pub open spec fn s_span_keys(d: Document, data: Seq<DataType>) -> Seq<ElementKey>
    decreases data.len()
{ if data.len() == 0 { Seq::empty() } else { match s_span_key(d, data.last()) { Some(k) => s_span_keys(d, data.drop_last()).push(k), None => s_span_keys(d, data.drop_last()) } } }
// where a new annotation belongs
pub open spec fn s_direct(d: Document, p: int, t: ElementType) -> bool {
    let u = s_elem(d, p)->0.elementtype;
    !s_in_group(ElementGroup::Span, t) || !(s_props_of(d, u).wrefable || s_in_group(ElementGroup::Structure, u))
}
pub open spec fn s_from_word(d: Document, p: int) -> bool { s_props_of(d, s_elem(d, p)->0.elementtype).wrefable }
pub open spec fn s_layer_type(t: ElementType) -> Option<ElementType> { match s_el_at(t) { Some(at) => s_at_layer(at), None => None } }
// the set a new annotation is in
pub open spec fn s_new_set(d: Document, e: ElementData) -> Option<Seq<char>> {
    match s_raw(e, AttribType::SET) { Ok(Some(x)) => Some(x), Ok(None) => match s_default(s_decs(d), s_el_at(e.elementtype)->0) { Some(i) => s_opt(s_decs(d)[i]->0.set), None => None }, Err(_) => None }
}
// structure elements above all the words, nearest first
pub open spec fn s_structure(d: Document, k: int) -> bool { match s_elem(d, k) { Some(e) => s_in_group(ElementGroup::Structure, e.elementtype), None => false } }
pub open spec fn s_over(d: Document, ks: Seq<ElementKey>, v: Seq<ElementKey>) -> bool {
    exists|s: Selector| #[trigger] s_structures(s) && v == (match s_common(d, s, ks, ks.len()) { Some(v) => v, None => Seq::empty() })
}
pub open spec fn s_structures(s: Selector) -> bool { forall|d: Document, k: ElementKey| #[trigger] s_matches(d, s, DataType::Element(k)) == s_structure(d, k as int) }
// an element that can hold such layers
pub open spec fn s_holds(d: Document, k: int, lt: ElementType) -> bool {
    match s_elem(d, k) { Some(e) => { let v = s_props_of(d, e.elementtype).accepted_data@; v.contains(AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || v.contains(AcceptedData::AcceptElementType(lt)) }, None => false }
}
pub open spec fn s_nearest(d: Document, v: Seq<ElementKey>, lt: ElementType, i: int) -> bool { 0 <= i < v.len() && s_holds(d, v[i] as int, lt) && forall|j: int| 0 <= j < i ==> !s_holds(d, #[trigger] v[j] as int, lt) }
// what a new span annotation goes into a layer of: what was asked for, or what is nearest above all its words
pub open spec fn s_lands(d: Document, p: int, e: ElementData, a: int) -> bool {
    if s_from_word(d, p) { exists|v: Seq<ElementKey>, i: int| #[trigger] s_over(d, s_span_keys(d, e.data@), v) && #[trigger] s_nearest(d, v, s_layer_type(e.elementtype)->0, i) && a == v[i] } else { a == p }
}
pub open spec fn s_new_layer(x: ElementData, lt: ElementType, set: Seq<char>) -> bool { x.elementtype == lt && x.attribs@.len() == 1 && x.attribs@[0] is Set && x.attribs@[0]->Set_0@ == set && x.data@.len() == 0 && x.key is None && x.parent is None }
pub open spec fn s_put(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey) -> bool { s_elem(d, p as int) is Some && t_new_ids(d, e) && t_all_there(d, Some(p), e) && s_takes(d, s_elem(d, p as int)->0.elementtype, e.elementtype) && s_added_el(d, Some(p), e, m, k) }
// the layer that is there, or else a new one
pub open spec fn s_layered(d: Document, a: int, lt: ElementType, set: Seq<char>, m: Document, l: ElementKey) -> bool {
    (m == d && exists|c: int| #[trigger] s_layer_first(d, a, lt, Some(set), c) && l == s_el_of(t_data(s_elems(d), a)[c]))
    || (s_no_layer(d, a, lt, Some(set)) && 0 <= a < s_elems(d).len() && exists|x: ElementData| #[trigger] s_new_layer(x, lt, set) && s_put(d, a as ElementKey, x, m, l))
}
// a new annotation k has come to be where it belongs
pub open spec fn s_annotated(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey) -> bool {
    if s_direct(d, p as int, e.elementtype) { s_put(d, p, e, m, k) }
    else { s_layer_type(e.elementtype) is Some && s_new_set(d, e) is Some && exists|a: int, d1: Document, l: ElementKey| s_lands(d, p as int, e, a) && #[trigger] s_layered(d, a, s_layer_type(e.elementtype)->0, s_new_set(d, e)->0, d1, l) && s_put(d1, l, e, m, k) }
}
// what is refused: nothing is added then
pub open spec fn s_refused(d: Document, p: ElementKey, e: ElementData) -> bool {
    s_elem(d, p as int) is None
    || (s_direct(d, p as int, e.elementtype) && !s_takes(d, s_elem(d, p as int)->0.elementtype, e.elementtype))
    || (s_in_group(ElementGroup::Span, e.elementtype) && s_layer_type(e.elementtype) is None)
    || (!s_direct(d, p as int, e.elementtype) && (s_new_set(d, e) is None || (forall|a: int| !#[trigger] s_lands(d, p as int, e, a))
        || forall|a: int| #[trigger] s_lands(d, p as int, e, a) ==> 0 <= a < s_elems(d).len() && s_no_layer(d, a, s_layer_type(e.elementtype)->0, s_new_set(d, e)) && !s_takes(d, s_elem(d, a)->0.elementtype, s_layer_type(e.elementtype)->0)))
}
proof fn lemma_n_span(t: ElementType)
    ensures s_in_group(ElementGroup::Span, t) ==> s_el_at(t) is Some
{ }
proof fn lemma_n_sound(d: Document)
    requires s_sound(d)
    ensures s_good(d), s_refs_ok(d), s_doc_inv(d), s_decs_inv(d)
{ }
proof fn lemma_n_structures(d: Document, q: Query, s: Selector)
    requires s_doc_inv(d), s_blank_query(q), q.set is Any, q.elementgroup == Cmp::Is(ElementGroup::Structure), s_compiled(d, q, s)
    ensures s_structures(s)
{
    hide(s_in_group);
    assert forall|d: Document, k: ElementKey| #[trigger] s_matches(d, s, DataType::Element(k)) == s_structure(d, k as int) by { assert(s.datatypes@[0] == DataTypeSelector::Elements); }
}
proof fn lemma_n_over(d: Document, q: Query, ks: Seq<ElementKey>, v: Seq<ElementKey>)
    requires s_doc_inv(d), s_blank_query(q), q.set is Any, q.elementgroup == Cmp::Is(ElementGroup::Structure), exists|s: Selector| s_compiled(d, q, s) && v == (match #[trigger] s_common(d, s, ks, ks.len()) { Some(v) => v, None => Seq::empty() })
    ensures s_over(d, ks, v)
{
    let s = choose|s: Selector| s_compiled(d, q, s) && v == (match #[trigger] s_common(d, s, ks, ks.len()) { Some(v) => v, None => Seq::empty() });
    lemma_n_structures(d, q, s);
}
// what has been added to has the same specification
proof fn lemma_n_spec(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey)
    requires s_sound(d), s_added_el(d, Some(p), e, m, k), t_refs(e, s_elems(d).len() as int)
    ensures m.elementstore.specification == d.elementstore.specification, s_elems(d).len() <= s_elems(m).len()
{
    hide(s_sound);
    let (d1, keys, w) = choose|d1: Document, keys: Seq<ElementKey>, w: Seq<Document>| #[trigger] s_added_as(d, Some(p), e, d1, k, keys) && #[trigger] s_posted_all(w, s_to_post(Some(p), k, keys)) && s_placed(d1, Some(p), k, w[0]) && s_sound(d1) && s_sound(w[0]) && w.last() == m;
    assert(t_rest(d1).elementstore.specification == d1.elementstore.specification && t_rest(d).elementstore.specification == d.elementstore.specification);
    assert(s_but_elems(w[0]).elementstore.specification == w[0].elementstore.specification && s_but_elems(d1).elementstore.specification == d1.elementstore.specification);
    let all = s_to_post(Some(p), k, keys);
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] all[i] < s_elems(w[0]).len() by { if i < keys.len() { assert(all[i] == keys[i]); } }
    lemma_n_posted(w[0], w, all, all.len() as int);
}
proof fn lemma_n_posted(d: Document, w: Seq<Document>, keys: Seq<ElementKey>, n: int)
    requires s_sound(d), w[0] == d, s_posted_all(w, keys), 0 <= n <= keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] keys[i]) < s_elems(d).len()
    ensures s_sound(w[n]), w[n].elementstore.specification == d.elementstore.specification, s_elems(w[n]).len() == s_elems(d).len()
    decreases n
{
    if n > 0 { lemma_n_posted(d, w, keys, n - 1); assert(s_posted_at(w, keys, n - 1)); lemma_a_step(w[n - 1], keys[n - 1] as int, w[n], Ok(())); reveal(s_only_refs); assert(s_but_elems(w[n]).elementstore.specification == s_but_elems(w[n - 1]).elementstore.specification); }
}
proof fn lemma_n_new(x: ElementData, n: int)
    requires x.data@.len() == 0, x.parent is None, x.attribs@.len() == 1, x.attribs@[0] is Set
    ensures t_given(x), t_refs(x, n)
{
    assert(t_plain(x)) by { if s_any_encodable(x.attribs@) { assert forall|i: int| 0 <= i < x.attribs@.len() implies !s_decodable(#[trigger] x.attribs@[i]) by {} } }
    assert(t_refs_under(x, n));
    let f = |x: ElementData| t_plain(x); let g = |x: ElementData| t_refs_under(x, n);
    assert(f(x) && g(x));
    assert(t_every(x, f)); assert(t_every(x, g));
}
// a new layer has been added
proof fn lemma_n_layered(d: Document, a: ElementKey, lt: ElementType, set: Seq<char>, x: ElementData, m: Document, l: ElementKey, e: ElementData)
    requires s_sound(d), s_no_layer(d, a as int, lt, Some(set)), a < s_elems(d).len(), s_new_layer(x, lt, set), s_put(d, a, x, m, l), t_refs(e, s_elems(d).len() as int)
    ensures s_layered(d, a as int, lt, set, m, l), t_refs(e, s_elems(m).len() as int)
{
    lemma_n_new(x, s_elems(d).len() as int);
    lemma_n_spec(d, a, x, m, l);
    lemma_t_refs_up(e, s_elems(d).len() as int, s_elems(m).len() as int);
}
proof fn lemma_n_direct(d: Document, p: ElementKey, e: ElementData)
    requires s_elem(d, p as int) is Some, s_direct(d, p as int, e.elementtype), s_takes(d, s_elem(d, p as int)->0.elementtype, e.elementtype), s_in_group(ElementGroup::Span, e.elementtype) ==> s_layer_type(e.elementtype) is Some
    ensures !s_refused(d, p, e), forall|m: Document, k: ElementKey| #[trigger] s_added_el(d, Some(p), e, m, k) && s_put(d, p, e, m, k) ==> s_annotated(d, p, e, m, k)
{ hide(s_in_group); }
proof fn lemma_n_fresh(d: Document, p: ElementKey, e: ElementData, a: int)
    requires s_elem(d, p as int) is Some, !s_direct(d, p as int, e.elementtype), s_layer_type(e.elementtype) is Some, s_new_set(d, e) is Some, s_lands(d, p as int, e, a), s_takes(d, s_elem(d, a)->0.elementtype, s_layer_type(e.elementtype)->0)
    ensures !s_refused(d, p, e)
{ hide(s_in_group); hide(s_lands); hide(s_takes); hide(s_no_layer); }
proof fn lemma_n_via(d: Document, p: ElementKey, e: ElementData, a: int, d1: Document, l: ElementKey)
    requires s_elem(d, p as int) is Some, !s_direct(d, p as int, e.elementtype), s_layer_type(e.elementtype) is Some, s_new_set(d, e) is Some, s_lands(d, p as int, e, a), s_layered(d, a, s_layer_type(e.elementtype)->0, s_new_set(d, e)->0, d1, l)
    ensures !s_refused(d, p, e), forall|m: Document, k: ElementKey| #[trigger] s_added_el(d1, Some(l), e, m, k) && s_put(d1, l, e, m, k) ==> s_annotated(d, p, e, m, k)
{
    hide(s_in_group); hide(s_lands);
    let lt = s_layer_type(e.elementtype)->0; let st = s_new_set(d, e);
    if s_no_layer(d, a, lt, st) { assert(forall|c: int| !#[trigger] s_layer_first(d, a, lt, st, c)) by { assert forall|c: int| !#[trigger] s_layer_first(d, a, lt, st, c) by { if s_layer_first(d, a, lt, st, c) { assert(s_layer_at(d, a, lt, st, c)); } } } }
}
impl Document {
//# fn src/document.rs Document::check_element_addable
//# ret r
//# spec
    ensures r is Ok <==> s_elem(*self, parent_key as int) is Some && s_takes(*self, s_elem(*self, parent_key as int)->0.elementtype, element.elementtype)
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !s_accepts(#[trigger] props.accepted_data@[j], element.elementtype),
//# ghost loop 1 start
    proof { assert(accepted_data == &props.accepted_data@[it.index()]); broadcast use {axiom_et_obeys, axiom_et_eq}; }
//# endfn
//# fn src/document.rs Document::get_span_keys
//# ret r
//# spec
    ensures r@ == s_span_keys(*self, elementdata.data@)
//# loop 1 it
    invariant span_keys@ == s_span_keys(*self, elementdata.data@.take(it.index())),
//# ghost loop 1 start
    proof { assert(child == &elementdata.data@[it.index()]); assert(elementdata.data@.take(it.index() + 1).drop_last() =~= elementdata.data@.take(it.index())); assert(elementdata.data@.take(it.index() + 1).last() == *child); }
//# ghost loop 1 after
    proof { assert(elementdata.data@.take(elementdata.data@.len() as int) =~= elementdata.data@); }
//# endfn
//# fn src/document.rs Document::get_layer_key
//# ret r
//# spec
    requires s_sound(*self)
    ensures match s_at_layer(annotationtype) { None => r is Err, Some(lt) => match r {
        Ok(Some(l)) => exists|c: int| #[trigger] s_layer_first(*self, key as int, lt, v_str(set), c) && l == s_el_of(t_data(s_elems(*self), key as int)[c]),
        Ok(None) => s_no_layer(*self, key as int, lt, v_str(set)),
        Err(_) => false } }
//# replace /layer.key()/ => /layer.element.key()/
//# ghost let selector after
    let ghost d = *self; let ghost sel = selector; let ghost q = query; let ghost lt = layertype; let ghost st = v_str(set);
    proof { assert(s_layer_query(q, lt, st)); assert(s_compiled(d, q, sel)); if s_elem(d, key as int) is Some { lemma_s_good(d, key as int); } }
//# loop 1 =vx_it
    invariant vx_it.iterator == m,
    decreases 0int
//# ghost loop 1 init
    let ghost m = vx_it.iterator;
    proof { lemma_n_none(d, key, q, lt, st, m); }
//# ghost loop 1 start
    proof { assert(s_layer_res(d, key, lt, st, Some(layer))); let c = choose|c: int| #[trigger] s_layer_first(d, key as int, lt, st, c) && s_is_el_at(d, layer.element, s_el_of(t_data(s_elems(d), key as int)[c])) && 0 <= s_el_of(t_data(s_elems(d), key as int)[c]) < s_elems(d).len(); lemma_s_good(d, s_el_of(t_data(s_elems(d), key as int)[c])); }
//# ghost loop 1 done
    proof { assert(s_no_layer(d, key as int, lt, st)); }
//# ghost start
    hide(s_matches); hide(s_matchable); hide(s_walk); hide(s_to_come); hide(s_in_group); hide(s_el_next);
    proof { reveal(s_good); }
    axiom_memory(self, key);
//# endfn
//# fn src/document.rs Document::annotate
//# attr #[verifier::spinoff_prover]
//# ret r
//# spec
    requires s_sound(*old(self)), t_given(element), t_refs(element, s_elems(*old(self)).len() as int)
    ensures s_sound(*final(self)),
        r is Ok ==> s_annotated(*old(self), parent_key, element, *final(self), r->Ok_0),
        s_refused(*old(self), parent_key, element) ==> r is Err && *final(self) == *old(self),
//# closure 1 |s: &String| -> (o: &str) ensures o@ == s@
//# closure 2 |s: &String| -> (o: &str) ensures o@ == s@
//# loop 1 it
    invariant *self == d, v == common_ancestors@, set is Some, set->0@ == st, forall|j: int| 0 <= j < it.index() ==> !s_holds(d, #[trigger] v[j] as int, layertype),
//# ghost let query after
    let ghost q = query; let ghost st = set->0@;
    proof { assert(s_new_set(d, el) == Some(st)); }
//# ghost let common_ancestors after
    let ghost v = common_ancestors@;
    proof { lemma_n_over(d, q, span_keys@, v); }
//# ghost loop 1 start
    let ghost i = it.index() as int; let ghost a = *ancestor_key;
    proof { assert(ancestor_key == &v[i]); }
//# ghost call get_layer_key 1 before
    proof { assert(s_nearest(d, v, layertype, i)); assert(s_lands(d, parent_key as int, el, a as int)); }
//# ghost call check_element_addable 1 before
    let ghost x = layerdata;
    proof { assert(s_new_layer(x, layertype, st)); lemma_n_new(x, s_elems(d).len() as int); }
//# ghost call add_element_to 1 before
    proof { lemma_n_fresh(d, parent_key, el, a as int); }
//# ghost call add_element_to 1 after
    proof { lemma_n_layered(d, a, layertype, st, x, *self, layer_key->0, el); }
//# ghost call check_element_addable 2 before
    proof { assert(s_layered(d, a as int, layertype, st, *self, layer_key->0)); lemma_n_via(d, parent_key, el, a as int, *self, layer_key->0); }
//# ghost call get_layer_key 2 before
    let ghost st = set->0@;
    proof { assert(s_new_set(d, el) == Some(st)); assert(s_lands(d, parent_key as int, el, parent_key as int)); }
//# ghost call check_element_addable 3 before
    let ghost x = layerdata;
    proof { assert(s_new_layer(x, layertype, st)); lemma_n_new(x, s_elems(d).len() as int); }
//# ghost call add_element_to 3 before
    proof { lemma_n_fresh(d, parent_key, el, parent_key as int); }
//# ghost call add_element_to 3 after
    proof { lemma_n_layered(d, parent_key, layertype, st, x, *self, layer_key->0, el); }
//# ghost call check_element_addable 4 before
    proof { assert(s_layered(d, parent_key as int, layertype, st, *self, layer_key->0)); lemma_n_via(d, parent_key, el, parent_key as int, *self, layer_key->0); }
//# ghost call add_element_to 5 before
    proof { lemma_n_direct(d, parent_key, el); }
//# ghost call add_element_to 6 before
    proof { lemma_n_direct(d, parent_key, el); }
//# ghost start
    hide(s_added_el); hide(s_sound); hide(s_common); hide(s_in_group); hide(s_matches); hide(s_accepted); hide(s_no_layer); hide(s_layer_first); hide(s_refused); hide(s_annotated); hide(t_given); hide(t_refs); hide(s_span_keys);
    let ghost d = *self; let ghost el = element;
    proof { lemma_n_sound(d); lemma_n_span(el.elementtype); if s_elem(d, parent_key as int) is Some { lemma_s_good(d, parent_key as int); } }
//# endfn
//# fn src/document.rs Document::annotate_span
//# ret r
//# spec
    requires s_sound(*old(self)), t_given(element), t_refs(element, s_elems(*old(self)).len() as int)
    ensures s_sound(*final(self)), s_refused_span(*old(self), element) ==> r is Err && *final(self) == *old(self),
        r is Ok ==> !s_refused_span(*old(self), element) && s_annotated(*old(self), s_span_keys(*old(self), element.data@)[0], element, *final(self), r->Ok_0),
//# ghost start
    hide(s_refused); hide(s_annotated); hide(s_in_group); hide(t_given); hide(t_refs);
//# endfn
}
pub open spec fn s_refused_span(d: Document, e: ElementData) -> bool { !s_in_group(ElementGroup::Span, e.elementtype) || s_span_keys(d, e.data@).len() == 0 || s_refused(d, s_span_keys(d, e.data@)[0], e) }
// C11: what has been put somewhere is there, and what it is in accepts it.
proof fn c11_put(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey)
    requires s_sound(d), s_put(d, p, e, m, k), t_bound(e, 0), t_refs(e, s_elems(d).len() as int)
    ensures k == s_elems(d).len(), s_elem(m, k as int) is Some, s_elem(m, k as int)->0.parent == Some(p), s_elem(m, k as int)->0.elementtype == e.elementtype, t_data(s_elems(m), p as int).contains(DataType::Element(k)),
        s_elem(m, p as int) is Some, s_takes(m, s_elem(m, p as int)->0.elementtype, s_elem(m, k as int)->0.elementtype),
{
    hide(s_takes);
    assert(s_elem(d, p as int) is Some);
    c05_added(d, Some(p), e, m, k);
    lemma_n_spec(d, p, e, m, k);
    lemma_n_type(d, p, e, m, k);
    assert(c05_kept(d, Some(p), k, m, p as int));
    lemma_s_good(m, p as int); lemma_s_good(m, k as int);
    lemma_n_takes(d, m);
}
proof fn lemma_n_takes(d: Document, m: Document)
    requires m.elementstore.specification == d.elementstore.specification
    ensures forall|t: ElementType, u: ElementType| s_takes(m, t, u) == s_takes(d, t, u)
{ }
// its type is the one given; a set that was given is its set
proof fn lemma_n_type(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey)
    requires s_sound(d), s_added_el(d, Some(p), e, m, k), t_bound(e, 0)
    ensures s_elem(m, k as int) is Some, s_elem(m, k as int)->0.elementtype == e.elementtype
{
    hide(s_sound);
    let (d1, keys, w) = choose|d1: Document, keys: Seq<ElementKey>, w: Seq<Document>| #[trigger] s_added_as(d, Some(p), e, d1, k, keys) && #[trigger] s_posted_all(w, s_to_post(Some(p), k, keys)) && s_placed(d1, Some(p), k, w[0]) && s_sound(d1) && s_sound(w[0]) && w.last() == m;
    let all = s_to_post(Some(p), k, keys);
    assert(t_enc(d1, k as int, Some(p), e));
    assert(s_elem(d1, k as int) is Some && s_elem(d1, k as int)->0.elementtype == e.elementtype) by { reveal(t_enc); }
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] all[i] < s_elems(w[0]).len() by { if i < keys.len() { assert(all[i] == keys[i]); } }
    assert(s_elems(w[0])[k as int] is Some && t_same(*s_elems(d1)[k as int]->0, *s_elems(w[0])[k as int]->0));
    lemma_a_same(w[0], w, all, all.len() as int);
    assert(s_had(w[0], all, all.len() as int, m, k as int));
}
// what adding leaves as it is
pub open spec fn s_decs_there(d: Document) -> bool { forall|x: int| #[trigger] s_dec_there(d, x) }
pub open spec fn s_dec_there(d: Document, x: int) -> bool { s_elem(d, x) is Some && s_encv(s_elem(d, x)->0, AttribType::SET) is Some ==> s_read_dec(Some(d), s_elem(d, x)->0) is Some }
pub open spec fn s_refs_spans(d: Document) -> bool { forall|k: int, c: int| 0 <= c < t_data(s_elems(d), k).len() ==> match #[trigger] t_data(s_elems(d), k)[c] { DataType::SpanReference(x) => s_elem(d, x as int) is Some && s_in_group(ElementGroup::Span, s_elem(d, x as int)->0.elementtype), _ => true } }
proof fn lemma_n_put(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey)
    requires s_sound(d), s_put(d, p, e, m, k), t_bound(e, 0), t_refs(e, s_elems(d).len() as int)
    ensures s_sound(m), s_decs_grown(d, m), k == s_elems(d).len(), s_elems(m).len() > k, forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] c05_kept(d, Some(p), k, m, i)
{
    hide(s_sound);
    c05_added(d, Some(p), e, m, k);
    let (d1, keys, w) = choose|d1: Document, keys: Seq<ElementKey>, w: Seq<Document>| #[trigger] s_added_as(d, Some(p), e, d1, k, keys) && #[trigger] s_posted_all(w, s_to_post(Some(p), k, keys)) && s_placed(d1, Some(p), k, w[0]) && s_sound(d1) && s_sound(w[0]) && w.last() == m;
    let all = s_to_post(Some(p), k, keys);
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] all[i] < s_elems(w[0]).len() by { if i < keys.len() { assert(all[i] == keys[i]); } }
    lemma_a_same(w[0], w, all, all.len() as int);
    assert(s_but_elems(w[0]).declarationstore == w[0].declarationstore && s_but_elems(d1).declarationstore == d1.declarationstore);
    assert(s_but_elems(w.last()).declarationstore == w.last().declarationstore);
    assert(m.declarationstore == d1.declarationstore);
    assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] c05_kept(d, Some(p), k, m, i) by { }
}
// a layer that is there stays one, and nothing else that is there becomes one
proof fn lemma_n_still(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey, x: int, lt: ElementType, set: Option<Seq<char>>)
    requires s_sound(d), s_decs_grown(d, m), 0 <= x < s_elems(d).len(), c05_kept(d, Some(p), k, m, x)
    ensures s_layer_of(d, lt, set, x) ==> s_layer_of(m, lt, set, x), s_dec_there(d, x) && s_layer_of(m, lt, set, x) ==> s_layer_of(d, lt, set, x)
{
    hide(s_sound);
    let a = s_elem(d, x)->0; let b = s_elem(m, x)->0;
    assert(s_encv(a, AttribType::SET) == s_encv(b, AttribType::SET));
    if let Some(n) = s_encv(a, AttribType::SET) { if s_dec(d, n as int) is Some { assert(s_decs(d)[n as int] is Some); assert(s_dec_grown(*s_decs(d)[n as int]->0, *s_decs(m)[n as int]->0)); } }
}
// a layer of k
pub open spec fn s_kid_layer(d: Document, a: int, lt: ElementType, set: Option<Seq<char>>, x: int) -> bool { t_parent(s_elems(d), x) == Some(a) && s_layer_of(d, lt, set, x) }
pub open spec fn s_kid_there(d: Document, a: int, x: int) -> bool { t_parent(s_elems(d), x) == Some(a) ==> s_dec_there(d, x) }
pub open spec fn s_kids_there(d: Document, a: int) -> bool { forall|x: int| #[trigger] s_kid_there(d, a, x) }
pub open spec fn s_one_layer(d: Document, a: int, lt: ElementType, set: Option<Seq<char>>) -> bool { forall|x: int, y: int| #[trigger] s_kid_layer(d, a, lt, set, x) && #[trigger] s_kid_layer(d, a, lt, set, y) ==> x == y }
// the children of what was there
proof fn lemma_n_kids(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey, a: int, x: int)
    requires s_sound(d), s_sound(m), forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] c05_kept(d, Some(p), k, m, i), 0 <= a < s_elems(d).len(), t_parent(s_elems(m), x) == Some(a), s_elems(d).len() <= s_elems(m).len()
    ensures (0 <= x < s_elems(d).len() && t_parent(s_elems(d), x) == Some(a)) || (x == k && a == p)
{
    assert(0 <= x < s_elems(m).len());
    lemma_s_good(m, x); lemma_s_good(m, a); lemma_s_good(d, a);
    assert(c05_kept(d, Some(p), k, m, a));
    let mm = t_data(s_elems(m), a); let dd = c05_data(d, Some(p), k, a); let od = t_data(s_elems(d), a);
    let j = choose|j: int| 0 <= j < mm.len() && mm[j] == DataType::Element(x as ElementKey);
    assert(s_elems(m).len() <= 0x1_0000_0000);
    if j >= dd.len() { assert(mm[j] is SpanReference); }
    assert(dd[j] == mm[j]);
    if j < od.len() { assert(od[j] == dd[j]); assert(x < s_elems(d).len()); assert(t_parent(s_elems(d), x) == Some(a)) by { reveal(s_good); assert(0 <= a < s_elems(d).len() && 0 <= j < od.len()); } }
}
proof fn lemma_n_one(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey, a: int, lt: ElementType, set: Option<Seq<char>>)
    requires s_sound(d), s_put(d, p, e, m, k), t_bound(e, 0), t_refs(e, s_elems(d).len() as int), s_kids_there(d, a), 0 <= a < s_elems(d).len(), s_one_layer(d, a, lt, set),
        a == p && s_layer_of(m, lt, set, k as int) ==> forall|x: int| !#[trigger] s_kid_layer(d, a, lt, set, x)
    ensures s_one_layer(m, a, lt, set)
{
    hide(s_sound);
    lemma_n_put(d, p, e, m, k);
    assert forall|x: int, y: int| #[trigger] s_kid_layer(m, a, lt, set, x) && #[trigger] s_kid_layer(m, a, lt, set, y) implies x == y by {
        lemma_n_kids(d, p, e, m, k, a, x); lemma_n_kids(d, p, e, m, k, a, y);
        if x != k { assert(c05_kept(d, Some(p), k, m, x)); assert(s_kid_there(d, a, x)); lemma_n_still(d, p, e, m, k, x, lt, set); assert(s_kid_layer(d, a, lt, set, x)); }
        if y != k { assert(c05_kept(d, Some(p), k, m, y)); assert(s_kid_there(d, a, y)); lemma_n_still(d, p, e, m, k, y, lt, set); assert(s_kid_layer(d, a, lt, set, y)); }
    }
}
proof fn lemma_n_there(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey, a: int)
    requires s_sound(d), s_put(d, p, e, m, k), t_bound(e, 0), t_refs(e, s_elems(d).len() as int), s_kids_there(d, a), 0 <= a < s_elems(d).len(), a == p ==> s_dec_there(m, k as int)
    ensures s_kids_there(m, a)
{
    hide(s_sound);
    lemma_n_put(d, p, e, m, k);
    assert forall|x: int| #[trigger] s_kid_there(m, a, x) by {
        if t_parent(s_elems(m), x) == Some(a) {
            lemma_n_kids(d, p, e, m, k, a, x);
            if x != k {
                assert(c05_kept(d, Some(p), k, m, x)); assert(s_kid_there(d, a, x));
                let y = s_elem(d, x)->0; let z = s_elem(m, x)->0;
                assert(s_encv(y, AttribType::SET) == s_encv(z, AttribType::SET));
                if let Some(n) = s_encv(y, AttribType::SET) { if s_dec(d, n as int) is Some { assert(s_decs(d)[n as int] is Some); assert(s_dec_grown(*s_decs(d)[n as int]->0, *s_decs(m)[n as int]->0)); } }
            }
        }
    }
}
// a new layer is a layer of the set
proof fn lemma_n_born(d: Document, p: ElementKey, e: ElementData, set: Seq<char>, m: Document, k: ElementKey)
    requires s_sound(d), s_put(d, p, e, m, k), s_new_layer(e, e.elementtype, set), s_el_at(e.elementtype) is Some, s_in_group(ElementGroup::Layer, e.elementtype)
    ensures s_layer_of(m, e.elementtype, Some(set), k as int), t_bound(e, 0)
{
    hide(s_sound); hide(s_in_group);
    let f = |x: ElementData| t_under(x, 0);
    assert(f(e)); assert(t_every(e, f));
    let (d1, keys, w) = choose|d1: Document, keys: Seq<ElementKey>, w: Seq<Document>| #[trigger] s_added_as(d, Some(p), e, d1, k, keys) && #[trigger] s_posted_all(w, s_to_post(Some(p), k, keys)) && s_placed(d1, Some(p), k, w[0]) && s_sound(d1) && s_sound(w[0]) && w.last() == m;
    let all = s_to_post(Some(p), k, keys);
    assert(t_born(d1, k as int, Some(p), e));
    assert(t_enc(d1, k as int, Some(p), e));
    assert(s_any_encodable(e.attribs@)) by { assert(s_encodable(e.attribs@[0])); }
    lemma_first(e.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::SET));
    assert(s_given(e, AttribType::SET) == Some(set));
    assert(s_procs_inv(d1)) by { reveal(s_sound); }
    c10_added(d1, k as int, Some(p), e);
    let x1 = s_elem(d1, k as int)->0;
    assert(s_encv(x1, AttribType::SET) is Some);
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] all[i] < s_elems(w[0]).len() by { if i < keys.len() { assert(all[i] == keys[i]); } }
    assert(s_elems(w[0])[k as int] is Some && t_same(*s_elems(d1)[k as int]->0, *s_elems(w[0])[k as int]->0));
    lemma_a_same(w[0], w, all, all.len() as int);
    assert(s_had(w[0], all, all.len() as int, m, k as int));
    let x2 = s_elem(m, k as int)->0;
    assert(x2.attribs@ == x1.attribs@) by { lemma_find(x1.attribs@, AttribType::SET); lemma_first(x1.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::SET)); }
    assert(s_encv(x2, AttribType::SET) == s_encv(x1, AttribType::SET));
    assert(s_but_elems(w[0]).declarationstore == w[0].declarationstore && s_but_elems(d1).declarationstore == d1.declarationstore && s_but_elems(m).declarationstore == m.declarationstore);
    assert(s_read_dec(Some(m), x2) == s_read_dec(Some(d1), x1));
}
// k is in the layer l under a
pub open spec fn s_is_in(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey, a: int, l: ElementKey) -> bool {
    let lt = s_layer_type(e.elementtype)->0; let set = s_new_set(d, e);
    &&& s_lands(d, p as int, e, a) && s_kid_layer(m, a, lt, set, l as int) && t_parent(s_elems(m), k as int) == Some(l as int) && s_elem(m, k as int) is Some && s_elem(m, k as int)->0.elementtype == e.elementtype && s_takes(m, lt, e.elementtype)
    &&& (exists|x: int| #[trigger] s_kid_layer(d, a, lt, set, x)) ==> l < s_elems(d).len()
}
proof fn lemma_n_layers(t: ElementType)
    ensures s_layer_type(t) is Some ==> s_el_at(s_layer_type(t)->0) is Some && s_in_group(ElementGroup::Layer, s_layer_type(t)->0), s_in_group(ElementGroup::Layer, t) ==> !s_in_group(ElementGroup::Span, t)
{ }
proof fn lemma_n_nearest(d: Document, v: Seq<ElementKey>, lt: ElementType)
    ensures forall|i: int| #[trigger] s_nearest(d, v, lt, i) ==> 0 <= v[i] < s_elems(d).len()
{ hide(s_in_group); hide(s_accepted); }
// the layer a span annotation has come to be in, there or new
pub open spec fn s_homed(d: Document, a: int, lt: ElementType, set: Seq<char>, d1: Document, l: ElementKey) -> bool {
    &&& s_sound(d1) && s_kid_layer(d1, a, lt, Some(set), l as int) && s_elems(d).len() <= s_elems(d1).len() && d1.elementstore.specification == d.elementstore.specification
    &&& forall|b: int, t: ElementType, z: Option<Seq<char>>| 0 <= b < s_elems(d).len() && s_one_layer(d, b, t, z) ==> #[trigger] s_one_layer(d1, b, t, z)
    &&& forall|b: int| 0 <= b < s_elems(d).len() ==> #[trigger] s_kids_there(d1, b)
}
proof fn lemma_n_kidless(d: Document, a: int, lt: ElementType, set: Option<Seq<char>>, x: int)
    requires s_sound(d), s_no_layer(d, a, lt, set), 0 <= a < s_elems(d).len()
    ensures !s_kid_layer(d, a, lt, set, x)
{
    hide(s_in_group); hide(s_accepted); hide(s_layer_of);
    if s_kid_layer(d, a, lt, set, x) {
        reveal(s_sound);
        assert(0 <= x < s_elems(d).len());
        lemma_s_good(d, x); lemma_s_good(d, a);
        let c = choose|c: int| 0 <= c < t_data(s_elems(d), a).len() && t_data(s_elems(d), a)[c] == DataType::Element(x as ElementKey);
        assert(s_elems(d).len() <= 0x1_0000_0000);
        assert(s_layer_at(d, a, lt, set, c));
    }
}
proof fn lemma_n_all_there(d: Document, b: int)
    requires s_decs_there(d)
    ensures s_kids_there(d, b)
{ assert forall|y: int| #[trigger] s_kid_there(d, b, y) by { assert(s_dec_there(d, y)); } }
proof fn lemma_n_had(d: Document, a: int, lt: ElementType, set: Seq<char>, c: int, l: ElementKey)
    requires s_sound(d), s_decs_there(d), s_refs_spans(d), 0 <= a < s_elems(d).len(), s_layer_first(d, a, lt, Some(set), c), l == s_el_of(t_data(s_elems(d), a)[c]), s_in_group(ElementGroup::Layer, lt)
    ensures s_homed(d, a, lt, set, d, l)
{
    hide(s_sound); hide(s_in_group); hide(s_accepted);
    lemma_n_layers(lt);
    assert(s_layer_at(d, a, lt, Some(set), c));
    let y = t_data(s_elems(d), a)[c];
    if let DataType::SpanReference(x) = y { assert(s_elem(d, x as int)->0.elementtype == lt); }
    assert(t_parent(s_elems(d), l as int) == Some(a)) by { reveal(s_good); reveal(s_sound); assert(0 <= a < s_elems(d).len() && 0 <= c < t_data(s_elems(d), a).len()); }
    assert forall|b: int| 0 <= b < s_elems(d).len() implies #[trigger] s_kids_there(d, b) by { lemma_n_all_there(d, b); }
}
proof fn lemma_n_made(d: Document, a: int, lt: ElementType, set: Seq<char>, x: ElementData, d1: Document, l: ElementKey)
    requires s_sound(d), s_decs_there(d), 0 <= a < s_elems(d).len(), s_no_layer(d, a, lt, Some(set)), s_new_layer(x, lt, set), s_put(d, a as ElementKey, x, d1, l), s_el_at(lt) is Some, s_in_group(ElementGroup::Layer, lt)
    ensures s_homed(d, a, lt, set, d1, l)
{
    hide(s_sound); hide(s_in_group); hide(s_accepted); hide(s_put); hide(s_no_layer); hide(s_layer_of); hide(s_kids_there); hide(s_decs_there);
    assert(x.elementtype == lt);
    lemma_n_born(d, a as ElementKey, x, set, d1, l);
    lemma_n_new(x, s_elems(d).len() as int);
    assert(a <= 0x1_0000_0000) by { reveal(s_sound); lemma_s_good(d, a); }
    lemma_n_put(d, a as ElementKey, x, d1, l);
    assert(s_added_el(d, Some(a as ElementKey), x, d1, l)) by { reveal(s_put); }
    lemma_n_spec(d, a as ElementKey, x, d1, l);
    c11_put(d, a as ElementKey, x, d1, l);
    assert(t_parent(s_elems(d1), l as int) == Some(a));
    assert(s_kid_layer(d1, a, lt, Some(set), l as int));
    assert(s_dec_there(d1, l as int)) by { reveal(s_layer_of); }
    assert forall|b: int| 0 <= b < s_elems(d).len() implies #[trigger] s_kids_there(d1, b) by {
        lemma_n_all_there(d, b);
        lemma_n_there(d, a as ElementKey, x, d1, l, b);
    }
    assert forall|b: int, t: ElementType, z: Option<Seq<char>>| 0 <= b < s_elems(d).len() && s_one_layer(d, b, t, z) implies #[trigger] s_one_layer(d1, b, t, z) by {
        lemma_n_all_there(d, b);
        if b == a && s_layer_of(d1, t, z, l as int) {
            assert(t == lt && z == Some(set)) by { reveal(s_layer_of); }
            assert forall|y: int| !#[trigger] s_kid_layer(d, a, lt, Some(set), y) by { lemma_n_kidless(d, a, lt, Some(set), y); }
        }
        lemma_n_one(d, a as ElementKey, x, d1, l, b, t, z);
    }
}
proof fn lemma_n_home(d: Document, a: int, lt: ElementType, set: Seq<char>, d1: Document, l: ElementKey)
    requires s_sound(d), s_decs_there(d), s_refs_spans(d), 0 <= a < s_elems(d).len(), s_layered(d, a, lt, set, d1, l), s_el_at(lt) is Some, s_in_group(ElementGroup::Layer, lt)
    ensures s_homed(d, a, lt, set, d1, l), (exists|x: int| #[trigger] s_kid_layer(d, a, lt, Some(set), x)) ==> d1 == d
{
    hide(s_sound); hide(s_in_group); hide(s_accepted); hide(s_put); hide(s_no_layer); hide(s_layer_of); hide(s_kids_there); hide(s_decs_there); hide(s_homed); hide(s_layer_first); hide(s_new_layer);
    if d1 == d && exists|c: int| #[trigger] s_layer_first(d, a, lt, Some(set), c) && l == s_el_of(t_data(s_elems(d), a)[c]) {
        let c = choose|c: int| #[trigger] s_layer_first(d, a, lt, Some(set), c) && l == s_el_of(t_data(s_elems(d), a)[c]);
        lemma_n_had(d, a, lt, set, c, l);
    } else {
        let x = choose|x: ElementData| #[trigger] s_new_layer(x, lt, set) && s_put(d, a as ElementKey, x, d1, l);
        lemma_n_made(d, a, lt, set, x, d1, l);
        assert forall|y: int| !#[trigger] s_kid_layer(d, a, lt, Some(set), y) by { lemma_n_kidless(d, a, lt, Some(set), y); }
    }
}
// C11: a span annotation is in a layer of its type and set under what it was put in or what is nearest above its words, in the one that was there if there was one,
// and there is still no more than one such layer where there was no more than one.
proof fn c11_span(d: Document, p: ElementKey, e: ElementData, m: Document, k: ElementKey)
    requires s_sound(d), s_annotated(d, p, e, m, k), !s_direct(d, p as int, e.elementtype), t_bound(e, 0), t_refs(e, s_elems(d).len() as int), s_decs_there(d), s_refs_spans(d), s_elem(d, p as int) is Some
    ensures exists|a: int, l: ElementKey| #[trigger] s_is_in(d, p, e, m, k, a, l),
        forall|b: int, t: ElementType, z: Option<Seq<char>>| 0 <= b < s_elems(d).len() && !s_in_group(ElementGroup::Span, t) && s_one_layer(d, b, t, z) ==> #[trigger] s_one_layer(m, b, t, z),
{
    hide(s_sound); hide(s_in_group); hide(s_accepted); hide(s_lands);
    let lt = s_layer_type(e.elementtype)->0; let set = s_new_set(d, e)->0;
    lemma_n_layers(e.elementtype);
    let (a, d1, l) = choose|a: int, d1: Document, l: ElementKey| s_lands(d, p as int, e, a) && #[trigger] s_layered(d, a, lt, set, d1, l) && s_put(d1, l, e, m, k);
    assert(0 <= a < s_elems(d).len()) by { reveal(s_lands); if s_from_word(d, p as int) { let (v, i) = choose|v: Seq<ElementKey>, i: int| #[trigger] s_over(d, s_span_keys(d, e.data@), v) && #[trigger] s_nearest(d, v, lt, i) && a == v[i]; lemma_n_nearest(d, v, lt); } }
    lemma_n_home(d, a, lt, set, d1, l);
    lemma_t_refs_up(e, s_elems(d).len() as int, s_elems(d1).len() as int);
    c11_put(d1, l, e, m, k);
    lemma_n_put(d1, l, e, m, k);
    lemma_n_spec(d1, l, e, m, k);
    lemma_n_takes(d, m);
    assert(c05_kept(d1, Some(l), k, m, l as int));
    lemma_n_still(d1, l, e, m, k, l as int, lt, Some(set));
    assert(s_kid_layer(m, a, lt, Some(set), l as int));
    assert(s_is_in(d, p, e, m, k, a, l));
    assert forall|b: int, t: ElementType, z: Option<Seq<char>>| 0 <= b < s_elems(d).len() && !s_in_group(ElementGroup::Span, t) && s_one_layer(d, b, t, z) implies #[trigger] s_one_layer(m, b, t, z) by {
        assert(s_one_layer(d1, b, t, z));
        assert(s_elem(m, k as int)->0.elementtype == e.elementtype);
        assert(s_kids_there(d1, b));
        lemma_n_one(d1, l, e, m, k, b, t, z);
    }
}
}
fn main() {}
