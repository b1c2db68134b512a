// Consequences of the contracts of add_element and add_element_to.
// how many references to span s are among the data
pub open spec fn s_refs_to(data: Seq<DataType>, s: int) -> nat
    decreases data.len()
{ if data.len() == 0 { 0 } else { s_refs_to(data.drop_last(), s) + if data.last() == DataType::SpanReference(s as ElementKey) { 1nat } else { 0 } } }
// how many of the first n refer to x as part of span s
pub open spec fn s_refer(d: Document, keys: Seq<ElementKey>, n: int, x: int, s: int) -> nat
    decreases n
{ if n <= 0 || n > keys.len() { 0 } else { s_refer(d, keys, n - 1, x, s) + if s_refers(d, keys[n - 1] as int, x, s) { 1nat } else { 0 } } }
pub open spec fn s_refers(d: Document, k: int, x: int, s: int) -> bool { s_elem(d, k) is Some && s_elem(d, k)->0.elementtype is WordReference && s_target(d, k) == Some(x) && s_span_above(d, k) == Some(s) }
// the data has only got references
pub open spec fn s_more_refs(a: Seq<DataType>, b: Seq<DataType>) -> bool { a.is_prefix_of(b) && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]) is SpanReference }
// the attributes are the same, or a layer has got a set
pub open spec fn s_set_got(a: Seq<Attribute>, b: Seq<Attribute>) -> bool { b == a || (s_find(a, AttribType::SET) is None && b.len() == a.len() + 1 && b.drop_last() == a && b.last() is DeclarationRef) }
// what dealing with new elements changes
pub open spec fn s_touched(d: Document, k: int, m: Document, i: int) -> bool {
    s_elem(d, i) is Some && s_elem(m, i) is Some && s_elem(m, i)->0.elementtype == s_elem(d, i)->0.elementtype && s_elem(m, i)->0.key == s_elem(d, i)->0.key && s_elem(m, i)->0.parent == s_elem(d, i)->0.parent
        && s_more_refs(s_elem(d, i)->0.data@, s_elem(m, i)->0.data@) && s_set_got(s_elem(d, i)->0.attribs@, s_elem(m, i)->0.attribs@)
        && (i != k ==> s_elem(m, i)->0.attribs@ == s_elem(d, i)->0.attribs@)
}
#[verifier::opaque]
pub open spec fn s_only_refs(d: Document, k: int, m: Document) -> bool {
    &&& s_but_elems(m) == s_but_elems(d) && m.elementstore.index@ == d.elementstore.index@ && s_elems(m).len() == s_elems(d).len()
    &&& forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_touched(d, k, m, i)
}
proof fn lemma_a_refs_push(data: Seq<DataType>, y: DataType, s: int)
    ensures s_refs_to(data.push(y), s) == s_refs_to(data, s) + if y == DataType::SpanReference(s as ElementKey) { 1nat } else { 0 }
{ assert(data.push(y).drop_last() =~= data); }
// one step
proof fn lemma_a_step(p: Document, k: int, m: Document, r: Result<(), FoliaError>)
    requires s_sound(p), s_posted(p, k, None, m, r), 0 <= k < s_elems(p).len()
    ensures s_sound(m), s_only_refs(p, k, m), r is Ok ==> forall|x: int, s: int| 0 <= x < s_elems(p).len() && 0 <= s < s_elems(p).len() ==> s_refs_to(#[trigger] t_data(s_elems(m), x), s) == s_refs_to(t_data(s_elems(p), x), s) + if #[trigger] s_refers(p, k, x, s) { 1nat } else { 0 },
{
    hide(s_in_group); hide(s_walk);
    reveal(s_posted); reveal(s_only_refs);
    lemma_s_good(p, k);
    lemma_p_same(p);
    let e = s_elem(p, k)->0;
    assert forall|i: int| 0 <= i < s_elems(p).len() implies s_elem(p, i) is Some by { lemma_s_good(p, i); }
    if s_same_doc(p, m) {
        if e.elementtype is WordReference && r is Ok { let x = s_target(p, k)->0; assert(s_pushed(p, m, x, DataType::SpanReference(s_span_above(p, k)->0 as ElementKey))); assert(s_elem(m, x)->0.data@.len() == s_elem(p, x)->0.data@.len() + 1); }
        assert forall|i: int| 0 <= i < s_elems(p).len() implies #[trigger] s_touched(p, k, m, i) by { assert(s_elem(p, i) == s_elem(m, i)); }
    } else if e.elementtype is WordReference {
        let x = s_target(p, k)->0; let s = s_span_above(p, k)->0;
        let y = DataType::SpanReference(s as ElementKey);
        lemma_p_span_there(p, k, None);
        lemma_p_pushed(p, m, x, y);
        lemma_key_laws();
        assert forall|i: int| 0 <= i < s_elems(p).len() implies #[trigger] s_touched(p, k, m, i) by { if i != x { assert(s_elems(m)[i] == s_elems(p)[i]); } }
        assert forall|x2: int, s2: int| 0 <= x2 < s_elems(p).len() && 0 <= s2 < s_elems(p).len() implies s_refs_to(#[trigger] t_data(s_elems(m), x2), s2) == s_refs_to(t_data(s_elems(p), x2), s2) + if #[trigger] s_refers(p, k, x2, s2) { 1nat } else { 0 } by {
            if x2 == x { lemma_a_refs_push(t_data(s_elems(p), x), y, s2); assert(s_elems(p).len() <= 0x1_0000_0000); } else { assert(s_elems(m)[x2] == s_elems(p)[x2]); }
        }
    } else {
        let w = s_walk(p, Recursion::Always, k, 0, 1);
        let n = choose|n: int| #[trigger] s_first_fit(p, e.elementtype, w, n) && s_attributed(p, m, k, Attribute::DeclarationRef(s_encv(s_elem(p, s_el_of(s_item(p, w[n])))->0, AttribType::SET)->0 as DecKey));
        let a = s_encv(s_elem(p, s_el_of(s_item(p, w[n])))->0, AttribType::SET)->0 as DecKey;
        lemma_p_attributed(p, m, k, a);
        assert(s_elem(m, k)->0.attribs@.drop_last() =~= e.attribs@);
        assert forall|i: int| 0 <= i < s_elems(p).len() implies #[trigger] s_touched(p, k, m, i) by { if i != k { assert(s_elems(m)[i] == s_elems(p)[i]); } }
        assert forall|x2: int, s2: int| 0 <= x2 < s_elems(p).len() && 0 <= s2 < s_elems(p).len() implies s_refs_to(#[trigger] t_data(s_elems(m), x2), s2) == s_refs_to(t_data(s_elems(p), x2), s2) + if #[trigger] s_refers(p, k, x2, s2) { 1nat } else { 0 } by {
            if x2 != k { assert(s_elems(m)[x2] == s_elems(p)[x2]); }
        }
    }
}
proof fn lemma_a_parents(d: Document, m: Document)
    requires forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_elem(d, i) is Some && s_elem(m, i) is Some && s_elem(m, i)->0.parent == s_elem(d, i)->0.parent, s_elems(m).len() == s_elems(d).len()
    ensures forall|i: int| #[trigger] t_parent(s_elems(m), i) == t_parent(s_elems(d), i)
{ assert forall|i: int| #[trigger] t_parent(s_elems(m), i) == t_parent(s_elems(d), i) by { if 0 <= i < s_elems(d).len() { assert(s_elem(d, i) is Some); } } }
proof fn lemma_a_span(d: Document, m: Document, k: int)
    requires s_good(d), s_good(m), 0 <= k < s_elems(d).len(), s_elems(m).len() == s_elems(d).len(), forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_elem(d, i) is Some && s_elem(m, i) is Some && s_elem(m, i)->0.parent == s_elem(d, i)->0.parent && s_elem(m, i)->0.elementtype == s_elem(d, i)->0.elementtype
    ensures s_span_above(m, k) == s_span_above(d, k)
    decreases t_depth(s_elems(d), k)
{
    hide(s_in_group);
    lemma_a_parents(d, m);
    assert(t_parent(s_elems(m), k) == t_parent(s_elems(d), k));
    if let Some(p) = t_parent(s_elems(d), k) {
        lemma_s_good(d, k); reveal(s_good); lemma_t_height(s_elems(d), p, k);
        assert(s_elem(d, p) is Some);
        lemma_a_span(d, m, p);
    }
}
proof fn lemma_a_idref(a: Seq<Attribute>, b: Seq<Attribute>)
    requires s_set_got(a, b)
    ensures s_idref(b) == s_idref(a)
{}
// what an element is, and what it refers to, has not changed
proof fn lemma_a_same(d: Document, w: Seq<Document>, keys: Seq<ElementKey>, n: int)
    requires s_sound(d), w[0] == d, s_posted_all(w, keys), 0 <= n <= keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] keys[i]) < s_elems(d).len()
    ensures s_sound(w[n]), s_all_touched(d, keys, n, w[n]),
        forall|x: int, s: int| 0 <= x < s_elems(d).len() && 0 <= s < s_elems(d).len() ==> s_refs_to(#[trigger] t_data(s_elems(w[n]), x), s) == s_refs_to(t_data(s_elems(d), x), s) + #[trigger] s_refer(d, keys, n, x, s),
    decreases n
{
    assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] s_elem(d, i) is Some by { lemma_s_good(d, i); }
    if n > 0 {
        let p = w[n - 1]; let m = w[n]; let k = keys[n - 1] as int;
        lemma_a_same(d, w, keys, n - 1);
        assert(s_posted_at(w, keys, n - 1));
        lemma_a_step(p, k, m, Ok(()));
        reveal(s_only_refs);
        assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] s_had(d, keys, n, m, i) by {
            assert(s_had(d, keys, n - 1, p, i)); assert(s_touched(p, k, m, i));
            let (a, b, c) = (s_elem(d, i)->0, s_elem(p, i)->0, s_elem(m, i)->0);
            assert forall|j: int| a.data@.len() <= j < c.data@.len() implies (#[trigger] c.data@[j]) is SpanReference by { if j < b.data@.len() { assert(c.data@[j] == b.data@[j]); } }
            assert(a.data@.is_prefix_of(c.data@)) by { assert(a.data@ =~= c.data@.take(a.data@.len() as int)); }
            if b.attribs@ != a.attribs@ && c.attribs@ != b.attribs@ {
                let t = b.attribs@.last();
                lemma_find(b.attribs@, AttribType::SET);
                assert(b.attribs@[b.attribs@.len() - 1] is DeclarationRef);
            }
            assert(keys.take(n).contains(i as ElementKey) <== keys.take(n - 1).contains(i as ElementKey)) by { if keys.take(n - 1).contains(i as ElementKey) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] keys.take(n - 1)[j] == i as ElementKey; assert(keys.take(n)[j] == i as ElementKey); } }
            if i == k { assert(keys.take(n)[n - 1] == k); }
        }
        assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] s_elem(d, i) is Some && s_elem(p, i) is Some && s_elem(p, i)->0.parent == s_elem(d, i)->0.parent && s_elem(p, i)->0.elementtype == s_elem(d, i)->0.elementtype by { assert(s_had(d, keys, n - 1, p, i)); }
        lemma_a_span(d, p, k);
        assert(s_had(d, keys, n - 1, p, k));
        lemma_a_idref(s_elem(d, k)->0.attribs@, s_elem(p, k)->0.attribs@);
        assert(s_target(p, k) == s_target(d, k));
        assert forall|x: int, s: int| 0 <= x < s_elems(d).len() && 0 <= s < s_elems(d).len() implies s_refs_to(#[trigger] t_data(s_elems(m), x), s) == s_refs_to(t_data(s_elems(d), x), s) + #[trigger] s_refer(d, keys, n, x, s) by {
            assert(s_refers(p, k, x, s) == s_refers(d, k, x, s));
            assert(s_refs_to(t_data(s_elems(p), x), s) == s_refs_to(t_data(s_elems(d), x), s) + s_refer(d, keys, n - 1, x, s));
        }
    } else {
        assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] s_had(d, keys, n, d, i) by { assert(s_elem(d, i) is Some); }
    }
}
pub open spec fn s_had(d: Document, keys: Seq<ElementKey>, n: int, m: Document, i: int) -> bool {
    s_elem(d, i) is Some && s_elem(m, i) is Some && s_elem(m, i)->0.elementtype == s_elem(d, i)->0.elementtype && s_elem(m, i)->0.key == s_elem(d, i)->0.key && s_elem(m, i)->0.parent == s_elem(d, i)->0.parent
        && s_more_refs(s_elem(d, i)->0.data@, s_elem(m, i)->0.data@) && s_set_got(s_elem(d, i)->0.attribs@, s_elem(m, i)->0.attribs@)
        && (!keys.take(n).contains(i as ElementKey) ==> s_elem(m, i)->0.attribs@ == s_elem(d, i)->0.attribs@)
}
pub open spec fn s_all_touched(d: Document, keys: Seq<ElementKey>, n: int, m: Document) -> bool {
    &&& s_but_elems(m) == s_but_elems(d) && m.elementstore.index@ == d.elementstore.index@ && s_elems(m).len() == s_elems(d).len()
    &&& forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_had(d, keys, n, m, i)
}
// an element of before, once the new one is in its place
pub open spec fn c05_data(d: Document, parent: Option<ElementKey>, k: ElementKey, i: int) -> Seq<DataType> {
    if parent is Some && parent->0 == i { s_elem(d, i)->0.data@.push(DataType::Element(k)) } else { s_elem(d, i)->0.data@ }
}
pub open spec fn c05_placed(d: Document, parent: Option<ElementKey>, k: ElementKey, d2: Document, i: int) -> bool {
    s_elem(d, i) is Some && s_elem(d2, i) is Some && t_same(s_elem(d, i)->0, s_elem(d2, i)->0) && s_elem(d2, i)->0.parent == s_elem(d, i)->0.parent && s_elem(d2, i)->0.data@ == c05_data(d, parent, k, i)
}
// and in the end
pub open spec fn c05_kept(d: Document, parent: Option<ElementKey>, k: ElementKey, m: Document, i: int) -> bool {
    s_elem(d, i) is Some && s_elem(m, i) is Some && s_elem(m, i)->0.elementtype == s_elem(d, i)->0.elementtype && s_elem(m, i)->0.attribs@ == s_elem(d, i)->0.attribs@ && s_elem(m, i)->0.key == s_elem(d, i)->0.key && s_elem(m, i)->0.parent == s_elem(d, i)->0.parent
        && s_more_refs(c05_data(d, parent, k, i), s_elem(m, i)->0.data@)
}
pub open spec fn c12_posted(d2: Document, keys: Seq<ElementKey>, m: Document) -> bool {
    forall|x: int, s: int| 0 <= x < s_elems(d2).len() && 0 <= s < s_elems(d2).len() ==> s_refs_to(#[trigger] t_data(s_elems(m), x), s) == s_refs_to(t_data(s_elems(d2), x), s) + #[trigger] s_refer(d2, keys, keys.len() as int, x, s)
}
// C05: a new element is where it was put, as the last there, and nothing else about any element has changed.
// C12: what is referred to has one reference for each of the new references to it, and none besides those it had.
// C10: no attribute of any element of before has changed.
proof fn c05_added(d: Document, parent: Option<ElementKey>, el: ElementData, m: Document, k: ElementKey)
    requires s_sound(d), s_added_el(d, parent, el, m, k), t_bound(el, 0), parent is Some ==> parent->0 < s_elems(d).len()
    ensures s_sound(m), k == s_elems(d).len(), s_elems(m).len() == s_elems(d).len() + t_size(el), s_elem(m, k as int) is Some && s_elem(m, k as int)->0.parent == parent,
        forall|i: int| 0 <= i < s_elems(d).len() ==> c05_kept(d, parent, k, m, i),
        exists|d2: Document, keys: Seq<ElementKey>| (forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] c05_placed(d, parent, k, d2, i)) && #[trigger] c12_posted(d2, keys, m) && (forall|i: int| k < i < s_elems(m).len() ==> #[trigger] t_listed(keys, 0, i)) && (parent is Some ==> t_listed(keys, 0, k as int)),
{
    hide(s_sound); hide(t_tree);
    let (d1, keys, w) = choose|d1: Document, keys: Seq<ElementKey>, w: Seq<Document>| #[trigger] s_added_as(d, parent, el, d1, k, keys) && #[trigger] s_posted_all(w, s_to_post(parent, k, keys)) && s_placed(d1, parent, k, w[0]) && s_sound(d1) && s_sound(w[0]) && w.last() == m;
    let all = s_to_post(parent, k, keys);
    let d2 = w[0];
    let s = s_elems(d); let t = s_elems(d1); let u = s_elems(d2);
    assert(u.len() == t.len());
    assert forall|i: int| 0 <= i < all.len() implies k <= #[trigger] all[i] < u.len() by { if i < keys.len() { assert(all[i] == keys[i]); } }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] c05_placed(d, parent, k, d2, i) by {
        assert(t[i] is Some && s[i] is Some && t_same(*s[i]->0, *t[i]->0));
        assert(t[i] == s[i]);
        if let Some(p) = parent { assert(t_parent(u, i) == t_parent(t, i)); assert(t_data(u, i) == t_moved(t, p as int, k as int, i)); assert(u[i] is Some); }
    }
    lemma_a_same(d2, w, all, all.len() as int);
    assert(all.take(all.len() as int) =~= all);
    assert forall|i: int| 0 <= i < s.len() implies c05_kept(d, parent, k, m, i) by {
        assert(c05_placed(d, parent, k, d2, i));
        assert(s_had(d2, all, all.len() as int, m, i));
    }
    assert(t_parent(u, k as int) == (match parent { Some(p) => Some(p as int), None => None }));
    assert(s_had(d2, all, all.len() as int, m, k as int));
    assert forall|i: int| k < i < s_elems(m).len() implies #[trigger] t_listed(all, 0, i) by { assert(t_listed(keys, 0, i)); let j = choose|j: int| 0 <= j < keys.len() && #[trigger] keys[j] == i; assert(all[j] == keys[j]); }
    if parent is Some { assert(all[keys.len() as int] == k); }
    assert(c12_posted(d2, all, m));
}
// C10: what an annotation that has been added reads back as, then and later
proof fn c10_added(f: Document, k: int, context: Option<ElementKey>, el: ElementData)
    requires t_enc(f, k, context, el), s_procs_inv(f), s_el_at(el.elementtype) is Some, s_any_encodable(el.attribs@)
    ensures
        s_elem(f, k) is Some && s_elem(f, k)->0.elementtype == el.elementtype && s_read_dec(Some(f), s_elem(f, k)->0) is Some && s_read_dec(Some(f), s_elem(f, k)->0)->0.annotationtype == s_el_at(el.elementtype)->0,
        s_given(el, AttribType::SET) is Some ==> s_read_set(Some(f), s_elem(f, k)->0) == s_given(el, AttribType::SET),
        s_given(el, AttribType::CLASS) is Some && s_encv(s_elem(f, k)->0, AttribType::CLASS) is Some ==> s_read_class(Some(f), s_elem(f, k)->0) == s_given(el, AttribType::CLASS),
        s_given(el, AttribType::PROCESSOR) is Some && s_lookup(f.provenancestore.index@, s_given(el, AttribType::PROCESSOR)->0) is Some ==> s_read_processor(Some(f), s_elem(f, k)->0) == s_given(el, AttribType::PROCESSOR),
        s_filter(el.attribs@, |a: Attribute| !s_encodable(a)).is_prefix_of(s_elem(f, k)->0.attribs@),
{
    reveal(t_enc);
    let (p, g, q, x) = choose|p: Document, g: ElementData, q: Document, x: ElementData| #[trigger] s_encode_el(p, g, context, q, Ok(x)) && s_encode_el_pre(p, g) && s_same_but_data(g, el) && s_elem(f, k) is Some && s_elem(f, k)->0.attribs == x.attribs && s_elem(f, k)->0.elementtype == x.elementtype
        && s_decs_grown(q, f) && t_rest(p) == t_rest(f) && match context { Some(c) => match s_elem(p, c as int) { Some(y) => s_elem(f, c as int) is Some && t_same(y, s_elem(f, c as int)->0), None => true }, None => true };
    lemma_a_rest(p, f);
    assert(s_procs(q) == s_procs(f)) by { assert(s_but_decs(q).provenancestore == q.provenancestore && s_but_decs(p).provenancestore == p.provenancestore); }
    let e = s_elem(f, k)->0;
    c10_read(p, g, context, q, x);
    c10_rest(p, g, context, q, x);
    c10_stable(q, f, x);
    assert(s_given(g, AttribType::SET) == s_given(el, AttribType::SET) && s_given(g, AttribType::CLASS) == s_given(el, AttribType::CLASS) && s_given(g, AttribType::PROCESSOR) == s_given(el, AttribType::PROCESSOR));
    assert(s_encv(e, AttribType::SET) == s_encv(x, AttribType::SET) && s_encv(e, AttribType::CLASS) == s_encv(x, AttribType::CLASS) && s_encv(e, AttribType::SUBSET) == s_encv(x, AttribType::SUBSET) && s_encv(e, AttribType::PROCESSOR) == s_encv(x, AttribType::PROCESSOR));
    if let Some(n) = s_encv(x, AttribType::SET) { if s_dec(q, n as int) is Some { assert(s_decs(q)[n as int] is Some); assert(s_dec_grown(*s_decs(q)[n as int]->0, *s_decs(f)[n as int]->0)); } }
}
