//# include select_spec.inc
impl Recursion {
//# fn src/select.rs Recursion::eval
//# ret r
//# spec
    ensures r == s_goes(*self, elementtype)
//# loop 1 it
    invariant forall|i: int| 0 <= i < it.index() ==> !s_accepts(#[trigger] candidates@[i], elementtype),
//# loop 2 it
    invariant forall|i: int| 0 <= i < it.index() ==> !s_accepts(#[trigger] candidates@[i], elementtype),
//# ghost loop 1 start
    assert(candidate == &candidates@[it.index()]);
//# ghost loop 2 start
    assert(candidate == &candidates@[it.index()]);
//# endfn
}
impl<'a> SelectIterator<'a> {
//# fn src/select.rs SelectIterator::new
//# ret r
//# spec
    ensures r.document == document, r.selector == selector, r.recursion == recursion, r.inclusive == inclusive, r.spanreferences == spanreferences, r.iteration == 0, r.stack@ == seq![(key, 0usize)],
        r.returned@.len() == 0, r.returned_offset == 0
//# endfn
//# fn src/select.rs SelectIterator::already_returned
//# ret r
//# spec
    requires old(self).returned_offset + old(self).returned@.len() <= 0x1_0000_0000
    ensures final(self).returned_offset + final(self).returned@.len() <= 0x1_0000_0000, r == s_marked(old(self).returned@, old(self).returned_offset as int, key as int),
        forall|k: int| #[trigger] s_marked(final(self).returned@, final(self).returned_offset as int, k) == (s_marked(old(self).returned@, old(self).returned_offset as int, k) || k == key),
        s_same_walk(*final(self), *old(self)), final(self).stack == old(self).stack, final(self).iteration == old(self).iteration
//# loop 1 it
    invariant tmp@.len() == 1 + it.index(), tmp@[0], forall|j: int| 1 <= j < tmp@.len() ==> !#[trigger] tmp@[j],
//# loop 2
    invariant self.returned_offset <= key, key < 0x1_0000_0000, self.returned_offset + self.returned@.len() <= 0x1_0000_0000, s_same_walk(*self, *old(self)), self.stack == old(self).stack, self.iteration == old(self).iteration,
        self.returned@.len() >= old(self).returned@.len(), self.returned@.take(old(self).returned@.len() as int) == old(self).returned@,
        forall|j: int| old(self).returned@.len() <= j < self.returned@.len() ==> !#[trigger] self.returned@[j],
    decreases key - self.returned_offset + 1 - self.returned@.len()
//# replace /tmp.extend(&self.returned);/ => /vx_extend(&mut tmp, &self.returned);/
//# endfn
//# fn src/select.rs Iterator/SelectIterator::next
//# tsub /Self::Item/ => /SelectItem<'a>/
//# ret r
//# spec
    requires s_it_ok(*old(self)), old(self).iteration < usize::MAX,
        old(self).iteration == 0 && old(self).inclusive && old(self).stack@.len() > 0 ==> old(self).stack@.last().0 == 0 || t_parent(s_elems(*old(self).document), old(self).stack@.last().0 as int) is Some
    ensures s_it_ok(*final(self)), s_same_walk(*final(self), *old(self)), final(self).iteration == old(self).iteration + 1, s_next(*old(self), *final(self), r)
//# ghost start
    hide(s_matches); hide(s_all_encoded); hide(s_in_group); hide(s_matchable); hide(s_walk); hide(s_goes);
    let ghost a = *self;
    let ghost d = *self.document;
    proof { if self.stack@.len() > 0 { lemma_s_good(d, self.stack@.last().0 as int); } }
    let ghost w = s_rest(a);
    let ghost mut n: int = 0;
    proof { assert(w.skip(0) =~= w); }
//# loop 1
    invariant s_it_ok(*self), s_same_walk(*self, a), self.document == a.document, self.iteration == a.iteration + 1, s_same_marks(a, *self), 0 <= n <= w.len(), s_rest(*self) == w.skip(n), a == *old(self), d == *a.document, w == s_rest(a),
        forall|i: int| 0 <= i < n ==> !s_yields(a, s_item(d, #[trigger] w[i])),
    decreases 2 * (w.len() - n) + self.stack@.len()
//# ghost loop 1 start
    let ghost more = cursor < t_data(s_elems(d), key as int).len();
    proof {
        lemma_t_len(s_elems(d), key as int);
        lemma_s_good(d, key as int);
        lemma_s_push(d, self.recursion, self.stack@, key, cursor);
        lemma_s_step(d, self.recursion, self.stack@, key, cursor);
        assert(w.skip(n) == s_to_come(d, self.recursion, self.stack@.push((key, cursor))));
        if more { assert(w.skip(n)[0] == w[n]); assert(w.skip(n).skip(1) =~= w.skip(n + 1)); assert(s_yields(a, s_item(d, w[n])) ==> s_found(a, w, n)); }
    }
//# ghost loop 1 end
    proof { if more { n = n + 1; } }
//# endfn
}
impl<'a> SelectElementsIterator<'a> {
//# fn src/select.rs SelectElementsIterator::new
//# ret r
//# spec
    ensures r.iterator.document == document, r.iterator.selector == selector, r.iterator.recursion == recursion, r.iterator.inclusive == inclusive, r.iterator.spanreferences == spanreferences, r.iterator.iteration == 0, r.iterator.stack@ == seq![(key, 0usize)],
        r.iterator.returned@.len() == 0, r.iterator.returned_offset == 0
//# endfn
//# fn src/select.rs Iterator/SelectElementsIterator::next
//# tsub /Self::Item/ => /SelectElementsItem<'a>/
//# replace /match *selectitem {/ => /match *selectitem.data {/
//# replace /Self::Item { element: element }/ => /SelectElementsItem { element: element }/
//# ret r
//# spec
    requires s_it_ok(old(self).iterator), old(self).iterator.iteration + s_rest(old(self).iterator).len() + 1 < usize::MAX, s_refs_ok(*old(self).iterator.document),
        old(self).iterator.iteration == 0 && old(self).iterator.inclusive && old(self).iterator.stack@.len() > 0 ==> old(self).iterator.stack@.last().0 == 0 || t_parent(s_elems(*old(self).iterator.document), old(self).iterator.stack@.last().0 as int) is Some
    ensures s_it_ok(final(self).iterator), s_same_walk(final(self).iterator, old(self).iterator), old(self).iterator.iteration < final(self).iterator.iteration,
        final(self).iterator.iteration + s_rest(final(self).iterator).len() <= old(self).iterator.iteration + s_rest(old(self).iterator).len() + 1,
        r is Some && !s_itself(old(self).iterator) ==> final(self).iterator.iteration + s_rest(final(self).iterator).len() <= old(self).iterator.iteration + s_rest(old(self).iterator).len(),
        s_el_next(old(self).iterator, final(self).iterator, r)
//# ghost start
    hide(s_matches); hide(s_in_group); hide(s_matchable); hide(s_walk); hide(s_to_come);
    let ghost a = self.iterator;
    let ghost d = *self.iterator.document;
    let ghost w = s_rest(a);
    let ghost mut n: int = 0;
    let ghost mut m = self.iterator;
    proof { assert(w.skip(0) =~= w); }
//# loop 1
    invariant self.iterator == m, s_it_ok(m), s_same_walk(m, a), *m.document == d, *a.document == d, a == old(self).iterator, w == s_rest(a), 0 <= n <= w.len(), s_rest(m) == w.skip(n), s_same_marks(a, m), a.iteration <= m.iteration, m.iteration + s_rest(m).len() <= a.iteration + w.len(),
        a.iteration + w.len() + 1 < usize::MAX, n == 0 ==> m == a, n > 0 ==> m.iteration > 0 && !(a.iteration == 0 && !s_matchable(a.selector)) && !s_itself(a), s_refs_ok(d),
        a.iteration == 0 && a.inclusive && a.stack@.len() > 0 ==> a.stack@.last().0 == 0 || t_parent(s_elems(d), a.stack@.last().0 as int) is Some,
        forall|i: int| 0 <= i < n ==> !(s_is_el(s_item(d, #[trigger] w[i])) && s_yields(a, s_item(d, w[i]))),
    decreases w.len() - n
//# ghost loop 1 start
    let ghost it = self.iterator;
    let ghost mut k: int = 0;
    proof {
        if s_itself(m) { lemma_s_good(d, m.stack@.last().0 as int); }
        else {
            k = choose|k: int| #[trigger] s_found(m, s_rest(m), k) && s_is_at(d, selectitem, s_rest(m)[k]) && s_rest(it) == s_rest(m).skip(k + 1) && s_now_marked(m, it, *selectitem.data);
            assert(s_rest(m)[k] == w[n + k]);
            assert(w.skip(n).skip(k + 1) =~= w.skip(n + k + 1));
            lemma_s_spot(m, n, k, w, a);
            lemma_s_to_come_in(d, m.recursion, m.stack@);
            assert(s_rest(m)[k] == w[n + k] && s_in(d, w[n + k]));
            lemma_s_good(d, w[n + k].at);
            if s_is_el(s_item(d, w[n + k])) { lemma_s_good(d, s_el_of(s_item(d, w[n + k]))); }
            if s_is_el(*selectitem.data) { assert(s_el_found(a, w, n + k)); }
        }
    }
//# ghost loop 1 end
    proof { n = n + k + 1; m = self.iterator; }
//# ghost tail
    proof {
        if !(a.iteration == 0 && !s_matchable(a.selector)) {
            assert forall|i: int| 0 <= i < w.len() implies !(s_is_el(s_item(d, #[trigger] w[i])) && s_yields(a, s_item(d, w[i]))) by { if i >= n { assert(w.skip(n)[i - n] == w[i]); } }
        }
    }
//# endfn
}
impl<'a> AncestorIterator<'a> {
//# fn src/select.rs AncestorIterator::new
//# ret r
//# spec
    ensures r.document == document, r.selector == selector, r.key == key, r.recursion == recursion
//# endfn
//# fn src/select.rs Iterator/AncestorIterator::next
//# tsub /Self::Item/ => /SelectElementsItem<'a>/
//# ret r
//# spec
    requires s_good(*old(self).document), old(self).key < s_elems(*old(self).document).len()
    ensures *final(self).document == *old(self).document, final(self).selector == old(self).selector, final(self).recursion == old(self).recursion, final(self).key < s_elems(*final(self).document).len(),
        match s_anc(*old(self).document, old(self).selector, old(self).recursion, old(self).key as int) { Some(p) => r is Some && s_is_el_at(*old(self).document, r->0.element, p) && final(self).key == p, None => r is None }
//# ghost start
    hide(s_matches);
    let ghost d = *self.document;
    let ghost a = *self;
    proof { lemma_s_good(d, self.key as int); }
//# loop 1
    invariant d == *self.document, a.document == self.document, self.selector == a.selector, self.recursion == a.recursion, s_good(d), self.key < s_elems(d).len(), a == *old(self),
        s_anc(d, a.selector, a.recursion, self.key as int) == s_anc(d, a.selector, a.recursion, a.key as int),
    decreases t_depth(s_elems(d), self.key as int)
//# ghost loop 1 start
    proof {
        lemma_s_good(d, self.key as int);
        if let Some(p) = t_parent(s_elems(d), self.key as int) { lemma_s_good(d, p); reveal(s_good); lemma_t_height(s_elems(d), p, self.key as int); }
    }
//# endfn
}
// what is walked over is there
pub open spec fn s_in(d: Document, p: Spot) -> bool { 0 <= p.at < s_elems(d).len() && 0 <= p.cursor < t_data(s_elems(d), p.at).len() }
pub proof fn lemma_s_walk_in(d: Document, r: Recursion, k: int, c: int, depth: nat)
    requires s_good(d), 0 <= c
    ensures forall|i: int| 0 <= i < s_walk(d, r, k, c, depth).len() ==> s_in(d, #[trigger] s_walk(d, r, k, c, depth)[i])
    decreases t_height(s_elems(d), k), t_data(s_elems(d), k).len() - c
{
    reveal(s_good);
    let s = s_elems(d);
    if c < t_data(s, k).len() {
        lemma_s_walk_in(d, r, k, c + 1, depth);
        if let DataType::Element(x) = t_data(s, k)[c] { assert(0 <= k < s.len()); assert(t_parent(s, x as int) == Some(k)); lemma_t_height(s, k, x as int); lemma_s_walk_in(d, r, x as int, 0, depth + 1); }
        let u = s_under(d, r, k, c, depth);
        let v = s_walk(d, r, k, c + 1, depth);
        let w = s_walk(d, r, k, c, depth);
        assert(w == seq![Spot { at: k, cursor: c, depth: depth }] + u + v);
        assert forall|i: int| 0 <= i < w.len() implies s_in(d, #[trigger] w[i]) by {
            if i == 0 {} else if i <= u.len() { assert(w[i] == u[i - 1]); } else { assert(w[i] == v[i - 1 - u.len()]); }
        }
    }
}
pub proof fn lemma_s_to_come_in(d: Document, r: Recursion, st: Seq<(ElementKey, usize)>)
    requires s_good(d)
    ensures forall|i: int| 0 <= i < s_to_come(d, r, st).len() ==> s_in(d, #[trigger] s_to_come(d, r, st)[i])
    decreases st.len()
{
    if st.len() > 0 {
        lemma_s_to_come_in(d, r, st.drop_last()); lemma_s_walk_in(d, r, st.last().0 as int, st.last().1 as int, st.len());
        let u = s_walk(d, r, st.last().0 as int, st.last().1 as int, st.len());
        let v = s_to_come(d, r, st.drop_last());
        assert(s_to_come(d, r, st) == u + v);
        assert forall|i: int| 0 <= i < (u + v).len() implies s_in(d, #[trigger] (u + v)[i]) by { if i < u.len() { assert((u + v)[i] == u[i]); } else { assert((u + v)[i] == v[i - u.len()]); } }
    }
}
proof fn lemma_s_spot(m: SelectIterator, n: int, k: int, w: Seq<Spot>, a: SelectIterator)
    requires s_rest(m) == w.skip(n), 0 <= n <= w.len(), s_same_marks(a, m), s_same_walk(m, a), s_found(m, s_rest(m), k), forall|i: int| 0 <= i < n ==> !(s_is_el(s_item(*a.document, #[trigger] w[i])) && s_yields(a, s_item(*a.document, w[i])))
    ensures s_yields(a, s_item(*a.document, w[n + k])), forall|i: int| 0 <= i < n + k ==> !(s_is_el(s_item(*a.document, #[trigger] w[i])) && s_yields(a, s_item(*a.document, w[i])))
{
    assert forall|i: int| 0 <= i < n + k implies !(s_is_el(s_item(*a.document, #[trigger] w[i])) && s_yields(a, s_item(*a.document, w[i]))) by {
        if i >= n { assert(w.skip(n)[i - n] == w[i]); }
    }
}
impl<'a> Document {
//# fn src/select.rs SelectData/Document::select_data_by_key
//# ret r
//# spec
    ensures r.document == self, r.selector == selector, r.recursion == recursion, r.inclusive == inclusive, r.spanreferences == spanreferences, r.iteration == 0, r.stack@ == seq![(key, 0usize)], r.returned@.len() == 0, r.returned_offset == 0
//# endfn
//# fn src/select.rs SelectData/Document::select_data
//# ret r
//# spec
    ensures r.document == self, r.selector == selector, r.recursion == recursion, r.inclusive == false, r.spanreferences == spanreferences, r.iteration == 0, r.stack@ == seq![(0u32, 0usize)], r.returned@.len() == 0, r.returned_offset == 0
//# endfn
//# fn src/select.rs SelectElements/Document::select
//# ret r
//# spec
    ensures r.iterator.document == self, r.iterator.selector == selector, r.iterator.recursion == recursion, r.iterator.inclusive == false, r.iterator.spanreferences == true, r.iterator.iteration == 0, r.iterator.stack@ == seq![(0u32, 0usize)], r.iterator.returned@.len() == 0, r.iterator.returned_offset == 0
//# endfn
//# fn src/select.rs SelectElements/Document::select_by_key
//# ret r
//# spec
    ensures r.iterator.document == self, r.iterator.selector == selector, r.iterator.recursion == recursion, r.iterator.inclusive == inclusive, r.iterator.spanreferences == spanreferences, r.iterator.iteration == 0, r.iterator.stack@ == seq![(key, 0usize)], r.iterator.returned@.len() == 0, r.iterator.returned_offset == 0
//# endfn
}
impl Document {
//# fn src/select.rs Document::common_ancestors
//# ret r
//# spec
    requires s_good(*self)
    ensures r@ == (match s_common(*self, selector, elements@, elements@.len()) { Some(v) => v, None => Seq::empty() })
//# ghost start
    hide(s_matches); hide(s_matchable); hide(s_ancs);
//# loop 1 it
    invariant s_good(*self), match result { Some(v) => s_common(*self, selector, elements@, it.index() as nat) == Some(v@), None => s_common(*self, selector, elements@, it.index() as nat) is None },
//# ghost loop 1 start
    assert(sibling_key == &elements@[it.index()]);
    proof { if s_elem(*self, *sibling_key as int) is Some { lemma_s_good(*self, *sibling_key as int); } lemma_s_ancs_same(*self, selector, *sibling_key as int); }
//# replace /sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();/ => /vx_ancestors(sibling.ancestors(selector.clone()));/
//# replace /result.into_iter().filter(|a| ancestors.contains(a)).collect()/ => /vx_in_both(result, &ancestors)/
//# endfn
//# fn src/select.rs Document::ancestors_by_key
//# ret r
//# spec
    ensures r.document == self, r.selector == selector, r.key == key, r.recursion is Always
//# endfn
}
impl<'a> Element<'a> {
//# fn src/select.rs SelectData/Element::select_data_by_key
//# ret r
//# spec
    requires self.document is Some
    ensures *r.document == *self.document->0, r.selector == selector, r.recursion == recursion, r.inclusive == inclusive, r.spanreferences == spanreferences, r.iteration == 0, r.stack@ == seq![(key, 0usize)], r.returned@.len() == 0, r.returned_offset == 0
//# endfn
//# fn src/select.rs SelectData/Element::select_data
//# ret r
//# spec
    requires self.document is Some, self.data.key is Some
    ensures *r.document == *self.document->0, r.selector == selector, r.recursion == recursion, r.inclusive == false, r.spanreferences == spanreferences, r.iteration == 0, r.stack@ == seq![(self.data.key->0, 0usize)], r.returned@.len() == 0, r.returned_offset == 0
//# endfn
//# fn src/select.rs SelectElements/Element::select
//# ret r
//# spec
    requires self.document is Some, self.data.key is Some
    ensures *r.iterator.document == *self.document->0, r.iterator.selector == selector, r.iterator.recursion == recursion, r.iterator.inclusive == false, r.iterator.spanreferences == true, r.iterator.iteration == 0, r.iterator.stack@ == seq![(self.data.key->0, 0usize)], r.iterator.returned@.len() == 0, r.iterator.returned_offset == 0
//# endfn
//# fn src/select.rs SelectElements/Element::select_by_key
//# ret r
//# spec
    requires self.document is Some
    ensures *r.iterator.document == *self.document->0, r.iterator.selector == selector, r.iterator.recursion == recursion, r.iterator.inclusive == inclusive, r.iterator.spanreferences == spanreferences, r.iterator.iteration == 0, r.iterator.stack@ == seq![(key, 0usize)], r.iterator.returned@.len() == 0, r.iterator.returned_offset == 0
//# endfn
//# fn src/select.rs SelectAncestors/Element::ancestors
//# ret r
//# spec
    requires self.document is Some, self.data.key is Some
    ensures *r.document == *self.document->0, r.selector == selector, r.key == self.data.key->0, r.recursion is Always
//# endfn
}
proof fn lemma_s_cloned(a: Selector, b: Selector)
    requires a.datatypes@ == b.datatypes@, a.elementtype == b.elementtype, a.elementgroup == b.elementgroup, a.set == b.set, a.class == b.class, a.subset == b.subset, a.processor == b.processor, a.confidence == b.confidence, a.annotatortype == b.annotatortype,
        s_same_str(a.annotator, b.annotator),
        match (a.next, b.next) { (Some(x), Some(y)) => s_selects_same(*x, *y), (None, None) => true, _ => false }
    ensures s_selects_same(a, b)
{
    assert forall|d: Document, item: DataType| s_matches(d, a, item) == s_matches(d, b, item) by {
        assert forall|e: ElementData| s_el_matches(d, a, e) == s_el_matches(d, b, e) by { }
        assert(s_matches_one(d, a, item) == s_matches_one(d, b, item));
        if let Some(x) = a.next { assert(s_matches(d, *x, item) == s_matches(d, *b.next->0, item)); }
    }
}
pub open spec fn s_same_str(a: Cmp<String>, b: Cmp<String>) -> bool { match (a, b) { (Cmp::Is(x), Cmp::Is(y)) => x@ == y@, (Cmp::Is(_), _) => false, (_, Cmp::Is(_)) => false, _ => a == b } }
//# derived src/query.rs Action Clone
impl Clone for Action { fn clone(&self) -> (r: Self) { match self { Action::Select => Action::Select } } }
//# derived src/select.rs Selector Clone
impl Clone for Selector {
    fn clone(&self) -> (r: Self)
        ensures s_selects_same(*self, r)
        decreases self
    {
        hide(s_matches); hide(s_matchable);
        broadcast use group_matching;
        let next = match &self.next { Some(n) => { let m: Selector = (**n).clone(); Some(Box::new(m)) }, None => None };
        let r = Selector { action: self.action.clone(), datatypes: self.datatypes.clone(), elementtype: self.elementtype.clone(), elementgroup: self.elementgroup.clone(), contexttype: self.contexttype.clone(), set: self.set.clone(), class: self.class.clone(),
        processor: self.processor.clone(), subset: self.subset.clone(), confidence: self.confidence.clone(), annotator: self.annotator.clone(), annotatortype: self.annotatortype.clone(), next: next };
        proof {
            assert(r.datatypes@ =~= self.datatypes@);
            assert(r.elementtype == self.elementtype);
            assert(r.elementgroup == self.elementgroup);
            assert(r.set == self.set);
            assert(r.class == self.class);
            assert(r.subset == self.subset);
            assert(r.processor == self.processor);
            assert(r.confidence == self.confidence);
            assert(s_same_str(self.annotator, r.annotator));
            assert(r.annotatortype == self.annotatortype);
            lemma_s_cloned(*self, r);
        }
        r
    }
}
//# trust iterator.map(|e| e.key().expect(..)).collect(): what vx_ancestors does
//# if-not-unit select
#[verifier::external_body]
//# end-if
pub fn vx_ancestors(it: AncestorIterator) -> (r: Vec<ElementKey>)
    requires s_good(*it.document), it.key < s_elems(*it.document).len(), it.recursion is Always
    ensures r@ == s_ancs(*it.document, it.selector, it.key as int)
{
    hide(s_matches);
    let ghost d = *it.document;
    let ghost a = it;
    let mut it = it;
    let mut r: Vec<ElementKey> = Vec::new();
    let ghost mut k = it.key as int;
    proof { lemma_s_anc(d, a.selector, a.recursion, k); assert(r@ + s_ancs(d, a.selector, k) =~= s_ancs(d, a.selector, a.key as int)); }
    while let Some(e) = it.next()
        invariant s_good(d), *it.document == d, it.selector == a.selector, it.recursion == a.recursion, a.recursion is Always, it.key == k, 0 <= k < s_elems(d).len(), *a.document == d, r@ + s_ancs(d, a.selector, k) == s_ancs(d, a.selector, a.key as int),
            match s_anc(d, a.selector, a.recursion, k) { Some(p) => t_depth(s_elems(d), p) < t_depth(s_elems(d), k) && s_ancs(d, a.selector, k) == seq![p as ElementKey] + s_ancs(d, a.selector, p), None => s_ancs(d, a.selector, k).len() == 0 },
        decreases t_depth(s_elems(d), k)
    {
        proof {
            let p = it.key as int;
            lemma_s_good(d, p);
            lemma_s_anc(d, a.selector, a.recursion, p);
            assert(r@ + s_ancs(d, a.selector, k) =~= r@.push(p as ElementKey) + s_ancs(d, a.selector, p));
            k = p;
        }
        let key = e.element.data.key;
        r.push(key.expect("get key"));
    }
    proof { assert(r@ + s_ancs(d, a.selector, k) =~= r@); }
    r
}
// the next ancestor is the first of the ancestors
pub proof fn lemma_s_anc(d: Document, s: Selector, r: Recursion, k: int)
    requires s_good(d), r is Always, 0 <= k < s_elems(d).len()
    ensures match s_anc(d, s, r, k) { Some(p) => 0 <= p < s_elems(d).len() && t_depth(s_elems(d), p) < t_depth(s_elems(d), k) && s_ancs(d, s, k) == seq![p as ElementKey] + s_ancs(d, s, p), None => s_ancs(d, s, k).len() == 0 }
    decreases t_depth(s_elems(d), k)
{
    hide(s_matches);
    reveal(s_good);
    let f = |p: ElementKey| s_matches(d, s, DataType::Element(p));
    match t_parent(s_elems(d), k) {
        None => { reveal(Seq::filter); assert(s_chain(d, k).filter(f).len() == 0); }
        Some(p) => {
            lemma_t_height(s_elems(d), p, k);
            lemma_s_anc(d, s, r, p);
            let x = p as ElementKey;
            lemma_s_filter_cons(x, s_chain(d, p), f);
        }
    }
}
proof fn lemma_s_ancs_same(d: Document, a: Selector, k: int)
    ensures forall|b: Selector| #[trigger] s_selects_same(a, b) ==> s_ancs(d, b, k) == s_ancs(d, a, k)
{
    assert forall|b: Selector| #[trigger] s_selects_same(a, b) implies s_ancs(d, b, k) == s_ancs(d, a, k) by {
        let f = |p: ElementKey| s_matches(d, a, DataType::Element(p));
        let g = |p: ElementKey| s_matches(d, b, DataType::Element(p));
        assert(f =~= g);
    }
}
pub proof fn lemma_s_filter_cons(x: ElementKey, v: Seq<ElementKey>, f: spec_fn(ElementKey) -> bool)
    ensures (seq![x] + v).filter(f) == (if f(x) { seq![x] + v.filter(f) } else { v.filter(f) })
{
    reveal_with_fuel(Seq::filter, 3);
    Seq::filter_distributes_over_add(seq![x], v, f);
    assert(seq![x].drop_last() =~= Seq::<ElementKey>::empty());
    assert(seq![x].filter(f) =~= (if f(x) { seq![x] } else { Seq::empty() }));
    assert(Seq::<ElementKey>::empty() + v.filter(f) =~= v.filter(f));
}
//# trust v.into_iter().filter(|a| w.contains(a)).collect(): what vx_in_both does
pub fn vx_in_both(v: Vec<ElementKey>, w: &Vec<ElementKey>) -> (r: Vec<ElementKey>)
    ensures r@ == v@.filter(|p: ElementKey| w@.contains(p))
{
    let mut r: Vec<ElementKey> = Vec::new();
    let ghost f = |p: ElementKey| w@.contains(p);
    proof { reveal(Seq::filter); }
    for i in 0..v.len()
        invariant f == |p: ElementKey| w@.contains(p), r@ == v@.take(i as int).filter(f),
    {
        proof { reveal(Seq::filter); assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); }
        if w.contains(&v[i]) { r.push(v[i]); }
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    r
}
// one step of the walk: the item at the cursor, then what is below it, then what comes after it
pub proof fn lemma_s_step(d: Document, r: Recursion, st: Seq<(ElementKey, usize)>, k: ElementKey, c: usize)
    requires s_good(d), k < s_elems(d).len()
    ensures ({
        let t = s_to_come(d, r, st.push((k, c)));
        let data = t_data(s_elems(d), k as int);
        if c < data.len() {
            let n = st.push((k, (c + 1) as usize));
            &&& t.len() > 0 && t[0] == (Spot { at: k as int, cursor: c as int, depth: st.len() + 1 })
            &&& match data[c as int] { DataType::Element(x) => if s_goes_at(d, r, k as int) { t.skip(1) == s_to_come(d, r, n.push((x, 0usize))) } else { t.skip(1) == s_to_come(d, r, n) }, _ => t.skip(1) == s_to_come(d, r, n) }
        } else { t == s_to_come(d, r, st) }
    })
{
    reveal(s_good);
    lemma_s_push(d, r, st, k, c);
    let t = s_to_come(d, r, st.push((k, c)));
    let data = t_data(s_elems(d), k as int);
    lemma_t_len(s_elems(d), k as int);
    if c < data.len() {
        let n = st.push((k, (c + 1) as usize));
        lemma_s_push(d, r, st, k, (c + 1) as usize);
        if let DataType::Element(x) = data[c as int] { lemma_s_push(d, r, n, x, 0); }
        let u = s_under(d, r, k as int, c as int, st.len() + 1);
        assert(s_walk(d, r, k as int, c as int, st.len() + 1) == seq![Spot { at: k as int, cursor: c as int, depth: st.len() + 1 }] + u + s_walk(d, r, k as int, c + 1, st.len() + 1));
        assert(t.skip(1) =~= u + s_to_come(d, r, n));
    } else { assert(t =~= s_to_come(d, r, st)); }
}
pub proof fn lemma_t_len(s: Seq<Option<Box<ElementData>>>, k: int)
    ensures t_data(s, k).len() <= usize::MAX
{ if 0 <= k < s.len() && s[k] is Some { assert(s[k]->0.data.len() == s[k]->0.data@.len()); } }
pub proof fn lemma_s_push(d: Document, r: Recursion, st: Seq<(ElementKey, usize)>, k: ElementKey, c: usize)
    ensures s_to_come(d, r, st.push((k, c))) == s_walk(d, r, k as int, c as int, st.len() + 1) + s_to_come(d, r, st)
{ assert(st.push((k, c)).drop_last() =~= st); }
//# trust v.extend(&w) for vectors of bool: what vx_extend does
pub fn vx_extend(v: &mut Vec<bool>, w: &Vec<bool>)
    ensures final(v)@ == old(v)@ + w@
{
    for x in it: w.iter()
        invariant v@ == old(v)@ + w@.take(it.index())
    {
        assert(x == &w@[it.index()]);
        v.push(*x);
        assert(v@ =~= old(v)@ + w@.take(it.index() + 1));
    }
    assert(w@.take(w@.len() as int) =~= w@);
}
// C08: the ancestors of k are those strictly above it that match, nearest first
pub open spec fn s_nearest_first(d: Document, v: Seq<ElementKey>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] && t_above(s_elems(d), v[i] as int, v[j] as int) }
pub proof fn c08_chain(d: Document, k: int)
    requires s_good(d), 0 <= k < s_elems(d).len()
    ensures forall|a: ElementKey| #[trigger] s_chain(d, k).contains(a) <==> a != k && t_above(s_elems(d), k, a as int), s_nearest_first(d, s_chain(d, k)), forall|a: int| #[trigger] t_above(s_elems(d), k, a) ==> 0 <= a < s_elems(d).len() && t_depth(s_elems(d), a) <= t_depth(s_elems(d), k)
    decreases t_depth(s_elems(d), k)
{
    reveal(s_good);
    let s = s_elems(d);
    let c = s_chain(d, k);
    assert forall|a: int| #[trigger] t_above(s, k, a) <==> k == a || match t_parent(s, k) { Some(p) => t_above(s, p, a), None => false } by { lemma_t_above_parent(s, k, a); }
    if let Some(p) = t_parent(s, k) {
        lemma_t_height(s, p, k);
        c08_chain(d, p);
        let x = p as ElementKey;
        let v = s_chain(d, p);
        assert(c == seq![x] + v);
        assert(t_above(s, p, p)) by { lemma_t_above_parent(s, p, p); }
        assert forall|a: ElementKey| #[trigger] c.contains(a) <==> a != k && t_above(s, k, a as int) by {
            if c.contains(a) { let i = choose|i: int| 0 <= i < c.len() && c[i] == a; if i > 0 { assert(v[i - 1] == a); assert(v.contains(a)); } }
            if a == p { assert(c[0] == a); }
            if v.contains(a) { let i = choose|i: int| 0 <= i < v.len() && v[i] == a; assert(c[i + 1] == a); }
        }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i] != #[trigger] c[j] && t_above(s, c[i] as int, c[j] as int) by {
            assert(v.contains(v[j - 1]));
            if i > 0 { assert(c[i] == v[i - 1]); }
            assert(c[j] == v[j - 1]);
        }
    }
}
pub proof fn lemma_s_filter(v: Seq<ElementKey>, f: spec_fn(ElementKey) -> bool)
    ensures forall|a: ElementKey| #[trigger] v.filter(f).contains(a) <==> v.contains(a) && f(a)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let u = v.drop_last();
        let x = v.last();
        lemma_s_filter(u, f);
        let w = v.filter(f);
        assert forall|a: ElementKey| #[trigger] w.contains(a) <==> v.contains(a) && f(a) by {
            if w.contains(a) { let i = choose|i: int| 0 <= i < w.len() && w[i] == a; if i < u.filter(f).len() { assert(u.filter(f).contains(a)); let j = choose|j: int| 0 <= j < u.len() && u[j] == a; assert(v[j] == a); } else { assert(v[v.len() - 1] == a); } }
            if v.contains(a) && f(a) {
                let i = choose|i: int| 0 <= i < v.len() && v[i] == a;
                if i < u.len() { assert(u[i] == a); assert(u.contains(a)); assert(u.filter(f).contains(a)); let j = choose|j: int| 0 <= j < u.filter(f).len() && u.filter(f)[j] == a; assert(w[j] == a); } else { assert(w[w.len() - 1] == a); }
            }
        }
    }
}
pub proof fn lemma_s_filter_order(d: Document, v: Seq<ElementKey>, f: spec_fn(ElementKey) -> bool)
    requires s_nearest_first(d, v)
    ensures s_nearest_first(d, v.filter(f))
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let u = v.drop_last();
        assert(s_nearest_first(d, u)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] && t_above(s_elems(d), u[i] as int, u[j] as int) by { assert(u[i] == v[i] && u[j] == v[j]); } }
        lemma_s_filter_order(d, u, f);
        lemma_s_filter(u, f);
        let w = v.filter(f);
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] && t_above(s_elems(d), w[i] as int, w[j] as int) by {
            if j == u.filter(f).len() {
                assert(u.filter(f).contains(w[i]));
                let m = choose|m: int| 0 <= m < u.len() && u[m] == w[i];
                assert(v[m] == w[i] && v[v.len() - 1] == w[j]);
            }
        }
    }
}
pub proof fn c08_ancestors(d: Document, s: Selector, k: int)
    requires s_good(d), 0 <= k < s_elems(d).len()
    ensures forall|a: ElementKey| #[trigger] s_ancs(d, s, k).contains(a) <==> a != k && t_above(s_elems(d), k, a as int) && s_matches(d, s, DataType::Element(a)), s_nearest_first(d, s_ancs(d, s, k))
{
    hide(s_matches);
    c08_chain(d, k);
    let f = |p: ElementKey| s_matches(d, s, DataType::Element(p));
    lemma_s_filter(s_chain(d, k), f);
    lemma_s_filter_order(d, s_chain(d, k), f);
}
// the common ancestors are those every one of the elements (that exist) has, nearest first
pub open spec fn s_all_have(d: Document, s: Selector, ks: Seq<ElementKey>, n: nat, a: ElementKey) -> bool { forall|i: int| 0 <= i < n && s_elem(d, (#[trigger] ks[i]) as int) is Some ==> s_ancs(d, s, ks[i] as int).contains(a) }
pub proof fn c08_common(d: Document, s: Selector, ks: Seq<ElementKey>, n: nat)
    requires s_good(d), n <= ks.len()
    ensures match s_common(d, s, ks, n) { Some(v) => s_nearest_first(d, v) && (exists|i: int| 0 <= i < n && s_elem(d, (#[trigger] ks[i]) as int) is Some) && forall|a: ElementKey| #[trigger] v.contains(a) <==> s_all_have(d, s, ks, n, a), None => forall|i: int| 0 <= i < n ==> s_elem(d, (#[trigger] ks[i]) as int) is None }
    decreases n
{
    hide(s_matches); hide(s_ancs);
    if n > 0 {
        let m = (n - 1) as nat;
        c08_common(d, s, ks, m);
        let k = ks[n - 1] as int;
        if s_elem(d, k) is Some {
            c08_ancestors(d, s, k);
            let w = s_ancs(d, s, k);
            if let Some(v) = s_common(d, s, ks, m) {
                let f = |p: ElementKey| w.contains(p);
                lemma_s_filter(v, f);
                lemma_s_filter_order(d, v, f);
                assert forall|a: ElementKey| #[trigger] v.filter(f).contains(a) <==> s_all_have(d, s, ks, n, a) by {
                    if s_all_have(d, s, ks, n, a) { assert(s_all_have(d, s, ks, m, a)); assert(s_ancs(d, s, ks[n - 1] as int).contains(a)); }
                }
            } else {
                assert forall|a: ElementKey| #[trigger] w.contains(a) <==> s_all_have(d, s, ks, n, a) by { if s_all_have(d, s, ks, n, a) { assert(s_ancs(d, s, ks[n - 1] as int).contains(a)); } }
            }
            assert(s_elem(d, ks[n - 1] as int) is Some);
        }
    }
}
// C06: the walk visits the data items of k and of the elements reached from it through elements the recursion allows: those and no others, each once, with its depth
pub open spec fn s_via(d: Document, r: Recursion, k: int, at: int, f: nat) -> bool
    decreases f
{
    if f == 0 { at == k } else { match t_parent(s_elems(d), at) { Some(p) => s_goes_at(d, r, p) && s_via(d, r, k, p, (f - 1) as nat), None => false } }
}
pub open spec fn s_kid(d: Document, k: int, j: int) -> Option<int> { if 0 <= j < t_data(s_elems(d), k).len() { match t_data(s_elems(d), k)[j] { DataType::Element(x) => Some(x as int), _ => None } } else { None } }
// the first step is into a child
pub proof fn lemma_s_via(d: Document, r: Recursion, k: int, at: int, f: nat)
    requires s_good(d), 0 <= at < s_elems(d).len(), f > 0
    ensures s_via(d, r, k, at, f) <==> s_goes_at(d, r, k) && exists|j: int| (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, at, (f - 1) as nat)
    decreases f
{
    reveal(s_good);
    let s = s_elems(d);
    assert(t_parent(s, at) is Some ==> 0 <= t_parent(s, at)->0 < s.len());
    if s_via(d, r, k, at, f) {
        let p = t_parent(s, at)->0;
        if f == 1 {
            assert(s_via(d, r, k, p, 0));
            assert(p == k);
            assert(t_data(s, k).contains(t_el(at)));
            let j = choose|j: int| 0 <= j < t_data(s, k).len() && t_data(s, k)[j] == t_el(at);
            assert(s_kid(d, k, j) == Some(at));
        } else {
            lemma_s_via(d, r, k, p, (f - 1) as nat);
            let j = choose|j: int| (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, p, (f - 2) as nat);
            assert(s_via(d, r, s_kid(d, k, j)->0, at, (f - 1) as nat));
        }
    }
    if s_goes_at(d, r, k) && exists|j: int| (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, at, (f - 1) as nat) {
        let j = choose|j: int| (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, at, (f - 1) as nat);
        let x = s_kid(d, k, j)->0;
        assert(t_data(s, k)[j] == DataType::Element(x as ElementKey));
        assert(0 <= k < s.len());
        assert(t_parent(s, x) == Some(k));
        if f > 1 {
            let p = t_parent(s, at)->0;
            lemma_s_via(d, r, k, p, (f - 1) as nat);
            assert(s_via(d, r, x, p, (f - 2) as nat));
        } else { assert(s_via(d, r, k, k, 0)); }
    }
}
pub open spec fn s_visits(d: Document, r: Recursion, k: int, c: int, depth: nat, p: Spot) -> bool {
    s_in(d, p) && ((p.at == k && p.cursor >= c && p.depth == depth) || (p.depth > depth && s_goes_at(d, r, k) && exists|j: int| c <= j && (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, p.at, (p.depth - depth - 1) as nat)))
}
pub proof fn lemma_s_visits(d: Document, r: Recursion, k: int, c: int, depth: nat)
    requires s_good(d), 0 <= c, 0 <= k < s_elems(d).len()
    ensures forall|p: Spot| #[trigger] s_walk(d, r, k, c, depth).contains(p) <==> s_visits(d, r, k, c, depth, p)
    decreases t_height(s_elems(d), k), t_data(s_elems(d), k).len() - c
{
    lemma_s_good(d, k);
    reveal(s_good);
    let s = s_elems(d);
    let w = s_walk(d, r, k, c, depth);
    if c < t_data(s, k).len() {
        let u = s_under(d, r, k, c, depth);
        let v = s_walk(d, r, k, c + 1, depth);
        let h = Spot { at: k, cursor: c, depth: depth };
        lemma_s_visits(d, r, k, c + 1, depth);
        assert(w == seq![h] + u + v);
        if let DataType::Element(x) = t_data(s, k)[c] {
            assert(t_parent(s, x as int) == Some(k)) by { reveal(s_good); }
            reveal(s_good); lemma_t_height(s, k, x as int);
            lemma_s_visits(d, r, x as int, 0, depth + 1);
        }
        assert forall|p: Spot| #[trigger] w.contains(p) <==> s_visits(d, r, k, c, depth, p) by {
            lemma_s_parts(h, u, v, p);
            lemma_s_visit(d, r, k, c, depth, p);
        }
    } else {
        assert forall|p: Spot| #[trigger] w.contains(p) <==> s_visits(d, r, k, c, depth, p) by { }
    }
}
proof fn lemma_s_parts(h: Spot, u: Seq<Spot>, v: Seq<Spot>, p: Spot)
    ensures (seq![h] + u + v).contains(p) <==> p == h || u.contains(p) || v.contains(p)
{
    let w = seq![h] + u + v;
    if w.contains(p) { let i = choose|i: int| 0 <= i < w.len() && w[i] == p; if i > 0 { if i <= u.len() { assert(u[i - 1] == p); } else { assert(v[i - 1 - u.len()] == p); } } }
    if p == h { assert(w[0] == p); }
    if u.contains(p) { let i = choose|i: int| 0 <= i < u.len() && u[i] == p; assert(w[i + 1] == p); }
    if v.contains(p) { let i = choose|i: int| 0 <= i < v.len() && v[i] == p; assert(w[i + 1 + u.len()] == p); }
}
// one step of what is visited
proof fn lemma_s_visit(d: Document, r: Recursion, k: int, c: int, depth: nat, p: Spot)
    requires s_good(d), 0 <= c < t_data(s_elems(d), k).len(), 0 <= k < s_elems(d).len()
    ensures s_visits(d, r, k, c, depth, p) <==> p == (Spot { at: k, cursor: c, depth: depth }) || s_visits(d, r, k, c + 1, depth, p) || (s_goes_at(d, r, k) && s_kid(d, k, c) is Some && s_visits(d, r, s_kid(d, k, c)->0, 0, depth + 1, p))
{
    lemma_s_good(d, k);
    if let Some(x) = s_kid(d, k, c) {
        assert(t_data(s_elems(d), k)[c] == DataType::Element(x as ElementKey));
        if s_in(d, p) && p.depth > depth + 1 { lemma_s_via(d, r, x, p.at, (p.depth - depth - 1) as nat); }
        if s_visits(d, r, x, 0, depth + 1, p) && p.depth > depth + 1 {
            let j = choose|j: int| 0 <= j && (#[trigger] s_kid(d, x, j)) is Some && s_via(d, r, s_kid(d, x, j)->0, p.at, (p.depth - depth - 2) as nat);
            assert(s_via(d, r, x, p.at, (p.depth - depth - 1) as nat));
        }
        if s_in(d, p) && p.depth > depth && s_via(d, r, x, p.at, (p.depth - depth - 1) as nat) && p.depth > depth + 1 {
            let j = choose|j: int| (#[trigger] s_kid(d, x, j)) is Some && s_via(d, r, s_kid(d, x, j)->0, p.at, (p.depth - depth - 2) as nat);
            assert(0 <= j);
            assert(s_visits(d, r, x, 0, depth + 1, p));
        }
    }
}
pub proof fn c06_exact(d: Document, r: Recursion, k: int, depth: nat, p: Spot)
    requires s_good(d), 0 <= k < s_elems(d).len()
    ensures s_walk(d, r, k, 0, depth).contains(p) <==> s_in(d, p) && p.depth >= depth && s_via(d, r, k, p.at, (p.depth - depth) as nat)
{
    lemma_s_visits(d, r, k, 0, depth);
    if s_in(d, p) && p.depth > depth {
        lemma_s_via(d, r, k, p.at, (p.depth - depth) as nat);
        if s_via(d, r, k, p.at, (p.depth - depth) as nat) { let j = choose|j: int| (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, p.at, (p.depth - depth - 1) as nat); assert(0 <= j); }
    }
}
// every data item is visited once
pub open spec fn s_distinct(w: Seq<Spot>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> !((#[trigger] w[i]).at == (#[trigger] w[j]).at && w[i].cursor == w[j].cursor) }
pub open spec fn s_up(d: Document, i: int, f: nat) -> Option<int>
    decreases f
{
    if f == 0 { Some(i) } else { match s_up(d, i, (f - 1) as nat) { Some(p) => t_parent(s_elems(d), p), None => None } }
}
proof fn lemma_s_up_first(d: Document, i: int, f: nat)
    requires f > 0
    ensures s_up(d, i, f) == (match t_parent(s_elems(d), i) { Some(p) => s_up(d, p, (f - 1) as nat), None => None })
    decreases f
{
    if f > 1 { lemma_s_up_first(d, i, (f - 1) as nat); } else { assert(s_up(d, i, 0) == Some(i)); }
    if let Some(p) = t_parent(s_elems(d), i) { assert(s_up(d, p, 0) == Some(p)); }
}
proof fn lemma_s_via_up(d: Document, r: Recursion, k: int, at: int, f: nat)
    requires s_via(d, r, k, at, f)
    ensures s_up(d, at, f) == Some(k)
    decreases f
{
    if f > 0 { lemma_s_up_first(d, at, f); lemma_s_via_up(d, r, k, t_parent(s_elems(d), at)->0, (f - 1) as nat); }
}
// what is further up is higher
proof fn lemma_s_up_depth(d: Document, i: int, f: nat, g: nat)
    requires s_good(d), 0 <= i < s_elems(d).len(), f <= g, s_up(d, i, g) is Some
    ensures s_up(d, i, f) is Some, 0 <= s_up(d, i, f)->0 < s_elems(d).len(), 0 <= s_up(d, i, g)->0 < s_elems(d).len(), t_depth(s_elems(d), s_up(d, i, g)->0) <= t_depth(s_elems(d), s_up(d, i, f)->0), f < g ==> t_depth(s_elems(d), s_up(d, i, g)->0) < t_depth(s_elems(d), s_up(d, i, f)->0)
    decreases g
{
    reveal(s_good);
    if g > 0 {
        let p = s_up(d, i, (g - 1) as nat)->0;
        let q = s_up(d, i, g)->0;
        if f < g { lemma_s_up_depth(d, i, f, (g - 1) as nat); } else { lemma_s_up_depth(d, i, (g - 1) as nat, (g - 1) as nat); }
        assert(t_parent(s_elems(d), p) == Some(q));
        lemma_t_height(s_elems(d), q, p);
    }
}
// nothing is below two children of the same element
proof fn lemma_s_apart(d: Document, r: Recursion, k: int, x: int, y: int, at: int, f: nat, g: nat)
    requires s_good(d), 0 <= at < s_elems(d).len(), t_parent(s_elems(d), x) == Some(k), t_parent(s_elems(d), y) == Some(k), s_via(d, r, x, at, f), s_via(d, r, y, at, g)
    ensures x == y
{
    lemma_s_via_up(d, r, x, at, f);
    lemma_s_via_up(d, r, y, at, g);
    assert(s_up(d, at, f + 1) == Some(k));
    assert(s_up(d, at, g + 1) == Some(k));
    if f < g { lemma_s_up_depth(d, at, f + 1, g + 1); lemma_s_up_depth(d, at, f + 1, f + 1); }
    if g < f { lemma_s_up_depth(d, at, g + 1, f + 1); lemma_s_up_depth(d, at, g + 1, g + 1); }
}
pub proof fn c06_once(d: Document, r: Recursion, k: int, c: int, depth: nat)
    requires s_good(d), 0 <= c, 0 <= k < s_elems(d).len()
    ensures s_distinct(s_walk(d, r, k, c, depth))
    decreases t_height(s_elems(d), k), t_data(s_elems(d), k).len() - c
{
    lemma_s_good(d, k);
    reveal(s_good);
    let s = s_elems(d);
    let w = s_walk(d, r, k, c, depth);
    if c < t_data(s, k).len() {
        let u = s_under(d, r, k, c, depth);
        let v = s_walk(d, r, k, c + 1, depth);
        let h = Spot { at: k, cursor: c, depth: depth };
        c06_once(d, r, k, c + 1, depth);
        lemma_s_visits(d, r, k, c + 1, depth);
        assert(w == seq![h] + u + v);
        let data = t_data(s, k);
        if let DataType::Element(x) = data[c] {
            assert(t_parent(s, x as int) == Some(k));
            lemma_t_height(s, k, x as int);
            c06_once(d, r, x as int, 0, depth + 1);
            assert forall|i: int| 0 <= i < u.len() implies s_below(d, r, x as int, #[trigger] u[i]) by {
                let p = u[i];
                assert(u.contains(p));
                c06_exact(d, r, x as int, depth + 1, p);
                lemma_s_below(d, r, x as int, depth + 1, p);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies !((#[trigger] w[i]).at == (#[trigger] w[j]).at && w[i].cursor == w[j].cursor) by {
            if i == 0 {
                if j <= u.len() { assert(w[j] == u[j - 1]); assert(s_below(d, r, s_kid(d, k, c)->0, u[j - 1])); lemma_s_below_not(d, r, k, s_kid(d, k, c)->0, u[j - 1]); }
                else { let q = v[j - 1 - u.len()]; assert(w[j] == q); assert(v.contains(q)); lemma_s_visits_not(d, r, k, c, depth, q); }
            } else if i <= u.len() {
                let p = u[i - 1];
                assert(w[i] == p);
                assert(s_below(d, r, s_kid(d, k, c)->0, p));
                if j <= u.len() { assert(w[j] == u[j - 1]); }
                else { let q = v[j - 1 - u.len()]; assert(w[j] == q); assert(v.contains(q)); if p.at == q.at { lemma_s_below_other(d, r, k, c, depth, p, q); } }
            } else { assert(w[i] == v[i - 1 - u.len()]); assert(w[j] == v[j - 1 - u.len()]); }
        }
    }
}
pub open spec fn s_below(d: Document, r: Recursion, x: int, p: Spot) -> bool { s_in(d, p) && exists|f: nat| s_via(d, r, x, p.at, f) }
proof fn lemma_s_below(d: Document, r: Recursion, x: int, depth: nat, p: Spot)
    requires s_in(d, p), p.depth >= depth, s_via(d, r, x, p.at, (p.depth - depth) as nat)
    ensures s_below(d, r, x, p)
{ }
proof fn lemma_s_below_not(d: Document, r: Recursion, k: int, x: int, p: Spot)
    requires s_good(d), s_below(d, r, x, p), t_parent(s_elems(d), x) == Some(k)
    ensures p.at != k
{
    let f = choose|f: nat| s_via(d, r, x, p.at, f);
    lemma_s_via_up(d, r, x, p.at, f);
    assert(s_up(d, p.at, f + 1) == Some(k));
    lemma_s_up_depth(d, p.at, 0, f + 1);
}
// what comes later in k is neither the item at c nor below it
proof fn lemma_s_visits_not(d: Document, r: Recursion, k: int, c: int, depth: nat, q: Spot)
    requires s_good(d), 0 <= c, 0 <= k < s_elems(d).len(), s_visits(d, r, k, c + 1, depth, q)
    ensures !(q.at == k && q.cursor == c)
{
    if q.at == k && q.cursor == c {
        let j = choose|j: int| c + 1 <= j && (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, q.at, (q.depth - depth - 1) as nat);
        let y = s_kid(d, k, j)->0;
        assert(t_data(s_elems(d), k)[j] == DataType::Element(y as ElementKey));
        reveal(s_good);
        assert(t_parent(s_elems(d), y) == Some(k));
        lemma_s_below_not(d, r, k, y, q);
    }
}
proof fn lemma_s_below_other(d: Document, r: Recursion, k: int, c: int, depth: nat, p: Spot, q: Spot)
    requires s_good(d), 0 <= c < t_data(s_elems(d), k).len(), 0 <= k < s_elems(d).len(), s_kid(d, k, c) is Some, s_below(d, r, s_kid(d, k, c)->0, p), s_visits(d, r, k, c + 1, depth, q)
    ensures p.at != q.at
{
    let x = s_kid(d, k, c)->0;
    let data = t_data(s_elems(d), k);
    assert(data[c] == DataType::Element(x as ElementKey));
    reveal(s_good);
    assert(t_parent(s_elems(d), x) == Some(k));
    lemma_s_below_not(d, r, k, x, p);
    if p.at == q.at {
        let j = choose|j: int| c + 1 <= j && (#[trigger] s_kid(d, k, j)) is Some && s_via(d, r, s_kid(d, k, j)->0, q.at, (q.depth - depth - 1) as nat);
        let y = s_kid(d, k, j)->0;
        assert(data[j] == DataType::Element(y as ElementKey));
        assert(t_parent(s_elems(d), y) == Some(k));
        let f = choose|f: nat| s_via(d, r, x, p.at, f);
        lemma_s_apart(d, r, k, x, y, p.at, f, (q.depth - depth - 1) as nat);
        assert(t_once(t_data(s_elems(d), k)));
        assert(data[c] is Element && data[j] == data[c]);
    }
}
// what a whole iteration yields
pub open spec fn s_yield(d: Document, s: Selector, once: bool, w: Seq<Spot>, marks: Set<int>) -> Seq<Spot>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else {
        let item = s_item(d, w[0]);
        let span = s_span_of(d, item);
        if s_matches(d, s, item) && !(once && span is Some && marks.contains(span->0)) { seq![w[0]] + s_yield(d, s, once, w.skip(1), if once && span is Some { marks.insert(span->0) } else { marks }) }
        else { s_yield(d, s, once, w.skip(1), marks) }
    }
}
pub open spec fn s_are_marked(it: SelectIterator, marks: Set<int>) -> bool { forall|k: int| #[trigger] s_marked(it.returned@, it.returned_offset as int, k) <==> marks.contains(k) }
proof fn lemma_s_yield(it: SelectIterator, w: Seq<Spot>, marks: Set<int>, n: int)
    requires s_are_marked(it, marks), 0 <= n <= w.len(), forall|i: int| 0 <= i < n ==> !s_yields(it, s_item(*it.document, #[trigger] w[i]))
    ensures s_yield(*it.document, it.selector, it.spanreferences, w, marks) == s_yield(*it.document, it.selector, it.spanreferences, w.skip(n), marks)
    decreases n
{
    hide(s_matches);
    if n > 0 {
        assert(!s_yields(it, s_item(*it.document, w[0])));
        let v = w.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies !s_yields(it, s_item(*it.document, #[trigger] v[i])) by { assert(v[i] == w[i + 1]); }
        lemma_s_yield(it, v, marks, n - 1);
        assert(v.skip(n - 1) =~= w.skip(n));
    } else { assert(w.skip(0) =~= w); }
}
// C06: collecting everything an iteration yields gives the items of the walk that match, in the order of the walk, with their parents, positions and depths; with references to spans every span once
pub fn c06_all(it: SelectIterator) -> (r: Vec<(ElementKey, usize, usize)>)
    requires s_it_ok(it), it.iteration == 0, !it.inclusive, it.returned@.len() == 0, s_matchable(it.selector), s_rest(it).len() + 2 < usize::MAX
    ensures ({
        let y = s_yield(*it.document, it.selector, it.spanreferences, s_rest(it), Set::empty());
        r@.len() == y.len() && forall|i: int| 0 <= i < y.len() ==> (#[trigger] r@[i]).0 == y[i].at && r@[i].1 == y[i].cursor && r@[i].2 == y[i].depth
    })
{
    hide(s_matches); hide(s_matchable); hide(s_to_come);
    let ghost d = *it.document;
    let ghost a = it;
    let ghost w = s_rest(it);
    let ghost mut m = it;
    let ghost mut marks = Set::<int>::empty();
    let ghost mut y: Seq<Spot> = Seq::empty();
    let mut it = it;
    let mut r: Vec<(ElementKey, usize, usize)> = Vec::new();
    proof { assert(y + s_yield(d, a.selector, a.spanreferences, w, marks) =~= s_yield(d, a.selector, a.spanreferences, w, Set::empty())); }
    while let Some(x) = it.next()
        invariant it == m, s_it_ok(m), s_same_walk(m, a), *m.document == d, *a.document == d, w == s_rest(a), s_are_marked(m, marks), !a.inclusive, s_matchable(a.selector), m.iteration + s_rest(m).len() <= w.len(), w.len() + 2 < usize::MAX,
            y + s_yield(d, a.selector, a.spanreferences, s_rest(m), marks) == s_yield(d, a.selector, a.spanreferences, w, Set::empty()),
            r@.len() == y.len(), forall|i: int| 0 <= i < y.len() ==> (#[trigger] r@[i]).0 == y[i].at && r@[i].1 == y[i].cursor && r@[i].2 == y[i].depth,
        decreases s_rest(m).len()
    {
        proof {
            let v = s_rest(m);
            let k = choose|k: int| #[trigger] s_found(m, v, k) && s_is_at(d, x, v[k]) && s_rest(it) == v.skip(k + 1) && s_now_marked(m, it, *x.data);
            lemma_s_yield(m, v, marks, k);
            assert(v.skip(k)[0] == v[k]);
            assert(v.skip(k).skip(1) =~= v.skip(k + 1));
            let span = s_span_of(d, s_item(d, v[k]));
            let more = if a.spanreferences && span is Some { marks.insert(span->0) } else { marks };
            assert(y + (seq![v[k]] + s_yield(d, a.selector, a.spanreferences, v.skip(k + 1), more)) =~= y.push(v[k]) + s_yield(d, a.selector, a.spanreferences, v.skip(k + 1), more));
            y = y.push(v[k]);
            marks = more;
            m = it;
        }
        r.push((x.parent_key, x.cursor, x.depth));
    }
    proof {
        let v = s_rest(m);
        lemma_s_yield(m, v, marks, v.len() as int);
        assert(v.skip(v.len() as int).len() == 0);
        assert(y + s_yield(d, a.selector, a.spanreferences, v, marks) =~= y);
    }
    r
}
// no span is yielded twice
pub proof fn c06_spans_once(d: Document, s: Selector, w: Seq<Spot>, marks: Set<int>)
    ensures ({
        let y = s_yield(d, s, true, w, marks);
        &&& forall|i: int| 0 <= i < y.len() ==> !(s_span_of(d, s_item(d, #[trigger] y[i])) is Some && marks.contains(s_span_of(d, s_item(d, y[i]))->0))
        &&& forall|i: int, j: int| 0 <= i < j < y.len() ==> !(s_span_of(d, s_item(d, #[trigger] y[i])) is Some && s_span_of(d, s_item(d, #[trigger] y[j])) == s_span_of(d, s_item(d, y[i])))
    })
    decreases w.len()
{
    hide(s_matches); hide(s_span_of);
    if w.len() > 0 {
        let item = s_item(d, w[0]);
        let span = s_span_of(d, item);
        let more = if span is Some { marks.insert(span->0) } else { marks };
        c06_spans_once(d, s, w.skip(1), marks);
        c06_spans_once(d, s, w.skip(1), more);
        let y = s_yield(d, s, true, w, marks);
        let z = s_yield(d, s, true, w.skip(1), more);
        if s_matches(d, s, item) && !(span is Some && marks.contains(span->0)) {
            assert(y == seq![w[0]] + z);
            assert forall|i: int| 0 <= i < y.len() implies !(s_span_of(d, s_item(d, #[trigger] y[i])) is Some && marks.contains(s_span_of(d, s_item(d, y[i]))->0)) by { if i > 0 { assert(y[i] == z[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i < j < y.len() implies !(s_span_of(d, s_item(d, #[trigger] y[i])) is Some && s_span_of(d, s_item(d, #[trigger] y[j])) == s_span_of(d, s_item(d, y[i]))) by { assert(y[j] == z[j - 1]); if i > 0 { assert(y[i] == z[i - 1]); } }
        }
    }
}
