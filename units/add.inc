//# include add_spec.inc
pub proof fn lemma_a_rest(d: Document, m: Document)
    requires t_rest(m) == t_rest(d)
    ensures m.provenancestore == d.provenancestore, m.elementstore.root == d.elementstore.root, m.active_processor == d.active_processor
{
    assert(t_rest(m).provenancestore == m.provenancestore && t_rest(d).provenancestore == d.provenancestore);
    assert(t_rest(m).elementstore.root == m.elementstore.root && t_rest(d).elementstore.root == d.elementstore.root);
    assert(t_rest(m).active_processor == m.active_processor && t_rest(d).active_processor == d.active_processor);
}
//# if prove
pub proof fn lemma_a_fine(d: Document)
    ensures t_fine(s_elems(d)) <==> s_all_encoded(d) && s_refs_ok(d)
{ reveal(t_fine); }
// what is there is below the number of elements, and nothing above the parent is given as a child
pub proof fn lemma_a_there(d: Document, parent: Option<ElementKey>, e: ElementData)
    requires t_all_there(d, parent, e)
    ensures t_bound(e, s_elems(d).len() as int), parent is Some ==> forall|a: int| #[trigger] t_above(s_elems(d), parent->0 as int, a) ==> t_free(e, a)
    decreases e
{
    let n = s_elems(d).len() as int;
    assert(t_there(d, parent, e));
    let f = |x: ElementData| t_under(x, n);
    assert(t_under(e, n));
    assert forall|j: int| 0 <= j < e.data@.len() implies match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, f), _ => true } by {
        if let DataType::AddElement(x) = e.data@[j] { assert(t_all_there(d, parent, x)); lemma_a_there(d, parent, x); assert(t_bound(x, n)); }
    }
    assert(t_every(e, f));
    if parent is Some {
        assert forall|a: int| #[trigger] t_above(s_elems(d), parent->0 as int, a) implies t_free(e, a) by {
            let g = |x: ElementData| t_lacks(x, a);
            assert(t_lacks(e, a));
            assert forall|j: int| 0 <= j < e.data@.len() implies match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, g), _ => true } by {
                if let DataType::AddElement(x) = e.data@[j] { assert(t_all_there(d, parent, x)); lemma_a_there(d, parent, x); assert(t_free(x, a)); }
            }
            assert(t_every(e, g));
        }
    }
}
// adding keeps everything sound
pub proof fn lemma_a_sound(d: Document, el: ElementData, m: Document)
    requires s_sound(d), t_refs(el, s_elems(d).len() as int), t_inv(m), s_decs_inv(m), t_added(d, el, m)
    ensures s_sound(m)
{
    reveal(s_good);
    lemma_a_fine(d); lemma_a_fine(m);
    lemma_a_rest(d, m);
}
pub proof fn lemma_a_sounds(d: Document, el: ElementData)
    requires s_sound(d), t_refs(el, s_elems(d).len() as int)
    ensures forall|m: Document| t_inv(m) && s_decs_inv(m) && #[trigger] t_added(d, el, m) ==> s_sound(m)
{
    assert forall|m: Document| t_inv(m) && s_decs_inv(m) && #[trigger] t_added(d, el, m) implies s_sound(m) by { lemma_a_sound(d, el, m); }
}
pub proof fn lemma_a_next(w: Seq<Document>, keys: Seq<ElementKey>, n: int, m: Document)
    requires 0 <= n < keys.len(), s_posted_all(w, keys.take(n)), s_posted(w.last(), keys[n] as int, None, m, Ok(()))
    ensures s_posted_all(w.push(m), keys.take(n + 1))
{
    let w2 = w.push(m); let k2 = keys.take(n + 1);
    assert forall|i: int| 0 <= i < k2.len() implies s_posted_at(w2, k2, i) by { if i < n { assert(s_posted_at(w, keys.take(n), i)); assert(k2[i] == keys.take(n)[i]); } }
}
pub proof fn lemma_a_attached(d1: Document, p: ElementKey, k: ElementKey, d2: Document)
    requires s_sound(d1), t_inv(d2), s_placed(d1, Some(p), k, d2)
    ensures s_sound(d2)
{
    reveal(s_good);
    lemma_a_fine(d1); lemma_a_fine(d2);
    lemma_t_fine_attached(d1, p as int, k as int, d2);
    lemma_t_link(d1, d2);
    lemma_a_rest(d1, d2);
}
// the new element is not above what it is added to
pub proof fn lemma_a_not_above(d: Document, p: ElementKey, el: ElementData, d1: Document, k: ElementKey)
    requires t_inv(d), t_all_there(d, Some(p), el), t_added(d, el, d1), p < s_elems(d).len(), k == s_elems(d).len()
    ensures !t_above(s_elems(d1), p as int, k as int)
{
    let s = s_elems(d); let t = s_elems(d1);
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    lemma_a_there(d, Some(p), el);
    assert forall|a: int| #[trigger] t_above(s, p as int, a) implies t_parent(t, a) == t_parent(s, a) by {
        let f = choose|f: nat| t_reach(s, p as int, a, f); lemma_t_rank_reach(s, rank, p as int, a, f);
        assert(t_free(el, a));
    }
    lemma_t_up(s, t, p as int);
    if t_above(t, p as int, k as int) { assert(t_above(s, p as int, k as int)); let f = choose|f: nat| t_reach(s, p as int, k as int, f); lemma_t_rank_reach(s, rank, p as int, k as int, f); }
}
//# end-if
impl Document {
//# fn src/document.rs Document::add_element
//# ret r
//# spec
    requires s_sound(*old(self)), t_given(element), t_refs(element, s_elems(*old(self)).len() as int)
    ensures s_sound(*final(self)),
        r is Ok ==> t_new_ids(*old(self), element) && t_all_there(*old(self), None, element) && s_added_el(*old(self), None, element, *final(self), r->Ok_0),
        !t_new_ids(*old(self), element) || !t_all_there(*old(self), None, element) ==> r is Err && *final(self) == *old(self),
//# ghost start
    hide(s_posted);
    let ghost d = *self;
    let ghost el = element;
    proof { reveal(s_good); }
//# ghost let added_elements after
    proof { lemma_a_there(d, None, el); lemma_a_sounds(d, el); }
//# ghost let key after
    let ghost d1 = *self;
    let ghost keys = added_elements@;
    proof { lemma_a_sound(d, el, d1); assert(s_added_as(d, None, el, d1, key, keys)); assert(s_placed(d1, None, key, d1)); }
    let ghost mut w = seq![d1];
//# loop 1 it
    invariant s_sound(*self), s_posted_all(w, keys.take(it.index() as int)), w.last() == *self, w[0] == d1, it.index() <= keys.len(),
//# ghost loop 1 start
    let ghost p = *self;
    let ghost n = it.index() as int;
    proof { assert(subelement_key == keys[it.index() as int]); }
//# ghost loop 1 end
    proof { lemma_a_next(w, keys, n, *self); w = w.push(*self); }
//# ghost tail
    proof { assert(s_to_post(None, key, keys) == keys); assert(keys.take(keys.len() as int) =~= keys); assert(s_posted_all(w, s_to_post(None, key, keys))); }
//# endfn
//# fn src/document.rs Document::add_element_to
//# ret r
//# spec
    requires s_sound(*old(self)), t_given(element), t_refs(element, s_elems(*old(self)).len() as int)
    ensures s_sound(*final(self)),
        r is Ok ==> parent_key < s_elems(*old(self)).len() && t_new_ids(*old(self), element) && t_all_there(*old(self), Some(parent_key), element) && s_added_el(*old(self), Some(parent_key), element, *final(self), r->Ok_0),
        parent_key >= s_elems(*old(self)).len() || !t_new_ids(*old(self), element) || !t_all_there(*old(self), Some(parent_key), element) ==> r is Err && *final(self) == *old(self),
//# ghost start
    hide(s_posted);
    let ghost d = *self;
    let ghost el = element;
    proof { reveal(s_good); if parent_key < s_elems(d).len() { assert(s_elems(d)[parent_key as int] is Some); } }
//# ghost let added_elements after
    proof { lemma_a_there(d, Some(parent_key), el); lemma_a_sounds(d, el); }
//# ghost call attach_element 1 before
    let ghost d1 = *self;
    let ghost keys = added_elements@;
    proof { lemma_a_sound(d, el, d1); assert(s_added_as(d, Some(parent_key), el, d1, child_key, keys)); lemma_a_not_above(d, parent_key, el, d1, child_key); }
//# ghost call attach_element 1 after
    let ghost d2 = *self;
    let ghost all = s_to_post(Some(parent_key), child_key, keys);
    proof { assert(s_placed(d1, Some(parent_key), child_key, d2)); lemma_a_attached(d1, parent_key, child_key, d2); }
    let ghost mut w = seq![d2];
//# loop 1 it
    invariant s_sound(*self), s_posted_all(w, all.take(it.index() as int)), w.last() == *self, w[0] == d2, it.index() <= keys.len(),
//# ghost loop 1 start
    let ghost p = *self;
    let ghost n = it.index() as int;
    proof { assert(subelement_key == all[it.index() as int]); }
//# ghost loop 1 end
    proof { lemma_a_next(w, all, n, *self); w = w.push(*self); }
//# ghost call post_add 2 after
    proof { assert(all[keys.len() as int] == child_key); lemma_a_next(w, all, keys.len() as int, *self); assert(all.take(keys.len() as int + 1) =~= all); assert(s_posted_all(w.push(*self), s_to_post(Some(parent_key), child_key, keys))); }
//# endfn
}
