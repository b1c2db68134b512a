//# include tree_spec.inc
// above i is i itself, and what is above its parent
pub proof fn lemma_t_above_parent(s: Seq<Option<Box<ElementData>>>, i: int, a: int)
    ensures t_above(s, i, a) <==> i == a || match t_parent(s, i) { Some(p) => t_above(s, p, a), None => false }
{
    if t_above(s, i, a) { let f = choose|f: nat| t_reach(s, i, a, f); if i != a { assert(t_reach(s, t_parent(s, i)->0, a, (f - 1) as nat)); } }
    if i == a { assert(t_reach(s, i, a, 0)); }
    match t_parent(s, i) { Some(p) => if t_above(s, p, a) { let f = choose|f: nat| t_reach(s, p, a, f); assert(t_reach(s, i, a, f + 1)); }, None => {} }
}
//# if-unit tree add
pub proof fn lemma_t_reach_more(s: Seq<Option<Box<ElementData>>>, i: int, a: int, f: nat, g: nat)
    requires t_reach(s, i, a, f), f <= g
    ensures t_reach(s, i, a, g)
    decreases f
{
    if i != a { lemma_t_reach_more(s, t_parent(s, i)->0, a, (f - 1) as nat, (g - 1) as nat); }
}
// the parent of what is above is above
pub proof fn lemma_t_reach_step(s: Seq<Option<Box<ElementData>>>, i: int, a: int, f: nat)
    requires t_reach(s, i, a, f), t_parent(s, a) is Some
    ensures t_reach(s, i, t_parent(s, a)->0, f + 1)
    decreases f
{
    if i != a { lemma_t_reach_step(s, t_parent(s, i)->0, a, (f - 1) as nat); } else { assert(t_reach(s, t_parent(s, a)->0, t_parent(s, a)->0, f)); }
}
pub proof fn lemma_t_above_step(s: Seq<Option<Box<ElementData>>>, i: int, a: int)
    requires t_above(s, i, a), t_parent(s, a) is Some
    ensures t_above(s, i, t_parent(s, a)->0)
{
    let f = choose|f: nat| t_reach(s, i, a, f);
    lemma_t_reach_step(s, i, a, f);
}
// what is above i is the same in both
pub proof fn lemma_t_up(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>, i: int)
    requires t_up(s, t, i)
    ensures forall|a: int| #[trigger] t_above(t, i, a) <==> t_above(s, i, a)
{
    assert forall|a: int| #[trigger] t_above(t, i, a) <==> t_above(s, i, a) by {
        if t_above(t, i, a) { let f = choose|f: nat| t_reach(t, i, a, f); assert(t_above(s, i, i)) by { assert(t_reach(s, i, i, 0)); } lemma_t_up_reach(s, t, i, i, a, f); lemma_t_above_trans(s, i, i, a); }
        if t_above(s, i, a) { let f = choose|f: nat| t_reach(s, i, a, f); assert(t_above(s, i, i)) by { assert(t_reach(s, i, i, 0)); } lemma_t_up_reach2(s, t, i, i, a, f); }
    }
}
pub proof fn lemma_t_above_trans(s: Seq<Option<Box<ElementData>>>, i: int, b: int, a: int)
    requires t_above(s, i, b), t_above(s, b, a)
    ensures t_above(s, i, a)
{
    let f = choose|f: nat| t_reach(s, i, b, f);
    lemma_t_above_trans_f(s, i, b, a, f);
}
pub proof fn lemma_t_above_trans_f(s: Seq<Option<Box<ElementData>>>, i: int, b: int, a: int, f: nat)
    requires t_reach(s, i, b, f), t_above(s, b, a)
    ensures t_above(s, i, a)
    decreases f
{
    if i != b { let p = t_parent(s, i)->0; lemma_t_above_trans_f(s, p, b, a, (f - 1) as nat); lemma_t_above_parent(s, i, a); }
}
pub proof fn lemma_t_up_reach(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>, i: int, b: int, a: int, f: nat)
    requires t_up(s, t, i), t_above(s, i, b), t_reach(t, b, a, f)
    ensures t_above(s, b, a)
    decreases f
{
    if b == a { assert(t_reach(s, b, a, 0)); }
    else { assert(t_parent(t, b) == t_parent(s, b)); let p = t_parent(s, b)->0; lemma_t_above_step(s, i, b); lemma_t_up_reach(s, t, i, p, a, (f - 1) as nat); lemma_t_above_parent(s, b, a); }
}
pub proof fn lemma_t_up_reach2(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>, i: int, b: int, a: int, f: nat)
    requires t_up(s, t, i), t_above(s, i, b), t_reach(s, b, a, f)
    ensures t_above(t, b, a)
    decreases f
{
    if b == a { assert(t_reach(t, b, a, 0)); }
    else { assert(t_parent(t, b) == t_parent(s, b)); let p = t_parent(s, b)->0; lemma_t_above_step(s, i, b); lemma_t_up_reach2(s, t, i, p, a, (f - 1) as nat); lemma_t_above_parent(t, b, a); }
}
pub proof fn lemma_t_up_trans(s: Seq<Option<Box<ElementData>>>, t: Seq<Option<Box<ElementData>>>, u: Seq<Option<Box<ElementData>>>, i: int)
    requires t_up(s, t, i), t_up(t, u, i)
    ensures t_up(s, u, i)
{
    lemma_t_up(s, t, i);
    assert forall|a: int| #[trigger] t_above(s, i, a) implies t_parent(u, a) == t_parent(s, a) by { assert(t_above(t, i, a)); }
}
pub proof fn lemma_t_first(data: Seq<DataType>, x: DataType, i: int)
    requires t_first(data, x, i)
    ensures t_without(data, x) == data.remove(i)
{
    let j = choose|j: int| t_first(data, x, j);
    assert(data[i] == x && data[j] == x);
    if i < j { assert(data[i] != x); } if j < i { assert(data[j] != x); }
}
pub proof fn lemma_t_exists(data: Seq<DataType>, x: DataType, n: int)
    requires 0 <= n < data.len(), data[n] == x
    ensures exists|i: int| t_first(data, x, i)
    decreases n
{
    if exists|j: int| 0 <= j < n && data[j] == x { let j = choose|j: int| 0 <= j < n && data[j] == x; lemma_t_exists(data, x, j); } else { assert(t_first(data, x, n)); }
}
pub proof fn lemma_t_without(data: Seq<DataType>, x: DataType)
    requires t_once(data), x is Element
    ensures forall|y: DataType| #[trigger] t_without(data, x).contains(y) <==> data.contains(y) && y != x, t_once(t_without(data, x)), !data.contains(x) ==> t_without(data, x) == data
{
    if data.contains(x) {
        let n = choose|n: int| 0 <= n < data.len() && data[n] == x;
        lemma_t_exists(data, x, n);
        let i = choose|i: int| t_first(data, x, i);
        lemma_t_first(data, x, i);
        let r = data.remove(i);
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] == data[if k < i { k } else { k + 1 }] by {}
        assert forall|y: DataType| #[trigger] r.contains(y) <==> data.contains(y) && y != x by {
            if r.contains(y) { let k = choose|k: int| 0 <= k < r.len() && r[k] == y; let m = if k < i { k } else { k + 1 }; assert(data[m] == y); if y == x { if m > i { assert(data[m] != data[i]); } } }
            if data.contains(y) && y != x { let m = choose|m: int| 0 <= m < data.len() && data[m] == y; assert(r[if m < i { m } else { m - 1 }] == y); }
        }
        assert forall|a: int, b: int| 0 <= a < b < r.len() && (#[trigger] r[a]) is Element implies #[trigger] r[b] != r[a] by { let a2 = if a < i { a } else { a + 1 }; let b2 = if b < i { b } else { b + 1 }; assert(data[b2] != data[a2]); }
    }
}
pub proof fn lemma_t_rank_reach(s: Seq<Option<Box<ElementData>>>, rank: spec_fn(int) -> nat, i: int, a: int, f: nat)
    requires t_tree(s), t_rank(s, rank), t_reach(s, i, a, f), 0 <= i < s.len()
    ensures rank(a) <= rank(i), 0 <= a < s.len()
    decreases f
{
    if i != a { lemma_t_rank_reach(s, rank, t_parent(s, i)->0, a, (f - 1) as nat); }
}
// an element is in the data of its parent, and nowhere else
pub proof fn lemma_t_in(s: Seq<Option<Box<ElementData>>>, i: int, k: int)
    requires t_tree(s), 0 <= i < s.len(), 0 <= k < s.len(), s.len() <= 0x1_0000_0000
    ensures t_data(s, i).contains(t_el(k)) <==> t_parent(s, k) == Some(i)
{
    if t_data(s, i).contains(t_el(k)) { let n = choose|n: int| 0 <= n < t_data(s, i).len() && t_data(s, i)[n] == t_el(k); assert(t_data(s, i)[n] is Element); }
}
// attaching keeps the tree
pub proof fn lemma_t_attach(s: Seq<Option<Box<ElementData>>>, parent: int, child: int, t: Seq<Option<Box<ElementData>>>)
    requires t_tree(s), s.len() <= 0x1_0000_0000, 0 <= parent < s.len(), 0 <= child < s.len(), t_attached(s, parent, child, t), !t_above(s, parent, child)
    ensures t_tree(t), t_up(s, t, parent)
{
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    let c = t_el(child);
    assert(parent != child) by { if parent == child { assert(t_reach(s, parent, child, 0)); } }
    assert forall|i: int| 0 <= i < s.len() implies t_once(#[trigger] t_data(t, i)) && (forall|y: DataType| #[trigger] t_data(t, i).contains(y) <==> if y == c { i == parent } else { t_data(s, i).contains(y) }) by {
        let kept = if t_parent(s, child) == Some(i) { t_without(t_data(s, i), c) } else { t_data(s, i) };
        assert(t_once(t_data(s, i)));
        lemma_t_without(t_data(s, i), c);
        lemma_t_in(s, i, child);
        assert(!kept.contains(c) && t_once(kept));
        lemma_t_push(kept, c);
        assert(t_data(t, i) == t_moved(s, parent, child, i));
    }
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t_parent(t, i) { Some(p) => 0 <= p < t.len() && t_data(t, p).contains(t_el(i)), None => true } by {
        assert(t_parent(t, i) == (if i == child { Some(parent) } else { t_parent(s, i) }));
        if i == child { assert(t_data(t, parent).contains(c)); } else if let Some(p) = t_parent(s, i) { assert(t_data(s, p).contains(t_el(i))); assert(t_data(t, p).contains(t_el(i))); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t_data(t, i).len() implies match #[trigger] t_data(t, i)[j] { DataType::Element(k) => k < t.len() && t_parent(t, k as int) == Some(i), _ => true } by {
        let y = t_data(t, i)[j];
        if let DataType::Element(k) = y {
            assert(t_data(t, i).contains(y));
            if y == c { assert(t_parent(t, child) == Some(parent)); }
            else {
                assert(t_data(s, i).contains(y));
                let n = choose|n: int| 0 <= n < t_data(s, i).len() && t_data(s, i)[n] == y;
                assert(t_data(s, i)[n] is Element);
                assert(k as int != child);
                assert(t_parent(t, k as int) == t_parent(s, k as int));
            }
        }
    }
    let r2 = |i: int| -> nat { if t_above(s, i, child) { rank(i) + rank(parent) + 1 } else { rank(i) } };
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t_parent(t, i) { Some(p) => r2(p) < r2(i), None => true } by {
        assert(t_parent(t, i) == (if i == child { Some(parent) } else { t_parent(s, i) }));
        lemma_t_above_parent(s, i, child);
        if i == child { } else if let Some(p) = t_parent(s, i) { assert(rank(p) < rank(i)); }
    }
    assert(t_rank(t, r2));
    assert forall|a: int| #[trigger] t_above(s, parent, a) implies t_parent(t, a) == t_parent(s, a) by {
        let f = choose|f: nat| t_reach(s, parent, a, f); lemma_t_rank_reach(s, rank, parent, a, f); assert(a != child);
    }
}
pub proof fn lemma_t_detach(s: Seq<Option<Box<ElementData>>>, child: int, t: Seq<Option<Box<ElementData>>>)
    requires t_tree(s), s.len() <= 0x1_0000_0000, 0 <= child < s.len(), t_detached(s, child, t)
    ensures t_tree(t)
{
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    let c = t_el(child);
    assert forall|i: int| 0 <= i < s.len() implies t_once(#[trigger] t_data(t, i)) && (forall|y: DataType| #[trigger] t_data(t, i).contains(y) <==> y != c && t_data(s, i).contains(y)) by {
        assert(t_once(t_data(s, i)));
        lemma_t_without(t_data(s, i), c);
        lemma_t_in(s, i, child);
    }
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t_parent(t, i) { Some(p) => 0 <= p < t.len() && t_data(t, p).contains(t_el(i)) && rank(p) < rank(i), None => true } by {
        assert(t_parent(t, i) == (if i == child { None } else { t_parent(s, i) }));
        if i != child { if let Some(p) = t_parent(s, i) { assert(t_data(s, p).contains(t_el(i))); assert(t_data(t, p).contains(t_el(i))); } }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t_data(t, i).len() implies match #[trigger] t_data(t, i)[j] { DataType::Element(k) => k < t.len() && t_parent(t, k as int) == Some(i), _ => true } by {
        let y = t_data(t, i)[j];
        if let DataType::Element(k) = y {
            assert(t_data(t, i).contains(y));
            assert(t_data(s, i).contains(y));
            let n = choose|n: int| 0 <= n < t_data(s, i).len() && t_data(s, i)[n] == y;
            assert(t_data(s, i)[n] is Element);
            assert(k as int != child);
            assert(t_parent(t, k as int) == t_parent(s, k as int));
        }
    }
    assert(t_rank(t, rank));
}
// the same IDs
pub proof fn lemma_t_index(d: Document, e: Document)
    requires s_elems_inv(d), t_kept(s_elems(d), s_elems(e)), s_elems(e).len() == s_elems(d).len(), d.elementstore.index@ == e.elementstore.index@
    ensures s_elems_inv(e)
{
    let s = s_elems(d); let t = s_elems(e);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Some && t[i]->0.s_id() == s[i]->0.s_id() by { assert(s[i] is Some); }
    assert(s_inv::<ElementData, ElementKey>(s, d.elementstore.index@));
    lemma_key_laws();
    assert forall|x: String| #[trigger] e.elementstore.index@.contains_key(x) implies 0 <= s_idx(e.elementstore.index@[x]) < t.len() && t[s_idx(e.elementstore.index@[x])] is Some && t[s_idx(e.elementstore.index@[x])]->0.s_id() == Some(x@) by { assert(d.elementstore.index@.contains_key(x)); }
}
//# end-if
impl Document {
//# fn src/document.rs Document::attach_element
//# ret r
//# spec
    requires t_inv(*old(self))
    ensures t_inv(*final(self)), s_but_elems(*final(self)) == s_but_elems(*old(self)), final(self).elementstore.index@ == old(self).elementstore.index@,
        r is Ok <==> parent_key < s_elems(*old(self)).len() && child_key < s_elems(*old(self)).len() && !t_above(s_elems(*old(self)), parent_key as int, child_key as int),
        r is Ok ==> t_attached(s_elems(*old(self)), parent_key as int, child_key as int, s_elems(*final(self))) && t_up(s_elems(*old(self)), s_elems(*final(self)), parent_key as int),
        r is Err ==> s_elems(*final(self)) == s_elems(*old(self)),
//# closure 1 |element: &ElementData| -> (o: Option<ElementKey>) ensures o == element.parent
//# ghost start
    proof { lemma_key_laws(); }
    let ghost s = s_elems(*self);
    let ghost rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    proof { assert(t_reach(s, parent_key as int, parent_key as int, 0)); }
//# loop 1
    invariant *self == *old(self), s == s_elems(*old(self)), t_rank(s, rank), t_tree(s), parent_key < s.len(),
        match ancestor_key { Some(k) => k < s.len() && t_above(s, parent_key as int, k as int), None => true },
        t_above(s, parent_key as int, child_key as int) ==> ancestor_key is Some && t_above(s, ancestor_key->0 as int, child_key as int),
    decreases match ancestor_key { Some(k) => rank(k as int) + 1, None => 0 }
//# ghost loop 1 end
    proof {
        assert(s[key as int] is Some);
        assert(t_parent(s, key as int) == (match ancestor_key { Some(k) => Some(k as int), None => None }));
        if t_parent(s, key as int) is Some { lemma_t_above_step(s, parent_key as int, key as int); }
        lemma_t_above_parent(s, key as int, child_key as int);
    }
//# ghost tail
    proof {
        let t = s_elems(*self);
        let o = t_parent(s, child_key as int);
        let x = t_el(child_key as int);
        assert(child_key < s.len() && !t_above(s, parent_key as int, child_key as int));
        assert(parent_key != child_key);
        assert(t.len() == s.len());
        assert forall|i: int| 0 <= i < s.len() implies s[i] is Some && (#[trigger] t[i]) is Some && t_same(*s[i]->0, *t[i]->0) by { assert(s[i] is Some); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] t_parent(t, i) == (if i == child_key { Some(parent_key as int) } else { t_parent(s, i) }) by { assert(s[i] is Some); assert(t[i] is Some); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] t_data(t, i) == t_moved(s, parent_key as int, child_key as int, i) by {
            assert(s[i] is Some); assert(t[i] is Some);
            if o == Some(i) { lemma_t_moved(t_data(s, i), x); assert(t_data(s, i).push(x)[t_data(s, i).len() as int] == x); assert(t_data(s, i).push(x).contains(x));
                if i == parent_key { assert(t_data(t, i) == t_moved(s, parent_key as int, child_key as int, i)); } else { assert(t_data(t, i) == t_without(t_data(s, i), x)); } }
            else if i == parent_key { assert(t_data(t, i) == t_data(s, i).push(x)); } else { assert(t_data(t, i) == t_data(s, i)); }
        }
        assert(t_attached(s, parent_key as int, child_key as int, t));
        lemma_t_attach(s, parent_key as int, child_key as int, t);
        lemma_t_index(*old(self), *self);
    }
//# endfn
//# fn src/document.rs Document::detach_element
//# ret r
//# spec
    requires t_inv(*old(self))
    ensures t_inv(*final(self)), s_but_elems(*final(self)) == s_but_elems(*old(self)), final(self).elementstore.index@ == old(self).elementstore.index@,
        r is Ok <==> child_key < s_elems(*old(self)).len(),
        r is Ok ==> t_detached(s_elems(*old(self)), child_key as int, s_elems(*final(self))),
        r is Err ==> s_elems(*final(self)) == s_elems(*old(self)),
//# ghost start
    proof { lemma_key_laws(); }
    let ghost s = s_elems(*self);
//# ghost tail
    proof {
        let t = s_elems(*self);
        let x = t_el(child_key as int);
        assert(t.len() == s.len());
        assert forall|i: int| 0 <= i < s.len() implies s[i] is Some && (#[trigger] t[i]) is Some && t_same(*s[i]->0, *t[i]->0) by { assert(s[i] is Some); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] t_parent(t, i) == (if i == child_key { None } else { t_parent(s, i) }) by { assert(s[i] is Some); assert(t[i] is Some); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] t_data(t, i) == (if t_parent(s, child_key as int) == Some(i) { t_without(t_data(s, i), x) } else { t_data(s, i) }) by {
            assert(s[i] is Some); assert(t[i] is Some);
            if t_parent(s, child_key as int) == Some(i) { lemma_t_moved(t_data(s, i), x); }
        }
        assert(t_detached(s, child_key as int, t));
        lemma_t_detach(s, child_key as int, t);
        lemma_t_index(*old(self), *self);
    }
//# endfn
}
pub proof fn lemma_t_bound_kid(e: ElementData, j: int)
    requires 0 <= j < e.data@.len(), e.data@[j] is AddElement
    ensures forall|n: int| #[trigger] t_bound(e, n) ==> t_bound(e.data@[j]->AddElement_0, n), t_given(e) ==> t_given(e.data@[j]->AddElement_0),
        forall|n: int| #[trigger] t_free(e, n) ==> t_free(e.data@[j]->AddElement_0, n), forall|n: int| #[trigger] t_refs(e, n) ==> t_refs(e.data@[j]->AddElement_0, n)
{}
pub proof fn lemma_t_refs_up(e: ElementData, m: int, n: int)
    requires t_refs(e, m), m <= n
    ensures t_refs(e, n)
    decreases e
{
    assert(t_refs_under(e, m)); assert(t_refs_under(e, n));
    let f = |x: ElementData| t_refs_under(x, n);
    assert forall|j: int| 0 <= j < e.data@.len() implies match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, f), _ => true } by {
        if let DataType::AddElement(x) = e.data@[j] { lemma_t_bound_kid(e, j); lemma_t_refs_up(x, m, n); assert(t_refs(x, n)); }
    }
    assert(t_every(e, f));
}
//# if prove
// what the search for x yields, at the end of the data or not
pub proof fn lemma_t_moved(data: Seq<DataType>, x: DataType)
    requires data.contains(x)
    ensures forall|i: int| 0 <= i < data.len() && data[i] == x && (forall|j: int| 0 <= j < i ==> data[j] != x) ==> #[trigger] data.remove(i) == t_without(data, x),
        forall|i: int| 0 <= i < data.push(x).len() && data.push(x)[i] == x && (forall|j: int| 0 <= j < i ==> data.push(x)[j] != x) ==> #[trigger] data.push(x).remove(i) == t_without(data, x).push(x),
{
    let n = choose|n: int| 0 <= n < data.len() && data[n] == x;
    lemma_t_exists(data, x, n);
    let w = choose|i: int| t_first(data, x, i);
    lemma_t_first(data, x, w);
    assert forall|i: int| 0 <= i < data.len() && data[i] == x && (forall|j: int| 0 <= j < i ==> data[j] != x) implies #[trigger] data.remove(i) == t_without(data, x) by { assert(t_first(data, x, i)); lemma_t_first(data, x, i); }
    let p = data.push(x);
    assert forall|i: int| 0 <= i < p.len() && p[i] == x && (forall|j: int| 0 <= j < i ==> p[j] != x) implies #[trigger] p.remove(i) == t_without(data, x).push(x) by {
        if i > w { assert(p[w] == data[w]); }
        assert(i < data.len()); assert(data[i] == p[i]);
        assert forall|j: int| 0 <= j < i implies data[j] != x by { assert(p[j] == data[j]); }
        assert(t_first(data, x, i)); lemma_t_first(data, x, i);
        assert(p.remove(i) =~= data.remove(i).push(x));
    }
}
//# end-if
//# if prove
pub open spec fn t_hits(ids: Seq<&str>, id: Seq<char>) -> nat
    decreases ids.len()
{ if ids.len() == 0 { 0 } else { t_hits(ids.drop_last(), id) + if ids.last()@ == id { 1nat } else { 0 } } }
pub open spec fn t_queue(q: Seq<&ElementData>, id: Seq<char>) -> nat
    decreases q.len()
{ if q.len() == 0 { 0 } else { t_queue(q.drop_last(), id) + t_count(*q.last(), id) } }
pub open spec fn t_queue_size(q: Seq<&ElementData>) -> nat
    decreases q.len()
{ if q.len() == 0 { 0 } else { t_queue_size(q.drop_last()) + t_size(*q.last()) } }
pub proof fn lemma_t_hits(ids: Seq<&str>, id: Seq<char>)
    ensures t_hits(ids, id) > 0 <==> exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i])@ == id
    decreases ids.len()
{
    if ids.len() > 0 {
        let d = ids.drop_last();
        lemma_t_hits(d, id);
        if t_hits(d, id) > 0 { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i])@ == id; assert(ids[i]@ == id); }
        if ids.last()@ == id { assert(ids[ids.len() - 1]@ == id); }
        if exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i])@ == id { let i = choose|i: int| 0 <= i < ids.len() && (#[trigger] ids[i])@ == id; if i < d.len() { assert(d[i]@ == id); } }
    }
}
pub proof fn lemma_t_queue_push(q: Seq<&ElementData>, e: &ElementData)
    ensures forall|id: Seq<char>| #[trigger] t_queue(q.push(e), id) == t_queue(q, id) + t_count(*e, id), t_queue_size(q.push(e)) == t_queue_size(q) + t_size(*e)
{
    assert(q.push(e).drop_last() =~= q);
}
pub open spec fn t_queue_all(q: Seq<&ElementData>, f: spec_fn(ElementData) -> bool) -> bool
    decreases q.len()
{ q.len() == 0 || (t_queue_all(q.drop_last(), f) && t_every(*q.last(), f)) }
pub proof fn lemma_t_hits_push(q: Seq<&str>, e: &str)
    ensures forall|id: Seq<char>| #[trigger] t_hits(q.push(e), id) == t_hits(q, id) + (if e@ == id { 1nat } else { 0 })
{
    assert(q.push(e).drop_last() =~= q);
}
//# end-if
impl Document {
//# fn src/document.rs Document::check_ids_addable
//# ret r
//# spec
    ensures r is Ok <==> t_new_ids(*self, *element)
//# ghost start
    let ghost root = *element;
    proof { lemma_key_laws(); }
//# ghost loop 1 before
    proof {
        let none = Seq::<&ElementData>::empty();
        lemma_t_queue_push(none, element); assert(queue@ =~= none.push(element));
        assert forall|id: Seq<char>| #[trigger] t_count(root, id) == t_hits(ids@, id) + t_queue(queue@, id) by { assert(t_queue(none.push(element), id) == t_queue(none, id) + t_count(*element, id)); assert(t_queue(none, id) == 0); }
    }
//# loop 1
    invariant forall|id: Seq<char>| #[trigger] t_count(root, id) == t_hits(ids@, id) + t_queue(queue@, id),
        forall|id: Seq<char>| #[trigger] t_hits(ids@, id) <= 1 && (t_hits(ids@, id) == 1 ==> s_lookup(self.elementstore.index@, id) is None),
    decreases t_queue_size(queue@)
//# ghost loop 1 start
    let ghost q0 = queue@;
    let ghost ids0 = ids@;
    proof {
        lemma_t_queue_push(q0, element);
        if let Some(id) = s_el_id(*element) { lemma_t_hits(ids@, id); assert(t_queue(q0.push(element), id) == t_queue(q0, id) + t_count(*element, id)); assert(t_count(root, id) >= t_hits(ids@, id) + 1); }
    }
//# ghost loop 2 before
    proof { if let Some(id) = s_el_id(*element) { assert forall|x: &str| x@ == id implies #[trigger] ids0.push(x) == ids0.push(x) by { lemma_t_hits_push(ids0, x); } lemma_t_hits_push(ids0, ids@.last()); assert(ids@ =~= ids0.push(ids@.last())); }
        assert forall|id: Seq<char>| #[trigger] t_hits(ids@, id) == t_hits(ids0, id) + (if s_el_id(*element) == Some(id) { 1nat } else { 0 }) by {} }
//# loop 2 it
    invariant forall|id: Seq<char>| #[trigger] t_queue(queue@, id) == t_queue(q0, id) + t_count_in(*element, it.index() as nat, id),
        t_queue_size(queue@) == t_queue_size(q0) + t_size_in(*element, it.index() as nat),
//# ghost loop 2 start
    let ghost q1 = queue@;
    proof { assert(child == &element.data@[it.index()]); if let DataType::AddElement(x) = child { lemma_t_queue_push(q1, x); } }
//# endfn
}
impl Document {
//# fn src/document.rs Document::check_children_addable
//# ret r
//# spec
    requires t_inv(*self), parent_key is Some ==> parent_key->0 < s_elems(*self).len()
    ensures r is Ok <==> t_all_there(*self, parent_key, *element)
//# closure 1 |element: &ElementData| -> (o: Option<ElementKey>) ensures o == element.parent
//# ghost start
    let ghost root = *element;
    let ghost s = s_elems(*self);
    let ghost rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    let ghost f = |x: ElementData| t_there(*self, parent_key, x);
    proof { lemma_key_laws(); if parent_key is Some { assert(t_reach(s, parent_key->0 as int, parent_key->0 as int, 0)); } }
//# ghost loop 1 before
    proof {
        let none = Seq::<&ElementData>::empty();
        lemma_t_queue_push(none, element); assert(queue@ =~= none.push(element)); assert(none.push(element).drop_last() =~= none); assert(t_queue_all(none, f));
    }
//# loop 1
    invariant t_every(root, f) <==> t_queue_all(queue@, f),
    decreases t_queue_size(queue@)
//# ghost loop 1 start
    let ghost q0 = queue@;
    proof { lemma_t_queue_push(q0, element);
    }
//# loop 2 it
    invariant
        t_every(root, f) <==> t_queue_all(queue@, f) && t_there(*self, parent_key, *element) && t_ok_from(*element, it.index(), f),
        forall|j: int| 0 <= j < it.index() ==> match #[trigger] element.data@[j] { DataType::Element(k) => k < s.len() && (parent_key is Some ==> !t_above(s, parent_key->0 as int, k as int)), _ => true },
        t_queue_size(queue@) == t_queue_size(q0) + t_size_in(*element, it.index() as nat),
//# ghost loop 2 start
    let ghost q1 = queue@;
    let ghost n = it.index();
    proof { assert(child == &element.data@[n]);
        assert(t_ok_from(*element, n, f) <==> t_ok_from(*element, n + 1, f) && match element.data@[n] { DataType::AddElement(x) => t_every(x, f), _ => true }) by {
            assert(forall|j: int| n <= j < element.data@.len() && j != n ==> n + 1 <= j && element.data@[j] == #[trigger] element.data@[j]); }
        if let DataType::AddElement(x) = child { lemma_t_queue_push(q1, x);
            assert(q1.push(x).drop_last() =~= q1);
        } }
//# loop 3
    invariant parent_key is Some ==> parent_key->0 < s.len(),
        match ancestor_key { Some(k) => parent_key is Some && k < s.len() && t_above(s, parent_key->0 as int, k as int), None => true },
        parent_key is Some && t_above(s, parent_key->0 as int, *child_key as int) ==> ancestor_key is Some && t_above(s, ancestor_key->0 as int, *child_key as int),
    decreases match ancestor_key { Some(k) => rank(k as int) + 1, None => 0 }
//# ghost loop 3 end
    proof {
        assert(s[key as int] is Some);
        assert(t_parent(s, key as int) == (match ancestor_key { Some(k) => Some(k as int), None => None }));
        if t_parent(s, key as int) is Some { lemma_t_above_step(s, parent_key->0 as int, key as int); }
        lemma_t_above_parent(s, key as int, *child_key as int);
    }
//# endfn
}
//# if-unit tree add
pub proof fn lemma_t_link(m: Document, s: Document)
    requires s_but_elems(m) == s_but_elems(s), m.elementstore.index@ == s.elementstore.index@, t_kept(s_elems(m), s_elems(s))
    ensures t_grown(m, s), s.declarationstore == m.declarationstore
{
    assert(s_but_elems(m).declarationstore == m.declarationstore); assert(s_but_elems(s).declarationstore == s.declarationstore);
    assert(t_rest(m) == Document { declarationstore: arbitrary(), ..s_but_elems(m) });
    assert(t_rest(s) == Document { declarationstore: arbitrary(), ..s_but_elems(s) });
}
pub proof fn lemma_t_free(e: ElementData, n: int, k: int)
    requires t_bound(e, n), n <= k
    ensures t_free(e, k)
    decreases e
{
    assert(t_under(e, n));
    let f = |x: ElementData| t_lacks(x, k);
    assert(t_lacks(e, k));
    assert forall|j: int| 0 <= j < e.data@.len() implies match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, f), _ => true } by {
        if let DataType::AddElement(x) = e.data@[j] { lemma_t_bound_kid(e, j); lemma_t_free(x, n, k); assert(t_free(x, k)); }
    }
    assert(t_every(e, f));
}
// what the selections need is kept: by attaching,
pub proof fn lemma_t_fine_attached(m: Document, parent: int, child: int, s: Document)
    requires t_fine(s_elems(m)), t_tree(s_elems(m)), t_attached(s_elems(m), parent, child, s_elems(s))
    ensures t_fine(s_elems(s))
{
    reveal(t_fine);
    let a = s_elems(m); let t = s_elems(s);
    assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Some implies s_none_encodable(t[i]->0.attribs@) by { assert(a[i] is Some); }
    assert forall|i: int, c: int| 0 <= i < t.len() && 0 <= c < t_data(t, i).len() implies match #[trigger] t_data(t, i)[c] { DataType::SpanReference(k) => k < t.len(), _ => true } by {
        let y = t_data(t, i)[c];
        assert(t_data(t, i) == t_moved(a, parent, child, i));
        assert(t_once(t_data(a, i)));
        lemma_t_without(t_data(a, i), t_el(child));
        if y is SpanReference {
            let kept = if t_parent(a, child) == Some(i) { t_without(t_data(a, i), t_el(child)) } else { t_data(a, i) };
            assert(c < kept.len());
            assert(kept.contains(kept[c]));
            assert(t_data(a, i).contains(y));
            let n = choose|n: int| 0 <= n < t_data(a, i).len() && t_data(a, i)[n] == y;
            assert(t_data(a, i)[n] == y);
        }
    }
}
// by adding to the data of an element,
pub proof fn lemma_t_fine_pushed(m: Document, q: int, x: DataType, s: Document)
    requires t_fine(s_elems(m)), 0 <= q < s_elems(m).len(), s_elems(s).len() == s_elems(m).len(), t_kept(s_elems(m), s_elems(s)), forall|i: int| 0 <= i < s_elems(m).len() && i != q ==> #[trigger] t_data(s_elems(s), i) == t_data(s_elems(m), i),
        t_data(s_elems(s), q) == t_data(s_elems(m), q).push(x), match x { DataType::SpanReference(k) => k < s_elems(m).len(), _ => true }
    ensures t_fine(s_elems(s))
{
    reveal(t_fine);
    let a = s_elems(m); let t = s_elems(s);
    assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Some implies s_none_encodable(t[i]->0.attribs@) by { assert(a[i] is Some); }
    assert forall|i: int, c: int| 0 <= i < t.len() && 0 <= c < t_data(t, i).len() implies match #[trigger] t_data(t, i)[c] { DataType::SpanReference(k) => k < t.len(), _ => true } by {
        if i != q { assert(t_data(a, i)[c] == t_data(t, i)[c]); } else if c < t_data(a, q).len() { assert(t_data(a, q)[c] == t_data(t, q)[c]); }
    }
}
// and by adding an element
pub proof fn lemma_t_fine_new(d: Document, m: Document, y: ElementData)
    requires t_fine(s_elems(d)), s_elems(m) == s_elems(d).push(Some(Box::new(y))), y.data@.len() == 0, s_none_encodable(y.attribs@)
    ensures t_fine(s_elems(m))
{
    reveal(t_fine);
    let a = s_elems(d); let t = s_elems(m);
    assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Some implies s_none_encodable(t[i]->0.attribs@) by { if i < a.len() { assert(a[i] == t[i]); } }
    assert forall|i: int, c: int| 0 <= i < t.len() && 0 <= c < t_data(t, i).len() implies match #[trigger] t_data(t, i)[c] { DataType::SpanReference(k) => k < t.len(), _ => true } by {
        if i < a.len() { assert(t[i] == a[i]); assert(t_data(a, i)[c] == t_data(t, i)[c]); }
    }
}
pub proof fn lemma_t_bound_up(e: ElementData, m: int, n: int)
    requires t_bound(e, m), m <= n
    ensures t_bound(e, n)
    decreases e
{
    assert(t_under(e, m)); assert(t_under(e, n));
    let f = |x: ElementData| t_under(x, n);
    assert forall|j: int| 0 <= j < e.data@.len() implies match #[trigger] e.data@[j] { DataType::AddElement(x) => t_every(x, f), _ => true } by {
        if let DataType::AddElement(x) = e.data@[j] { lemma_t_bound_kid(e, j); lemma_t_bound_up(x, m, n); assert(t_bound(x, n)); }
    }
    assert(t_every(e, f));
}
pub proof fn lemma_t_count(e: ElementData, n: nat, m: nat, id: Seq<char>)
    requires n <= m <= e.data@.len()
    ensures t_count_in(e, n, id) <= t_count_in(e, m, id)
    decreases m
{ if n < m { lemma_t_count(e, n, (m - 1) as nat, id); } }
pub proof fn lemma_t_grown(a: Document, b: Document, c: Document)
    requires t_grown(a, b), t_grown(b, c)
    ensures t_grown(a, c)
{
    assert forall|i: int| 0 <= i < s_elems(a).len() implies s_elems(a)[i] is Some && (#[trigger] s_elems(c)[i]) is Some && t_same(*s_elems(a)[i]->0, *s_elems(c)[i]->0) by { assert(s_elems(b)[i] is Some); }
    assert forall|id: Seq<char>| s_lookup(a.elementstore.index@, id) is Some implies #[trigger] s_lookup(c.elementstore.index@, id) == s_lookup(a.elementstore.index@, id) by { assert(s_lookup(b.elementstore.index@, id) == s_lookup(a.elementstore.index@, id)); }
    lemma_decs_grown_trans(a, b, c);
}
pub proof fn lemma_decs_grown_trans(a: Document, b: Document, c: Document)
    requires s_decs_grown(a, b), s_decs_grown(b, c)
    ensures s_decs_grown(a, c)
{
    assert forall|i: int| 0 <= i < s_decs(a).len() && s_decs(a)[i] is Some implies (#[trigger] s_decs(c)[i]) is Some && s_dec_grown(*s_decs(a)[i]->0, *s_decs(c)[i]->0) by { assert(s_decs(b)[i] is Some); }
}
pub proof fn lemma_t_enc(f: Document, f2: Document, k: int, context: Option<ElementKey>, el: ElementData)
    requires t_enc(f, k, context, el), t_grown(f, f2)
    ensures t_enc(f2, k, context, el)
{
    reveal(t_enc);
    let (p, g, q, x) = choose|p: Document, g: ElementData, q: Document, x: ElementData| #[trigger] s_encode_el(p, g, context, q, Ok(x)) && s_encode_el_pre(p, g) && s_same_but_data(g, el) && s_elem(f, k) is Some && s_elem(f, k)->0.attribs == x.attribs && s_elem(f, k)->0.elementtype == x.elementtype
        && s_decs_grown(q, f) && t_rest(p) == t_rest(f) && match context { Some(c) => match s_elem(p, c as int) { Some(y) => s_elem(f, c as int) is Some && t_same(y, s_elem(f, c as int)->0), None => true }, None => true };
    lemma_decs_grown_trans(q, f, f2);
    assert(s_elems(f2)[k] is Some);
    if let Some(c) = context { if s_elem(f, c as int) is Some { assert(s_elems(f2)[c as int] is Some); } }
}
pub proof fn lemma_t_born(d: Document, d2: Document, lo: int, k: int, context: Option<ElementKey>, el: ElementData)
    requires t_born(d, k, context, el), lo <= k, t_grown(d, d2),
        forall|i: int| lo <= i < s_elems(d).len() ==> #[trigger] t_data(s_elems(d2), i) == t_data(s_elems(d), i),
        forall|i: int| lo < i < s_elems(d).len() && t_parent(s_elems(d), i) is Some ==> #[trigger] t_parent(s_elems(d2), i) == t_parent(s_elems(d), i),
    ensures t_born(d2, k, context, el)
    decreases el
{
    lemma_t_enc(d, d2, k, context, el);
    assert(t_data(s_elems(d2), k) == t_data(s_elems(d), k));
    assert forall|j: int| 0 <= j < el.data@.len() implies t_kid(d2, k, #[trigger] el.data@[j], t_data(s_elems(d2), k)[j]) by {
        if let DataType::AddElement(c) = el.data@[j] { if let DataType::Element(x) = t_data(s_elems(d), k)[j] { lemma_t_born(d, d2, lo, x as int, Some(k as ElementKey), c); } }
    }
}
// adding one element without data
pub proof fn lemma_t_new(d: Document, el: ElementData, el0: ElementData, context: Option<ElementKey>, mid: Document, enc: Result<ElementData, FoliaError>, m: Document, r: Result<ElementKey, FoliaError>)
    requires t_inv(d), s_decs_inv(d), s_same_but_data(el, el0), el0.data@.len() == 0, t_plain(el), s_lookup_free(d, el),
        s_encode_el(d, el0, context, mid, enc), s_but_elems(m) == s_but_elems(mid), mid.elementstore.items@ == d.elementstore.items@, mid.elementstore.index@ == d.elementstore.index@,
        match enc { Ok(x) => x.s_id() == el0.s_id() && s_add::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@, x, m.elementstore.items@, m.elementstore.index@, r), Err(_) => r is Err && m == mid }
    ensures t_inv(m), s_decs_inv(m), t_grown(d, m), t_rest(m) == t_rest(d),
        forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_elems(m)[i] == s_elems(d)[i],
        forall|id: Seq<char>| #[trigger] s_lookup(m.elementstore.index@, id) is Some ==> s_lookup(d.elementstore.index@, id) is Some || s_el_id(el) == Some(id),
        t_fine(s_elems(d)) ==> t_fine(s_elems(m)),
        match r { Ok(k) => k == s_elems(d).len() && s_elems(m).len() == k + 1 && t_data(s_elems(m), k as int).len() == 0 && t_parent(s_elems(m), k as int) is None && t_enc(m, k as int, context, el), Err(_) => true }
{
    reveal(t_enc);
    lemma_key_laws();
    assert(s_decs_grown(d, d));
    assert(s_decs(m) == s_decs(mid)) by { assert(s_but_elems(m).declarationstore == m.declarationstore); assert(s_but_elems(mid).declarationstore == mid.declarationstore); }
    assert(m.declarationstore == mid.declarationstore) by { assert(s_but_elems(m).declarationstore == m.declarationstore); assert(s_but_elems(mid).declarationstore == mid.declarationstore); }
    assert(t_rest(m) == t_rest(mid)) by { assert(t_rest(m) == Document { declarationstore: arbitrary(), ..s_but_elems(m) }); }
    assert(t_rest(mid) == t_rest(d)) by { if s_any_encodable(el0.attribs@) { assert(Document { declarationstore: arbitrary(), ..s_but_decs(mid) } == Document { declarationstore: arbitrary(), ..s_but_decs(d) }); assert(mid.elementstore == d.elementstore) by { assert(s_but_decs(mid).elementstore == mid.elementstore); assert(s_but_decs(d).elementstore == d.elementstore); } assert(t_rest(mid) == s_but_elems(s_but_decs(mid))); } }
    assert(s_el_id(el0) == s_el_id(el));
    let s = s_elems(d); let t = s_elems(m);
    if let Ok(x) = enc {
        if let Ok(k) = r {
            let y = x.s_keyed(k);
            assert(t == s.push(Some(Box::new(y))));
            lemma_t_added(s, y);
            lemma_s_add_inv::<ElementData, ElementKey>(s, d.elementstore.index@, x, t, m.elementstore.index@, r);
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Some && t[i]->0.key == Some(i as ElementKey) by { if i < s.len() { assert(s[i] is Some); } }
            assert forall|i: int| 0 <= i < s.len() implies s[i] is Some && (#[trigger] t[i]) is Some && t_same(*s[i]->0, *t[i]->0) by { assert(s[i] is Some); }
            assert(s_elem(m, k as int) == Some(y));
            assert(s_encode_el(d, el0, context, mid, Ok(x)));
            assert(s_decs_grown(mid, m));
            if let Some(c) = context { if s_elem(d, c as int) is Some { assert(s_elem(m, c as int) == s_elem(d, c as int)); } }
            assert(t_enc(m, k as int, context, el));
            if t_fine(s_elems(d)) { lemma_t_encoded(d, el0, context, mid, x); lemma_t_fine_new(d, m, y); }
        }
    }
}
// what has been encoded has no attributes left to encode
proof fn lemma_t_encoded(d: Document, e: ElementData, context: Option<ElementKey>, d2: Document, x: ElementData)
    requires s_encode_el(d, e, context, d2, Ok(x))
    ensures s_none_encodable(x.attribs@)
{
    if s_any_encodable(e.attribs@) {
        let (m, k) = choose|m: Document, k: Refs| #[trigger] s_encoded(d, e, context, m, d2, k) && x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k);
        let g = |a: Attribute| !s_encodable(a);
        lemma_t_filter(e.attribs@, g);
        assert forall|i: int| 0 <= i < x.attribs@.len() implies !s_encodable(#[trigger] x.attribs@[i]) by {
            let n = s_filter(e.attribs@, g).len();
            if i < n { assert(g(s_filter(e.attribs@, g)[i])); assert(x.attribs@[i] == s_filter(e.attribs@, g)[i]); }
            else { assert(x.attribs@[i] == s_refs(k)[i - n]); }
        }
    }
}
proof fn lemma_t_filter<T>(s: Seq<T>, g: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < s_filter(s, g).len() ==> g(#[trigger] s_filter(s, g)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_t_filter(d, g);
        assert forall|i: int| 0 <= i < s_filter(s, g).len() implies g(#[trigger] s_filter(s, g)[i]) by { if i < s_filter(d, g).len() { assert(s_filter(s, g)[i] == s_filter(d, g)[i]); } }
    }
}
pub open spec fn s_lookup_free(d: Document, el: ElementData) -> bool { match s_el_id(el) { Some(id) => s_lookup(d.elementstore.index@, id) is None, None => true } }
pub proof fn lemma_t_added(s: Seq<Option<Box<ElementData>>>, x: ElementData)
    requires t_tree(s), x.parent is None, x.data@.len() == 0
    ensures t_tree(s.push(Some(Box::new(x))))
{
    let t = s.push(Some(Box::new(x)));
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    assert(t_parent(t, s.len() as int) is None);
    assert(t_data(t, s.len() as int).len() == 0);
    assert forall|i: int| 0 <= i < s.len() implies t_parent(t, i) == t_parent(s, i) && t_data(t, i) == t_data(s, i) by {}
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t_parent(t, i) { Some(p) => 0 <= p < t.len() && t_data(t, p).contains(t_el(i)) && rank(p) < rank(i), None => true } by { if i < s.len() { assert(t_parent(s, i) == t_parent(t, i)); } }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t_data(t, i).len() implies match #[trigger] t_data(t, i)[j] { DataType::Element(k) => k < t.len() && t_parent(t, k as int) == Some(i), _ => true } by { if i < s.len() { assert(t_data(s, i)[j] == t_data(t, i)[j]); } }
    assert forall|i: int| 0 <= i < t.len() implies t_once(#[trigger] t_data(t, i)) by { if i < s.len() { assert(t_data(s, i) == t_data(t, i)); } }
    assert(t_rank(t, rank));
}
//# end-if
//# if prove
// adding el with its data: the element itself is there (m0), at key, and so are the first n of its data (s)
#[verifier::opaque]
pub open spec fn t_step(m0: Document, el: ElementData, n: int, key: ElementKey, s: Document) -> bool {
    &&& s_elems(m0).len() == key + 1 && s_elems(s).len() == key + 1 + t_size_in(el, n as nat)
    &&& forall|id: Seq<char>| #[trigger] s_lookup(s.elementstore.index@, id) is Some ==> s_lookup(m0.elementstore.index@, id) is Some || t_count_in(el, n as nat, id) >= 1
    &&& forall|i: int| #[trigger] t_free(el, i) && 0 <= i <= key ==> #[trigger] t_parent(s_elems(s), i) == t_parent(s_elems(m0), i)
    &&& t_fine(s_elems(m0)) && t_refs(el, key as int) ==> t_fine(s_elems(s))
    &&& t_bound(el, 0) ==> (forall|i: int| 0 <= i < key ==> #[trigger] s_elems(s)[i] == s_elems(m0)[i]) && t_data(s_elems(s), key as int).len() == n && forall|j: int| 0 <= j < n ==> t_kid(s, key as int, #[trigger] el.data@[j], t_data(s_elems(s), key as int)[j])
}
// the element itself
pub open spec fn t_alone(d: Document, el: ElementData, context: Option<ElementKey>, m: Document, key: ElementKey) -> bool {
    &&& t_inv(m) && s_decs_inv(m) && t_grown(d, m) && key == s_elems(d).len() && s_elems(m).len() == key + 1 && t_data(s_elems(m), key as int).len() == 0 && t_parent(s_elems(m), key as int) is None && t_enc(m, key as int, context, el)
    &&& t_fine(s_elems(d)) ==> t_fine(s_elems(m))
    &&& forall|i: int| 0 <= i < s_elems(d).len() ==> #[trigger] s_elems(m)[i] == s_elems(d)[i]
    &&& forall|id: Seq<char>| #[trigger] s_lookup(m.elementstore.index@, id) is Some ==> s_lookup(d.elementstore.index@, id) is Some || s_el_id(el) == Some(id)
}
pub proof fn lemma_t_partial(d: Document, el: ElementData, context: Option<ElementKey>, m0: Document, n: int, key: ElementKey, s: Document)
    requires t_alone(d, el, context, m0, key), t_new_ids(d, el), t_grown(m0, s), t_step(m0, el, n, key, s), 0 <= n <= el.data@.len()
    ensures t_added(d, el, s)
{
    reveal(t_step);
    lemma_t_grown(d, m0, s);
    assert forall|id: Seq<char>| #[trigger] s_lookup(s.elementstore.index@, id) is Some implies s_lookup(d.elementstore.index@, id) is Some || t_count(el, id) == 1 by { lemma_t_count(el, n as nat, el.data@.len(), id); assert(t_count(el, id) <= 1); assert(s_lookup(m0.elementstore.index@, id) is Some || t_count_in(el, n as nat, id) >= 1); }
    assert forall|i: int| #[trigger] t_free(el, i) && 0 <= i < s_elems(d).len() implies #[trigger] t_parent(s_elems(s), i) == t_parent(s_elems(d), i) by { assert(t_parent(s_elems(s), i) == t_parent(s_elems(m0), i)); if 0 <= i { assert(s_elems(m0)[i] == s_elems(d)[i]); } }
    if t_bound(el, 0) { assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] s_elems(s)[i] == s_elems(d)[i] by { assert(s_elems(m0)[i] == s_elems(d)[i]); } }
}
// the next of its data is a new element: what adding that needs, and what if it fails
pub proof fn lemma_t_before(d: Document, el: ElementData, context: Option<ElementKey>, m0: Document, n: int, key: ElementKey, s: Document)
    requires t_alone(d, el, context, m0, key), t_new_ids(d, el), t_given(el), t_bound(el, key as int), t_grown(m0, s), t_step(m0, el, n, key, s), 0 <= n < el.data@.len()
    ensures match el.data@[n] { DataType::AddElement(c) => t_given(c) && t_bound(c, s_elems(s).len() as int) && t_new_ids(s, c) && (forall|s2: Document| #[trigger] t_added(s, c, s2) ==> t_added(d, el, s2)), _ => true }, t_added(d, el, s),
        t_parent(s_elems(s), key as int) is None, s_elems(s).len() > key
{
    reveal(t_step);
    lemma_t_partial(d, el, context, m0, n, key, s);
    if let DataType::AddElement(c) = el.data@[n] {
        lemma_t_bound_kid(el, n);
        if t_refs(el, s_elems(d).len() as int) { lemma_t_refs_up(c, s_elems(d).len() as int, s_elems(s).len() as int); }
        lemma_t_bound_up(c, key as int, s_elems(s).len() as int);
        let len = el.data@.len();
        assert forall|id: Seq<char>| #[trigger] t_count(c, id) <= 1 && (t_count(c, id) == 1 ==> s_lookup(s.elementstore.index@, id) is None) by {
            lemma_t_count(el, (n + 1) as nat, len, id); assert(t_count(el, id) <= 1); assert(t_count_in(el, (n + 1) as nat, id) == t_count_in(el, n as nat, id) + t_count(c, id));
            if t_count(c, id) == 1 { assert(s_lookup(m0.elementstore.index@, id) is None); }
        }
        assert forall|s2: Document| #[trigger] t_added(s, c, s2) implies t_added(d, el, s2) by {
            lemma_t_grown(d, m0, s); lemma_t_grown(d, s, s2);
            assert forall|id: Seq<char>| #[trigger] s_lookup(s2.elementstore.index@, id) is Some implies s_lookup(d.elementstore.index@, id) is Some || t_count(el, id) == 1 by {
                lemma_t_count(el, (n + 1) as nat, len, id); assert(t_count(el, id) <= 1); assert(t_count_in(el, (n + 1) as nat, id) == t_count_in(el, n as nat, id) + t_count(c, id));
                if t_count(c, id) != 1 { assert(s_lookup(s.elementstore.index@, id) is Some); } }
            assert forall|i: int| #[trigger] t_free(el, i) && 0 <= i < s_elems(d).len() implies #[trigger] t_parent(s_elems(s2), i) == t_parent(s_elems(d), i) by { assert(t_free(c, i)); assert(t_parent(s_elems(s2), i) == t_parent(s_elems(s), i)); assert(t_parent(s_elems(s), i) == t_parent(s_elems(m0), i)); if 0 <= i { assert(s_elems(m0)[i] == s_elems(d)[i]); } }
            if t_bound(el, 0) { assert(t_bound(c, 0)); assert forall|i: int| 0 <= i < s_elems(d).len() implies #[trigger] s_elems(s2)[i] == s_elems(d)[i] by { assert(s_elems(s2)[i] == s_elems(s)[i]); assert(s_elems(m0)[i] == s_elems(d)[i]); } }
        }
    }
    lemma_t_free(el, key as int, key as int);
    assert(t_parent(s_elems(s), key as int) == t_parent(s_elems(m0), key as int));
}
// it was added (b4 to m) and attached (m to s)
pub proof fn lemma_t_child(m0: Document, el: ElementData, n: int, key: ElementKey, b4: Document, m: Document, k: ElementKey, s: Document)
    requires t_step(m0, el, n, key, b4), 0 <= n < el.data@.len(), el.data@[n] is AddElement, t_inv(m), t_inv(b4), t_inv(s),
        t_added(b4, el.data@[n]->AddElement_0, m), k == s_elems(b4).len(), k < s_elems(m).len(), t_parent(s_elems(m), k as int) is None, s_elems(m).len() == k + t_size(el.data@[n]->AddElement_0),
        t_bound(el.data@[n]->AddElement_0, 0) ==> t_born(m, k as int, Some(key), el.data@[n]->AddElement_0),
        s_but_elems(s) == s_but_elems(m), s.elementstore.index@ == m.elementstore.index@, t_attached(s_elems(m), key as int, k as int, s_elems(s))
    ensures t_step(m0, el, n + 1, key, s), t_grown(b4, s)
{
    reveal(t_step);
    let c = el.data@[n]->AddElement_0;
    if t_fine(s_elems(m)) { lemma_t_fine_attached(m, key as int, k as int, s); }
    if t_refs(el, key as int) { lemma_t_bound_kid(el, n); lemma_t_refs_up(c, key as int, s_elems(b4).len() as int); }
    lemma_t_link(m, s);
    lemma_t_grown(b4, m, s);
    lemma_t_bound_kid(el, n);
    assert forall|id: Seq<char>| #[trigger] s_lookup(s.elementstore.index@, id) is Some implies s_lookup(m0.elementstore.index@, id) is Some || t_count_in(el, (n + 1) as nat, id) >= 1 by { assert(t_count_in(el, (n + 1) as nat, id) == t_count_in(el, n as nat, id) + t_count(c, id)); assert(s_lookup(m.elementstore.index@, id) is Some); if t_count(c, id) != 1 { assert(s_lookup(b4.elementstore.index@, id) is Some); } }
    assert forall|i: int| #[trigger] t_free(el, i) && 0 <= i <= key implies #[trigger] t_parent(s_elems(s), i) == t_parent(s_elems(m0), i) by { assert(t_free(c, i)); assert(t_parent(s_elems(s), i) == t_parent(s_elems(m), i)); assert(t_parent(s_elems(m), i) == t_parent(s_elems(b4), i)); }
    if t_bound(el, 0) {
        assert(t_bound(c, 0));
        let q = key as int;
        assert forall|i: int| 0 <= i < s_elems(b4).len() implies t_data(s_elems(m), i) == t_data(s_elems(b4), i) && t_parent(s_elems(m), i) == t_parent(s_elems(b4), i) by { assert(s_elems(m)[i] == s_elems(b4)[i]); }
        assert(t_data(s_elems(s), q) == t_moved(s_elems(m), q, k as int, q));
        assert(t_data(s_elems(s), q) == t_data(s_elems(b4), q).push(DataType::Element(k)));
        assert forall|i: int| 0 <= i < s_elems(m).len() && i != q implies #[trigger] t_data(s_elems(s), i) == t_data(s_elems(m), i) by { assert(t_data(s_elems(s), i) == t_moved(s_elems(m), q, k as int, i)); }
        assert forall|i: int| 0 <= i < key implies #[trigger] s_elems(s)[i] == s_elems(m0)[i] by {
            assert(s_elems(m)[i] == s_elems(b4)[i]); assert(s_elems(b4)[i] == s_elems(m0)[i]);
        }
        assert forall|j: int| 0 <= j < n + 1 implies t_kid(s, q, #[trigger] el.data@[j], t_data(s_elems(s), q)[j]) by {
            if j < n {
                assert(t_kid(b4, q, el.data@[j], t_data(s_elems(b4), q)[j]));
                if let DataType::AddElement(e2) = el.data@[j] { if let DataType::Element(x) = t_data(s_elems(b4), q)[j] { assert(t_data(s_elems(s), q)[j] == t_data(s_elems(b4), q)[j]); lemma_t_born(b4, s, x as int, x as int, Some(key), e2); assert(t_parent(s_elems(s), x as int) == t_parent(s_elems(m), x as int)); } }
            } else {
                lemma_t_born(m, s, k as int, k as int, Some(key), c);
                assert(t_parent(s_elems(s), k as int) == Some(q));
            }
        }
    }
}
//# end-if
//# if prove
// the next of its data is an existing element, which is attached (b4 to s)
pub proof fn lemma_t_old(m0: Document, el: ElementData, n: int, key: ElementKey, b4: Document, k: ElementKey, s: Document)
    requires t_step(m0, el, n, key, b4), 0 <= n < el.data@.len(), el.data@[n] == DataType::Element(k), t_inv(b4), t_inv(s),
        s_but_elems(s) == s_but_elems(b4), s.elementstore.index@ == b4.elementstore.index@, t_attached(s_elems(b4), key as int, k as int, s_elems(s))
    ensures t_step(m0, el, n + 1, key, s), t_grown(b4, s)
{
    reveal(t_step);
    lemma_t_link(b4, s);
    assert forall|id: Seq<char>| #[trigger] s_lookup(s.elementstore.index@, id) is Some implies s_lookup(m0.elementstore.index@, id) is Some || t_count_in(el, (n + 1) as nat, id) >= 1 by { assert(t_count_in(el, (n + 1) as nat, id) == t_count_in(el, n as nat, id)); assert(s_lookup(b4.elementstore.index@, id) is Some); }
    assert forall|i: int| #[trigger] t_free(el, i) implies k != i by { assert(t_lacks(el, i)); assert(el.data@[n] is Element); }
    if t_fine(s_elems(b4)) { lemma_t_fine_attached(b4, key as int, k as int, s); }
    assert forall|i: int| #[trigger] t_free(el, i) && 0 <= i <= key implies #[trigger] t_parent(s_elems(s), i) == t_parent(s_elems(m0), i) by { assert(t_parent(s_elems(b4), i) == t_parent(s_elems(m0), i)); }
}
// the next of its data is something else, which is pushed (b4 to s)
pub proof fn lemma_t_pushed(m0: Document, el: ElementData, n: int, key: ElementKey, b4: Document, x: ElementData, s: Document)
    requires t_step(m0, el, n, key, b4), 0 <= n < el.data@.len(), !(el.data@[n] is AddElement), !(el.data@[n] is Element), t_inv(b4), s_decs_inv(b4), s_elems(b4).len() > key,
        s_but_elems(s) == s_but_elems(b4), s.elementstore.index@ == b4.elementstore.index@, s_elems(s) == s_elems(b4).update(key as int, Some(Box::new(x))), s_same_but_data(*s_elems(b4)[key as int]->0, x), x.data@ == s_elems(b4)[key as int]->0.data@.push(el.data@[n])
    ensures t_step(m0, el, n + 1, key, s), t_grown(b4, s), t_inv(s), s_decs_inv(s)
{
    reveal(t_step);
    let q = key as int;
    let a = s_elems(b4); let t = s_elems(s);
    assert(a[q] is Some);
    assert forall|i: int| 0 <= i < a.len() implies a[i] is Some && (#[trigger] t[i]) is Some && t_same(*a[i]->0, *t[i]->0) by { assert(a[i] is Some); }
    lemma_t_link(b4, s);
    lemma_t_index(b4, s);
    lemma_t_other(a, q, el.data@[n], t);
    if t_fine(s_elems(b4)) && t_refs(el, key as int) { assert(t_refs_under(el, key as int)); lemma_t_fine_pushed(b4, q, el.data@[n], s); }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Some && t[i]->0.key == Some(i as ElementKey) by { assert(a[i] is Some); }
    assert forall|id: Seq<char>| #[trigger] s_lookup(s.elementstore.index@, id) is Some implies s_lookup(m0.elementstore.index@, id) is Some || t_count_in(el, (n + 1) as nat, id) >= 1 by { assert(t_count_in(el, (n + 1) as nat, id) == t_count_in(el, n as nat, id)); assert(s_lookup(b4.elementstore.index@, id) is Some); }
    assert forall|i: int| #[trigger] t_free(el, i) && 0 <= i <= key implies #[trigger] t_parent(s_elems(s), i) == t_parent(s_elems(m0), i) by { assert(t_parent(s_elems(b4), i) == t_parent(s_elems(m0), i)); }
    if t_bound(el, 0) {
        assert forall|j: int| 0 <= j < n + 1 implies t_kid(s, q, #[trigger] el.data@[j], t_data(t, q)[j]) by {
            if j < n {
                assert(t_kid(b4, q, el.data@[j], t_data(a, q)[j]));
                if let DataType::AddElement(e2) = el.data@[j] { if let DataType::Element(x) = t_data(a, q)[j] { lemma_t_born(b4, s, x as int, x as int, Some(key), e2); } }
            }
        }
    }
}
pub proof fn lemma_t_start(d: Document, el: ElementData, context: Option<ElementKey>, m0: Document, key: ElementKey)
    requires t_alone(d, el, context, m0, key)
    ensures t_step(m0, el, 0, key, m0), t_grown(m0, m0)
{
    reveal(t_step);
    assert forall|i: int| 0 <= i < s_elems(m0).len() implies s_elems(m0)[i] is Some && t_same(*s_elems(m0)[i]->0, *(#[trigger] s_elems(m0)[i])->0) by {}
    assert(s_decs_grown(m0, m0));
}
pub proof fn lemma_t_done(d: Document, el: ElementData, context: Option<ElementKey>, m0: Document, key: ElementKey, s: Document)
    requires t_alone(d, el, context, m0, key), t_new_ids(d, el), t_bound(el, key as int), t_grown(m0, s), t_step(m0, el, el.data@.len() as int, key, s)
    ensures t_added(d, el, s), s_elems(s).len() == key + t_size(el), t_parent(s_elems(s), key as int) is None, t_bound(el, 0) ==> t_born(s, key as int, context, el)
{
    lemma_t_partial(d, el, context, m0, el.data@.len() as int, key, s);
    lemma_t_enc(m0, s, key as int, context, el);
    reveal(t_step);
    lemma_t_free(el, key as int, key as int);
    assert(t_parent(s_elems(s), key as int) == t_parent(s_elems(m0), key as int));
    if t_bound(el, 0) {
        let len = el.data@.len();
        assert forall|j: int| 0 <= j < len implies t_kid(s, key as int, #[trigger] el.data@[j], t_data(s_elems(s), key as int)[j]) by {}
    }
}
pub proof fn lemma_t_list(a: Seq<ElementKey>, b: Seq<ElementKey>, c: Seq<ElementKey>, k: ElementKey, lo: int, mid: int, hi: int)
    requires t_list(a, b, lo, mid), t_list(b, c, mid + 1, hi), k == mid, lo <= mid < hi
    ensures t_list(a, c.push(k), lo, hi)
{
    let e = c.push(k);
    assert forall|i: int| lo <= i < hi implies #[trigger] t_listed(e, a.len() as int, i) by {
        if i < mid { assert(t_listed(b, a.len() as int, i)); let j = choose|j: int| a.len() <= j < b.len() && #[trigger] b[j] == i; assert(e[j] == b[j]); }
        else if i == mid { assert(e[c.len() as int] == i); }
        else { assert(t_listed(c, b.len() as int, i)); let j = choose|j: int| b.len() <= j < c.len() && #[trigger] c[j] == i; assert(e[j] == c[j]); }
    }
    assert forall|j: int| a.len() <= j < e.len() implies lo <= #[trigger] e[j] < hi by { if j < b.len() { assert(e[j] == b[j]); } else if j < c.len() { assert(e[j] == c[j]); } }
    assert(a.is_prefix_of(e)) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == e[i] by { assert(a[i] == b[i]); assert(b[i] == c[i]); } assert(a =~= e.subrange(0, a.len() as int)); }
}
//# end-if
//# if prove
pub open spec fn t_put(d: Document, el: ElementData, context: Option<ElementKey>, m: Document, r: Result<ElementKey, FoliaError>) -> bool {
    t_inv(m) && s_decs_inv(m) && t_added(d, el, m) && match r { Ok(k) => t_alone(d, el, context, m, k), Err(_) => true }
}
pub proof fn lemma_t_put(d: Document, el: ElementData, g: ElementData, context: Option<ElementKey>, mid: Document, enc: Result<ElementData, FoliaError>, m: Document, r: Result<ElementKey, FoliaError>)
    requires t_inv(d), s_decs_inv(d), s_same_but_data(el, g), g.data@.len() == 0, t_plain(el), t_new_ids(d, el),
        s_encode_el(d, g, context, mid, enc), s_but_elems(m) == s_but_elems(mid), mid.elementstore.items@ == d.elementstore.items@, mid.elementstore.index@ == d.elementstore.index@,
        match enc { Ok(x) => x.s_id() == g.s_id() && s_add::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@, x, m.elementstore.items@, m.elementstore.index@, r), Err(_) => r is Err && m == mid }
    ensures t_put(d, el, context, m, r)
{
    if let Some(id) = s_el_id(el) { assert(t_count(el, id) >= 1); }
    assert(s_lookup_free(d, el));
    lemma_t_new(d, el, g, context, mid, enc, m, r);
    assert forall|id: Seq<char>| #[trigger] s_lookup(m.elementstore.index@, id) is Some implies s_lookup(d.elementstore.index@, id) is Some || t_count(el, id) == 1 by { assert(t_count(el, id) <= 1); }
    assert forall|i: int| #[trigger] t_free(el, i) && 0 <= i < s_elems(d).len() implies #[trigger] t_parent(s_elems(m), i) == t_parent(s_elems(d), i) by { assert(s_elems(m)[i] == s_elems(d)[i]); }
}
pub proof fn lemma_t_add(d: Document, el: ElementData, context: Option<ElementKey>)
    requires t_inv(d), s_decs_inv(d), t_plain(el), t_new_ids(d, el)
    ensures
        forall|g: ElementData, m: Document, r: Result<ElementKey, FoliaError>| s_same_but_data(el, g) && g.data@.len() == 0 && !s_any_encodable(g.attribs@) && s_but_elems(m) == s_but_elems(d)
            && #[trigger] s_add::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@, g, m.elementstore.items@, m.elementstore.index@, r) ==> t_put(d, el, context, m, r),
        forall|g: ElementData, mid: Document, x: ElementData, m: Document, r: Result<ElementKey, FoliaError>| s_same_but_data(el, g) && g.data@.len() == 0 && #[trigger] s_encode_el(d, g, context, mid, Ok(x)) && s_but_elems(m) == s_but_elems(mid) && x.s_id() == g.s_id()
            && mid.elementstore.items@ == d.elementstore.items@ && mid.elementstore.index@ == d.elementstore.index@
            && #[trigger] s_add::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@, x, m.elementstore.items@, m.elementstore.index@, r) ==> t_put(d, el, context, m, r),
        forall|g: ElementData, mid: Document, err: FoliaError, r: Result<ElementKey, FoliaError>| s_same_but_data(el, g) && g.data@.len() == 0 && #[trigger] s_encode_el(d, g, context, mid, Err(err)) && r is Err
            && mid.elementstore.items@ == d.elementstore.items@ && mid.elementstore.index@ == d.elementstore.index@ ==> #[trigger] t_put(d, el, context, mid, r),
{
    assert forall|g: ElementData, m: Document, r: Result<ElementKey, FoliaError>| s_same_but_data(el, g) && g.data@.len() == 0 && !s_any_encodable(g.attribs@) && s_but_elems(m) == s_but_elems(d)
            && #[trigger] s_add::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@, g, m.elementstore.items@, m.elementstore.index@, r) implies t_put(d, el, context, m, r) by { lemma_t_put(d, el, g, context, d, Ok(g), m, r); }
    assert forall|g: ElementData, mid: Document, x: ElementData, m: Document, r: Result<ElementKey, FoliaError>| s_same_but_data(el, g) && g.data@.len() == 0 && #[trigger] s_encode_el(d, g, context, mid, Ok(x)) && s_but_elems(m) == s_but_elems(mid) && x.s_id() == g.s_id()
            && mid.elementstore.items@ == d.elementstore.items@ && mid.elementstore.index@ == d.elementstore.index@
            && #[trigger] s_add::<ElementData, ElementKey>(d.elementstore.items@, d.elementstore.index@, x, m.elementstore.items@, m.elementstore.index@, r) implies t_put(d, el, context, m, r) by { lemma_t_put(d, el, g, context, mid, Ok(x), m, r); }
    assert forall|g: ElementData, mid: Document, err: FoliaError, r: Result<ElementKey, FoliaError>| s_same_but_data(el, g) && g.data@.len() == 0 && #[trigger] s_encode_el(d, g, context, mid, Err(err)) && r is Err
            && mid.elementstore.items@ == d.elementstore.items@ && mid.elementstore.index@ == d.elementstore.index@ implies #[trigger] t_put(d, el, context, mid, r) by { lemma_t_put(d, el, g, context, mid, Err(err), mid, r); }
}
//# end-if
impl Document {
//# fn src/document.rs Document::add_with_children
//# ret r
//# spec
    requires t_inv(*old(self)), s_decs_inv(*old(self)), t_given(element), t_bound(element, s_elems(*old(self)).len() as int), t_new_ids(*old(self), element)
    ensures t_inv(*final(self)), s_decs_inv(*final(self)), t_added(*old(self), element, *final(self)),
        match r {
            Ok(k) => k == s_elems(*old(self)).len() && k < s_elems(*final(self)).len() && t_parent(s_elems(*final(self)), k as int) is None
                && s_elems(*final(self)).len() == k + t_size(element) && t_list(old(added_elements)@, final(added_elements)@, k + 1, s_elems(*final(self)).len() as int)
                && (t_bound(element, 0) ==> t_born(*final(self), k as int, context, element)),
            Err(_) => true
        }
    decreases element
//# ghost start
    let ghost d = *self;
    let ghost el = element;
    let ghost len = s_elems(d).len() as int;
    let ghost list = added_elements@;
    proof { lemma_key_laws(); assert(t_plain(el)); assert(t_count(el, s_el_id(el)->0) >= 0); assert(s_lookup_free(d, el));
        lemma_t_add(d, el, context);
    }
//# ghost let key after
    let ghost m0 = *self;
    proof { lemma_t_start(d, el, context, m0, key); }
//# loop 1 it
    invariant t_inv(*self), s_decs_inv(*self), t_grown(m0, *self), t_alone(d, el, context, m0, key),
        t_step(m0, el, it.index(), key, *self), t_list(list, added_elements@, len + 1, s_elems(*self).len() as int),
//# ghost loop 1 start
    let ghost n = it.index();
    let ghost b4 = *self;
    let ghost list4 = added_elements@;
    let ghost mut m1 = *self;
    let ghost mut k1 = key;
    let ghost mut list1 = added_elements@;
    proof { assert(child == el.data@[n]); lemma_t_before(d, el, context, m0, n, key, b4); }
//# ghost let child_key after
    proof { m1 = *self; k1 = child_key; list1 = added_elements@; lemma_t_above_parent(s_elems(m1), key as int, child_key as int); }
//# ghost loop 1 end
    proof {
        match el.data@[n] {
            DataType::AddElement(c) => { lemma_t_child(m0, el, n, key, b4, m1, k1, *self); lemma_t_list(list, list4, list1, k1, len + 1, k1 as int, s_elems(*self).len() as int); },
            DataType::Element(x) => { lemma_t_old(m0, el, n, key, b4, x, *self); },
            y => { lemma_t_pushed(m0, el, n, key, b4, *s_elems(*self)[key as int]->0, *self); }
        }
        lemma_t_grown(m0, b4, *self);
    }
//# ghost loop 1 after
    proof { lemma_t_done(d, el, context, m0, key, *self); }
//# endfn
}
