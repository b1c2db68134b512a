//# include procs_spec.inc
pub proof fn lemma_procs_len(d: Document)
    requires s_procs_inv(d)
    ensures s_procs(d).len() <= 0x10000
{
    lemma_key_laws();
    if s_procs(d).len() > 0x10000 { let i = 0x10000int; assert(s_procs(d)[i] is Some); let id = s_procs(d)[i]->0.s_id(); assert(id is Some); let k = d.provenancestore.index@[string_of(id->0)]; assert(s_idx(k) == k); }
}
//# if prove
pub proof fn lemma_without(s: Seq<ProcKey>, k: ProcKey)
    ensures forall|x: ProcKey| #[trigger] p_without(s, k).contains(x) <==> s.contains(x) && x != k, s.no_duplicates() ==> p_without(s, k).no_duplicates(), !s.contains(k) ==> p_without(s, k) == s
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_without(d, k);
        assert(s =~= d.push(s.last()));
        assert forall|x: ProcKey| #[trigger] p_without(s, k).contains(x) <==> s.contains(x) && x != k by {
            let w = p_without(d, k);
            assert(s.contains(x) <==> d.contains(x) || x == s.last()) by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } } if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } assert(s[s.len() - 1] == s.last()); }
            if s.last() != k { let n = w.push(s.last()); assert(n.contains(x) <==> w.contains(x) || x == s.last()) by { if n.contains(x) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x; if i < w.len() { assert(w[i] == x); } } if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(n[i] == x); } assert(n[w.len() as int] == s.last()); } }
        }
        if s.no_duplicates() {
            assert(d.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(s[i] != s[j]); } }
            if s.last() != k { let w = p_without(d, k); let n = w.push(s.last()); assert(!d.contains(s.last())) by { if d.contains(s.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s.last(); assert(s[i] != s[s.len() - 1]); } }
                assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if i < w.len() { assert(w.contains(w[i])); } if j < w.len() { assert(w.contains(w[j])); } } }
        }
        if !s.contains(k) { assert(s.last() != k) by { assert(s[s.len() - 1] == s.last()); } assert(!d.contains(k)) by { if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(s[i] == k); } } }
    }
}
pub proof fn lemma_plus(s: Seq<ProcKey>, k: ProcKey)
    ensures forall|x: ProcKey| #[trigger] s_plus(s, Some(k)).contains(x) <==> s.contains(x) || x == k, s.no_duplicates() ==> s_plus(s, Some(k)).no_duplicates()
{
    let n = s.push(k);
    assert forall|x: ProcKey| #[trigger] n.contains(x) <==> s.contains(x) || x == k by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(n[i] == x); } assert(n[s.len() as int] == k); if n.contains(x) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x; if i < s.len() { assert(s[i] == x); } } }
    if s.no_duplicates() && !s.contains(k) { assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if i < s.len() { assert(s.contains(s[i])); } if j < s.len() { assert(s.contains(s[j])); } } }
}
// more steps reach no less
pub proof fn lemma_reach_more(s: Seq<Option<Box<Processor>>>, i: int, a: int, f: nat, g: nat)
    requires p_reach(s, i, a, f), f <= g
    ensures p_reach(s, i, a, g)
    decreases f
{
    if i != a { lemma_reach_more(s, p_parent(s, i)->0, a, (f - 1) as nat, (g - 1) as nat); }
}
// the parent of what is above is above
pub proof fn lemma_reach_step(s: Seq<Option<Box<Processor>>>, i: int, a: int, f: nat)
    requires p_reach(s, i, a, f), p_parent(s, a) is Some
    ensures p_reach(s, i, p_parent(s, a)->0, f + 1)
    decreases f
{
    if i != a { lemma_reach_step(s, p_parent(s, i)->0, a, (f - 1) as nat); } else { assert(p_reach(s, p_parent(s, a)->0, p_parent(s, a)->0, f)); }
}
pub proof fn lemma_above_step(s: Seq<Option<Box<Processor>>>, i: int, a: int)
    requires p_above(s, i, a), p_parent(s, a) is Some
    ensures p_above(s, i, p_parent(s, a)->0)
{
    let f = choose|f: nat| p_reach(s, i, a, f);
    lemma_reach_step(s, i, a, f);
}
// above i is i itself, and what is above its parent
pub proof fn lemma_above_parent(s: Seq<Option<Box<Processor>>>, i: int, a: int)
    ensures p_above(s, i, a) <==> i == a || match p_parent(s, i) { Some(p) => p_above(s, p, a), None => false }
{
    if p_above(s, i, a) { let f = choose|f: nat| p_reach(s, i, a, f); if i != a { assert(p_reach(s, p_parent(s, i)->0, a, (f - 1) as nat)); } }
    if i == a { assert(p_reach(s, i, a, 0)); }
    match p_parent(s, i) { Some(p) => if p_above(s, p, a) { let f = choose|f: nat| p_reach(s, p, a, f); assert(p_reach(s, i, a, f + 1)); }, None => {} }
}
// what is above i is the same in both
pub proof fn lemma_up(s: Seq<Option<Box<Processor>>>, t: Seq<Option<Box<Processor>>>, i: int)
    requires p_up(s, t, i)
    ensures forall|a: int| #[trigger] p_above(t, i, a) <==> p_above(s, i, a)
{
    assert forall|a: int| #[trigger] p_above(t, i, a) <==> p_above(s, i, a) by {
        if p_above(t, i, a) { let f = choose|f: nat| p_reach(t, i, a, f); assert(p_above(s, i, i)) by { assert(p_reach(s, i, i, 0)); } lemma_up_reach(s, t, i, i, a, f); lemma_above_trans(s, i, i, a); }
        if p_above(s, i, a) { let f = choose|f: nat| p_reach(s, i, a, f); assert(p_above(s, i, i)) by { assert(p_reach(s, i, i, 0)); } lemma_up_reach2(s, t, i, i, a, f); }
    }
}
pub proof fn lemma_above_trans(s: Seq<Option<Box<Processor>>>, i: int, b: int, a: int)
    requires p_above(s, i, b), p_above(s, b, a)
    ensures p_above(s, i, a)
{
    let f = choose|f: nat| p_reach(s, i, b, f);
    lemma_above_trans_f(s, i, b, a, f);
}
pub proof fn lemma_above_trans_f(s: Seq<Option<Box<Processor>>>, i: int, b: int, a: int, f: nat)
    requires p_reach(s, i, b, f), p_above(s, b, a)
    ensures p_above(s, i, a)
    decreases f
{
    if i != b { let p = p_parent(s, i)->0; lemma_above_trans_f(s, p, b, a, (f - 1) as nat); lemma_above_parent(s, i, a); }
}
pub proof fn lemma_up_reach(s: Seq<Option<Box<Processor>>>, t: Seq<Option<Box<Processor>>>, i: int, b: int, a: int, f: nat)
    requires p_up(s, t, i), p_above(s, i, b), p_reach(t, b, a, f)
    ensures p_above(s, b, a)
    decreases f
{
    if b == a { assert(p_reach(s, b, a, 0)); }
    else { assert(p_parent(t, b) == p_parent(s, b)); let p = p_parent(s, b)->0; lemma_above_step(s, i, b); lemma_up_reach(s, t, i, p, a, (f - 1) as nat); lemma_above_parent(s, b, a); }
}
pub proof fn lemma_up_reach2(s: Seq<Option<Box<Processor>>>, t: Seq<Option<Box<Processor>>>, i: int, b: int, a: int, f: nat)
    requires p_up(s, t, i), p_above(s, i, b), p_reach(s, b, a, f)
    ensures p_above(t, b, a)
    decreases f
{
    if b == a { assert(p_reach(t, b, a, 0)); }
    else { assert(p_parent(t, b) == p_parent(s, b)); let p = p_parent(s, b)->0; lemma_above_step(s, i, b); lemma_up_reach2(s, t, i, p, a, (f - 1) as nat); lemma_above_parent(t, b, a); }
}
pub proof fn lemma_up_trans(s: Seq<Option<Box<Processor>>>, t: Seq<Option<Box<Processor>>>, u: Seq<Option<Box<Processor>>>, i: int)
    requires p_up(s, t, i), p_up(t, u, i)
    ensures p_up(s, u, i)
{
    lemma_up(s, t, i);
    assert forall|a: int| #[trigger] p_above(s, i, a) implies p_parent(u, a) == p_parent(s, a) by { assert(p_above(t, i, a)); }
}
// C13: no processor is below itself
pub proof fn c13_acyclic(s: Seq<Option<Box<Processor>>>, i: int)
    requires p_tree(s), 0 <= i < s.len()
    ensures match p_parent(s, i) { Some(p) => !p_above(s, p, i), None => true }
{
    let rank = choose|rank: spec_fn(int) -> nat| p_rank(s, rank);
    if let Some(p) = p_parent(s, i) { if p_above(s, p, i) { let f = choose|f: nat| p_reach(s, p, i, f); lemma_rank_reach(s, rank, p, i, f); } }
}
pub proof fn lemma_rank_reach(s: Seq<Option<Box<Processor>>>, rank: spec_fn(int) -> nat, i: int, a: int, f: nat)
    requires p_tree(s), p_rank(s, rank), p_reach(s, i, a, f), 0 <= i < s.len()
    ensures rank(a) <= rank(i), 0 <= a < s.len()
    decreases f
{
    if i != a { lemma_rank_reach(s, rank, p_parent(s, i)->0, a, (f - 1) as nat); }
}
// C13: every processor is in one list of subprocessors, that of its parent
pub proof fn c13_once(s: Seq<Option<Box<Processor>>>, i: int, k: ProcKey)
    requires p_tree(s), 0 <= i < s.len(), p_kids(s, i).contains(k)
    ensures p_parent(s, k as int) == Some(i), forall|j: int| 0 <= j < s.len() && j != i ==> !(#[trigger] p_kids(s, j)).contains(k)
{
    let n = choose|n: int| 0 <= n < p_kids(s, i).len() && p_kids(s, i)[n] == k;
    assert(p_parent(s, p_kids(s, i)[n] as int) == Some(i));
    assert forall|j: int| 0 <= j < s.len() && j != i implies !(#[trigger] p_kids(s, j)).contains(k) by {
        if p_kids(s, j).contains(k) { let m = choose|m: int| 0 <= m < p_kids(s, j).len() && p_kids(s, j)[m] == k; assert(p_parent(s, p_kids(s, j)[m] as int) == Some(j)); }
    }
}
// attaching keeps the tree
pub proof fn lemma_attach(s: Seq<Option<Box<Processor>>>, parent: int, child: int, t: Seq<Option<Box<Processor>>>)
    requires p_tree(s), s.len() <= 0x10000, 0 <= parent < s.len(), 0 <= child < s.len(), p_attached(s, parent, child, t), !p_above(s, parent, child)
    ensures p_tree(t), p_up(s, t, parent)
{
    let rank = choose|rank: spec_fn(int) -> nat| p_rank(s, rank);
    let c = child as ProcKey;
    assert(parent != child) by { if parent == child { assert(p_reach(s, parent, child, 0)); } }
    // s.len() > 0x10000 aside, keys and positions are the same
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] p_parent(t, i) { Some(p) => 0 <= p < t.len() && p_kids(t, p).contains(i as ProcKey), None => true } by {
        assert(p_parent(t, i) == (if i == child { Some(parent) } else { p_parent(s, i) }));
        lemma_plus(p_kids(s, parent), c);
        if i == child { assert(p_kids(t, parent).contains(c)); }
        else if let Some(p) = p_parent(s, i) { assert(p_kids(s, p).contains(i as ProcKey)); lemma_without(p_kids(s, p), c); lemma_plus(p_kids(s, p), c); assert(p_kids(t, p).contains(i as ProcKey)); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < p_kids(t, i).len() implies (#[trigger] p_kids(t, i)[j]) < t.len() && p_parent(t, p_kids(t, i)[j] as int) == Some(i) by {
        let k = p_kids(t, i)[j];
        assert(p_kids(t, i).contains(k));
        lemma_without(p_kids(s, i), c); lemma_plus(p_kids(s, i), c);
        if k == c && i == parent { assert(p_parent(t, child) == Some(parent)); }
        else {
            assert(p_kids(s, i).contains(k));
            let n = choose|n: int| 0 <= n < p_kids(s, i).len() && p_kids(s, i)[n] == k;
            assert(p_parent(s, p_kids(s, i)[n] as int) == Some(i));
            assert(k != c);
            assert(p_parent(t, k as int) == p_parent(s, k as int));
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] p_kids(t, i)).no_duplicates() by { lemma_without(p_kids(s, i), c); lemma_plus(p_kids(s, i), c); assert(p_kids(s, i).no_duplicates()); }
    let r2 = |i: int| -> nat { if p_above(s, i, child) { rank(i) + rank(parent) + 1 } else { rank(i) } };
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] p_parent(t, i) { Some(p) => r2(p) < r2(i), None => true } by {
        assert(p_parent(t, i) == (if i == child { Some(parent) } else { p_parent(s, i) }));
        lemma_above_parent(s, i, child);
        if i == child { } else if let Some(p) = p_parent(s, i) { assert(rank(p) < rank(i)); }
    }
    assert(p_rank(t, r2));
    assert forall|a: int| #[trigger] p_above(s, parent, a) implies p_parent(t, a) == p_parent(s, a) by {
        let f = choose|f: nat| p_reach(s, parent, a, f); lemma_rank_reach(s, rank, parent, a, f); assert(a != child);
    }
}
// adding a processor without relations keeps the tree
pub proof fn lemma_added(s: Seq<Option<Box<Processor>>>, x: Processor)
    requires p_tree(s), x.parent is None, x.processors@.len() == 0
    ensures p_tree(s.push(Some(Box::new(x)))), forall|i: int| p_up(s, s.push(Some(Box::new(x))), i)
{
    let t = s.push(Some(Box::new(x)));
    let rank = choose|rank: spec_fn(int) -> nat| p_rank(s, rank);
    assert(p_parent(t, s.len() as int) is None);
    assert(p_kids(t, s.len() as int).len() == 0);
    assert forall|i: int| 0 <= i < s.len() implies p_parent(t, i) == p_parent(s, i) && p_kids(t, i) == p_kids(s, i) by {}
    assert forall|i: int| 0 <= i < t.len() implies match #[trigger] p_parent(t, i) { Some(p) => 0 <= p < t.len() && p_kids(t, p).contains(i as ProcKey) && rank(p) < rank(i), None => true } by { if i < s.len() { assert(p_parent(s, i) == p_parent(t, i)); } }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < p_kids(t, i).len() implies (#[trigger] p_kids(t, i)[j]) < t.len() && p_parent(t, p_kids(t, i)[j] as int) == Some(i) by { if i < s.len() { assert(p_kids(s, i)[j] == p_kids(t, i)[j]); } }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] p_kids(t, i)).no_duplicates() by { if i < s.len() { assert(p_kids(s, i) == p_kids(t, i)); } }
    assert(p_rank(t, rank));
}
pub proof fn lemma_olds_none(d: Document, k: ProcKey, keys: Seq<ProcKey>)
    ensures p_olds(d, k, keys.take(0), d)
{ reveal_with_fuel(p_olds, 2); }
pub proof fn lemma_olds_step(d: Document, k: ProcKey, keys: Seq<ProcKey>, i: int, m: Document, e: Document)
    requires 0 <= i < keys.len(), p_olds(d, k, keys.take(i), m), p_attached(s_procs(m), k as int, keys[i] as int, s_procs(e)), m.provenancestore.index@ == e.provenancestore.index@
    ensures p_olds(d, k, keys.take(i + 1), e)
{
    reveal_with_fuel(p_olds, 2);
    let t = keys.take(i + 1);
    assert(t.drop_last() =~= keys.take(i)); assert(t.last() == keys[i]);
    assert(p_via(m));
}
pub proof fn lemma_news_none(p: Processor, d: Document, k: ProcKey)
    ensures p_news(p, d, k, 0, d)
{ reveal_with_fuel(p_news, 2); }
pub proof fn lemma_news_step(p: Processor, d: Document, k: ProcKey, n: nat, m: Document, e: Document)
    requires p_news(p, d, k, n, m), n < p.pending_processors@.len(), p_exact(m, k, p.pending_processors@[n as int], e)
    ensures p_news(p, d, k, n + 1, e)
{
    reveal_with_fuel(p_news, 2); reveal_with_fuel(p_exact, 2);
    assert(p_via(m));
}
pub proof fn lemma_exact(d: Document, parent: ProcKey, p: Processor, m1: Document, k: ProcKey, m2: Document, m3: Document, e: Document)
    requires p_step(d, p, m1, k), p_attached(s_procs(m1), parent as int, k as int, s_procs(m2)), m1.provenancestore.index@ == m2.provenancestore.index@, p_olds(m2, k, p.processors@, m3), p_news(p, m3, k, p.pending_processors@.len(), e)
    ensures p_exact(d, parent, p, e)
{ reveal_with_fuel(p_exact, 2); reveal_with_fuel(p_news, 2); assert(p_via(m2) && p_via(m3)); }
pub proof fn lemma_exact_top(d: Document, p: Processor, m1: Document, k: ProcKey, m2: Document, m3: Document, e: Document)
    requires p_step(d, p, m1, k), p_state(m1, m2), p_olds(m2, k, p.processors@, m3), p_news(p, m3, k, p.pending_processors@.len(), e)
    ensures p_exact_top(d, p, k, e)
{ reveal(p_exact_top); }
//# end-if
impl Document {
//# fn src/document.rs Document::attach_processor
//# ret r
//# spec
    requires p_inv(*old(self))
    ensures p_inv(*final(self)), s_but_procs(*final(self)) == s_but_procs(*old(self)), final(self).provenancestore.index@ == old(self).provenancestore.index@,
        r is Ok <==> parent_key < s_procs(*old(self)).len() && child_key < s_procs(*old(self)).len() && !p_above(s_procs(*old(self)), parent_key as int, child_key as int),
        r is Ok ==> p_attached(s_procs(*old(self)), parent_key as int, child_key as int, s_procs(*final(self))),
        r is Err ==> s_procs(*final(self)) == s_procs(*old(self)),
//# closure 1 |processor: &Processor| -> (o: Option<ProcKey>) ensures o == processor.parent
//# closure 2 |key: &ProcKey| -> (b: bool) ensures b == (*key != child_key)
//# ghost start
    proof { lemma_key_laws(); lemma_procs_len(*self); }
    let ghost s = s_procs(*self);
    let ghost rank = choose|rank: spec_fn(int) -> nat| p_rank(s, rank);
    proof { assert(p_reach(s, parent_key as int, parent_key as int, 0)); }
//# loop 1
    invariant *self == *old(self), s == s_procs(*old(self)), p_rank(s, rank), p_tree(s), parent_key < s.len(),
        match ancestor_key { Some(k) => k < s.len() && p_above(s, parent_key as int, k as int), None => true },
        p_above(s, parent_key as int, child_key as int) ==> ancestor_key is Some && p_above(s, ancestor_key->0 as int, child_key as int),
    decreases match ancestor_key { Some(k) => rank(k as int) + 1, None => 0 }
//# ghost loop 1 end
    proof {
        assert(s[key as int] is Some);
        assert(p_parent(s, key as int) == (match ancestor_key { Some(k) => Some(k as int), None => None }));
        if p_parent(s, key as int) is Some { lemma_above_step(s, parent_key as int, key as int); }
        lemma_above_parent(s, key as int, child_key as int);
    }
//# ghost tail
    proof {
        let t = s_procs(*self);
        let o = p_parent(s, child_key as int);
        assert(child_key < s.len() && !p_above(s, parent_key as int, child_key as int));
        assert(t.len() == s.len());
        assert forall|i: int| 0 <= i < s.len() implies s[i] is Some && (#[trigger] t[i]) is Some && t[i]->0.key == s[i]->0.key && p_same(*s[i]->0, *t[i]->0) by { assert(s[i] is Some); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] p_parent(t, i) == (if i == child_key { Some(parent_key as int) } else { p_parent(s, i) }) by { assert(s[i] is Some); assert(t[i] is Some); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] p_kids(t, i) == (if i == parent_key { s_plus(p_kids(s, i), Some(child_key)) } else if o == Some(i) { p_without(p_kids(s, i), child_key) } else { p_kids(s, i) }) by {
            assert(s[i] is Some); assert(t[i] is Some); let w = p_without(p_kids(s, i), child_key);
        }
        assert(p_attached(s, parent_key as int, child_key as int, t));
        lemma_attach(s, parent_key as int, child_key as int, t);
    }
//# endfn
//# fn src/document.rs Document::add_subprocessor
//# ret r
//# spec
    requires p_inv(*old(self)), p_fresh(processor)
    ensures p_inv(*final(self)), p_grown(*old(self), *final(self)), p_up(s_procs(*old(self)), s_procs(*final(self)), parent_key as int),
        match r { Ok(k) => p_result(*old(self), processor, *final(self), k) && parent_key < s_procs(*final(self)).len() && p_parent(s_procs(*final(self)), k as int) == Some(parent_key as int), Err(_) => true },
        r is Ok ==> p_exact(*old(self), parent_key, processor, *final(self)),
    decreases processor
//# replace /processor.pending_processors.replace(vec!())/ => /std::mem::replace(&mut processor.pending_processors, vec!())/
//# ghost start
    let ghost d = *self;
    let ghost given = processor;
    proof { lemma_key_laws(); lemma_procs_len(*self); }
//# ghost let child_key after
    let ghost m1 = *self;
    proof { lemma_add_processor(d, given, processor, m1, child_key); }
//# ghost call attach_processor 1 after
    let ghost mid = *self;
    proof { lemma_mid(d, m1, mid, parent_key as int, child_key as int); lemma_olds_none(mid, child_key, given.processors@); }
//# loop 1 it
    invariant p_inv(*self), p_grown(mid, *self), p_up(s_procs(mid), s_procs(*self), child_key as int),
        p_olds(mid, child_key, existing_subprocessors@.take(it.index()), *self),
//# ghost loop 1 start
    let ghost b4 = *self;
    proof { lemma_chain(mid, b4, child_key as int); }
//# ghost loop 1 end
    proof {
        lemma_key_laws(); assert(p_grown(b4, *self)); assert(p_up(s_procs(b4), s_procs(*self), child_key as int));
        lemma_olds_step(mid, child_key, existing_subprocessors@, it.index(), b4, *self);
    }
//# ghost loop 2 before
    let ghost m3 = *self;
    proof { assert(existing_subprocessors@.take(existing_subprocessors@.len() as int) =~= existing_subprocessors@); assert(p_olds(mid, child_key, given.processors@, m3)); lemma_news_none(given, m3, child_key); }
//# loop 2 it
    invariant p_inv(*self), p_grown(mid, *self), p_up(s_procs(mid), s_procs(*self), child_key as int),
        p_news(given, m3, child_key, it.index() as nat, *self),
//# ghost loop 2 start
    let ghost b4 = *self;
    proof { lemma_chain(mid, b4, child_key as int); assert(subprocessor == given.pending_processors@[it.index()]); }
//# ghost loop 2 end
    proof { assert(p_grown(b4, *self)); assert(p_up(s_procs(b4), s_procs(*self), child_key as int)); lemma_news_step(given, m3, child_key, it.index() as nat, b4, *self); }
//# ghost loop 2 after
    proof { lemma_exact(d, parent_key, given, m1, child_key, mid, m3, *self); }
//# endfn
//# fn src/document.rs Document::add_processor
//# ret r
//# spec
    requires p_inv(*old(self)), p_fresh(processor)
    ensures p_inv(*final(self)), p_grown(Document { provenancestore: ProvenanceStore { chain: final(self).provenancestore.chain, ..old(self).provenancestore }, ..*old(self) }, *final(self)),
        match r { Ok(k) => p_result(*old(self), processor, *final(self), k) && final(self).provenancestore.chain@ == s_plus(old(self).provenancestore.chain@, Some(k))
                && p_parent(s_procs(*final(self)), k as int) == p_parent(s_procs(*old(self)), k as int), Err(_) => true },
        r is Ok ==> p_exact_top(*old(self), processor, r->Ok_0, *final(self)),
        old(self).provenancestore.chain@.is_prefix_of(final(self).provenancestore.chain@), final(self).provenancestore.chain@.len() <= old(self).provenancestore.chain@.len() + 1,
        old(self).provenancestore.chain@.no_duplicates() ==> final(self).provenancestore.chain@.no_duplicates(),
//# replace /processor.pending_processors.replace(vec!())/ => /std::mem::replace(&mut processor.pending_processors, vec!())/
//# ghost start
    let ghost d = *self;
    let ghost given = processor;
    proof { lemma_key_laws(); lemma_procs_len(*self); }
//# ghost let child_key after
    let ghost m1 = *self;
    proof { lemma_add_processor(d, given, processor, m1, child_key); }
//# ghost loop 1 before
    let ghost mid = *self;
    let ghost d2 = Document { provenancestore: ProvenanceStore { chain: mid.provenancestore.chain, ..d.provenancestore }, ..d };
    proof {
        lemma_olds_none(mid, child_key, given.processors@);
        lemma_plus(d.provenancestore.chain@, child_key);
        assert(mid.provenancestore.chain@ =~= s_plus(d.provenancestore.chain@, Some(child_key)));
        assert(p_kept(s_procs(d), s_procs(mid)));
        assert forall|id: Seq<char>| s_lookup(d2.provenancestore.index@, id) is Some implies #[trigger] s_lookup(mid.provenancestore.index@, id) == s_lookup(d2.provenancestore.index@, id) by { assert(s_lookup(m1.provenancestore.index@, id) == s_lookup(d.provenancestore.index@, id)); }
        assert(p_grown(d2, mid));
        assert forall|e: Document| #[trigger] p_grown(mid, e) implies p_grown(d2, e) by { lemma_grown(d2, mid, e); }
        assert(p_reach(s_procs(mid), child_key as int, child_key as int, 0)); assert(p_above(s_procs(mid), child_key as int, child_key as int));
    }
//# loop 1 it
    invariant p_inv(*self), p_grown(mid, *self), p_up(s_procs(mid), s_procs(*self), child_key as int), self.provenancestore.chain == mid.provenancestore.chain, 
        p_olds(mid, child_key, existing_subprocessors@.take(it.index()), *self),
//# ghost loop 1 start
    let ghost b4 = *self;
    proof { lemma_chain(mid, b4, child_key as int); }
//# ghost loop 1 end
    proof {
        lemma_key_laws(); assert(p_grown(b4, *self)); assert(p_up(s_procs(b4), s_procs(*self), child_key as int));
        lemma_olds_step(mid, child_key, existing_subprocessors@, it.index(), b4, *self);
    }
//# ghost loop 2 before
    let ghost m3 = *self;
    proof { assert(existing_subprocessors@.take(existing_subprocessors@.len() as int) =~= existing_subprocessors@); assert(p_olds(mid, child_key, given.processors@, m3)); lemma_news_none(given, m3, child_key); }
//# loop 2 it
    invariant p_inv(*self), p_grown(mid, *self), p_up(s_procs(mid), s_procs(*self), child_key as int), self.provenancestore.chain == mid.provenancestore.chain, 
        p_news(given, m3, child_key, it.index() as nat, *self),
//# ghost loop 2 start
    let ghost b4 = *self;
    proof { lemma_chain(mid, b4, child_key as int); assert(subprocessor == given.pending_processors@[it.index()]); }
//# ghost loop 2 end
    proof { assert(p_grown(b4, *self)); assert(p_up(s_procs(b4), s_procs(*self), child_key as int)); lemma_news_step(given, m3, child_key, it.index() as nat, b4, *self); }
//# ghost loop 2 after
    proof { lemma_exact_top(d, given, m1, child_key, mid, m3, *self); }
//# endfn
}
//# if prove
pub proof fn lemma_grown(a: Document, b: Document, c: Document)
    requires p_grown(a, b), p_grown(b, c)
    ensures p_grown(a, c)
{
    assert forall|i: int| 0 <= i < s_procs(a).len() implies s_procs(a)[i] is Some && (#[trigger] s_procs(c)[i]) is Some && s_procs(c)[i]->0.key == s_procs(a)[i]->0.key && p_same(*s_procs(a)[i]->0, *s_procs(c)[i]->0) by { assert(s_procs(b)[i] is Some); }
    assert forall|id: Seq<char>| s_lookup(a.provenancestore.index@, id) is Some implies #[trigger] s_lookup(c.provenancestore.index@, id) == s_lookup(a.provenancestore.index@, id) by { assert(s_lookup(b.provenancestore.index@, id) == s_lookup(a.provenancestore.index@, id)); }
}
pub proof fn lemma_chain(mid: Document, b4: Document, k: int)
    requires p_grown(mid, b4), p_up(s_procs(mid), s_procs(b4), k)
    ensures forall|e: Document| #[trigger] p_grown(b4, e) ==> p_grown(mid, e), forall|t: Seq<Option<Box<Processor>>>| #[trigger] p_up(s_procs(b4), t, k) ==> p_up(s_procs(mid), t, k)
{
    assert forall|e: Document| #[trigger] p_grown(b4, e) implies p_grown(mid, e) by { lemma_grown(mid, b4, e); }
    assert forall|t: Seq<Option<Box<Processor>>>| #[trigger] p_up(s_procs(b4), t, k) implies p_up(s_procs(mid), t, k) by { lemma_up_trans(s_procs(mid), s_procs(b4), t, k); }
}
pub proof fn lemma_add_processor(d: Document, given: Processor, x: Processor, m: Document, r: Result<ProcKey, FoliaError>)
    requires p_inv(d), s_but_procs(m) == s_but_procs(d), p_same(given, x), x.parent is None, x.processors@.len() == 0, s_procs_inv(m),
        s_add::<Processor, ProcKey>(d.provenancestore.items@, d.provenancestore.index@, x, m.provenancestore.items@, m.provenancestore.index@, r)
    ensures p_inv(m), p_grown(d, m), forall|i: int| p_up(s_procs(d), s_procs(m), i), match r { Ok(k) => p_result(d, given, m, k) && p_step(d, given, m, k) && p_parent(s_procs(m), k as int) == p_parent(s_procs(d), k as int), Err(_) => true }
{
    reveal(p_step);
    lemma_key_laws(); lemma_procs_len(d);
    match s_lookup(d.provenancestore.index@, x.id@) {
        Some(k) => {}
        None => if let Ok(k) = r {
            let y = x.s_keyed(k);
            lemma_added(s_procs(d), y);
            assert(p_same(given, y) && s_procs(m) == s_procs(d).push(Some(Box::new(y))));
            assert forall|i: int| 0 <= i < s_procs(d).len() implies s_procs(d)[i] is Some by { assert(d.provenancestore.items@[i] is Some); }
        }
    }
    assert forall|i: int| 0 <= i < s_procs(d).len() implies s_procs(d)[i] is Some && (#[trigger] s_procs(m)[i]) is Some && s_procs(m)[i]->0.key == s_procs(d)[i]->0.key && p_same(*s_procs(d)[i]->0, *s_procs(m)[i]->0) by { assert(s_procs(d)[i] is Some); }
}
pub proof fn lemma_mid(d: Document, m1: Document, mid: Document, parent: int, k: int)
    requires p_inv(d), p_inv(m1), p_inv(mid), p_grown(d, m1), p_up(s_procs(d), s_procs(m1), parent), s_but_procs(mid) == s_but_procs(m1), mid.provenancestore.index@ == m1.provenancestore.index@,
        0 <= parent < s_procs(m1).len(), 0 <= k < s_procs(m1).len(), !p_above(s_procs(m1), parent, k), p_attached(s_procs(m1), parent, k, s_procs(mid)), s_procs(m1).len() <= 0x10000
    ensures p_grown(m1, mid), p_grown(d, mid), p_up(s_procs(d), s_procs(mid), parent), p_up(s_procs(mid), s_procs(mid), k), p_parent(s_procs(mid), k) == Some(parent),
        p_above(s_procs(mid), k, k),
        forall|e: Document| #[trigger] p_grown(mid, e) ==> p_grown(d, e),
        forall|t: Seq<Option<Box<Processor>>>| #[trigger] p_up(s_procs(mid), t, k) ==> p_up(s_procs(d), t, parent),
{
    assert(p_grown(m1, mid));
    lemma_grown(d, m1, mid);
    lemma_attach(s_procs(m1), parent, k, s_procs(mid));
    lemma_up_trans(s_procs(d), s_procs(m1), s_procs(mid), parent);
    assert(p_reach(s_procs(mid), k, k, 0));
    assert forall|e: Document| #[trigger] p_grown(mid, e) implies p_grown(d, e) by { lemma_grown(d, mid, e); }
    assert forall|t: Seq<Option<Box<Processor>>>| #[trigger] p_up(s_procs(mid), t, k) implies p_up(s_procs(d), t, parent) by {
        assert forall|a: int| #[trigger] p_above(s_procs(mid), parent, a) implies p_parent(t, a) == p_parent(s_procs(mid), a) by { lemma_above_parent(s_procs(mid), k, a); }
        assert(p_up(s_procs(mid), t, parent));
        lemma_up_trans(s_procs(d), s_procs(mid), t, parent);
    }
}
//# end-if
