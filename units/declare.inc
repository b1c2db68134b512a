//# include declare_spec.inc
//# if prove
// rule R1: E.iter().enumerate().filter_map(C).collect(), for a closure that maps to the index it was given or to nothing
pub fn vx_positions<T, F: Fn((usize, &T)) -> Option<usize>>(v: &Vec<T>, f: F) -> (r: Vec<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires(((i as usize, &v@[i]),)),
        forall|i: int, o: Option<usize>| 0 <= i < v@.len() && #[trigger] f.ensures(((i as usize, &v@[i]),), o) ==> o is None || o == Some(i as usize),
    ensures forall|k: int| 0 <= k < r@.len() ==> 0 <= (#[trigger] r@[k]) < v@.len() && f.ensures(((r@[k], &v@[r@[k] as int]),), Some(r@[k])),
        forall|k: int, l: int| 0 <= k < l < r@.len() ==> r@[k] < r@[l],
        forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> r@.contains(i as usize) || f.ensures(((i as usize, &v@[i]),), None::<usize>)
{
    let mut r: Vec<usize> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires(((i as usize, &v@[i]),)),
            forall|i: int, o: Option<usize>| 0 <= i < v@.len() && #[trigger] f.ensures(((i as usize, &v@[i]),), o) ==> o is None || o == Some(i as usize),
            forall|k: int| 0 <= k < r@.len() ==> 0 <= (#[trigger] r@[k]) < i && f.ensures(((r@[k], &v@[r@[k] as int]),), Some(r@[k])),
            forall|k: int, l: int| 0 <= k < l < r@.len() ==> r@[k] < r@[l],
            forall|j: int| 0 <= j < i ==> r@.contains(j as usize) || f.ensures(((j as usize, &v@[j]),), None::<usize>)
        decreases v@.len() - i
    {
        let ghost before = r@;
        if let Some(x) = f((i, &v[i])) { r.push(x); proof { assert(r@[before.len() as int] == i); assert(forall|j: usize| before.contains(j) ==> r@.contains(j)) by {
            assert forall|j: usize| before.contains(j) implies r@.contains(j) by { let k = choose|k: int| 0 <= k < before.len() && before[k] == j; assert(r@[k] == j); } } } }
        i += 1;
    }
    r
}
//# end-if
impl DeclarationStore {
//# fn src/metadata.rs DeclarationStore::get_default_key
//# ret r
//# spec
    requires self.items@.len() <= 0x10000
    ensures match s_default(self.items@, annotationtype) { Some(i) => r == Some(i as DecKey), None => r is None }
//# call 1 vx_positions iter_enumerate_filter_map_collect
//# closure 1 |vx_p: (usize, &Option<Box<Declaration>>)| -> (o: Option<usize>) ensures o == (if *vx_p.1 is Some && vx_p.1->0.annotationtype == annotationtype { Some(vx_p.0) } else { None::<usize> })
//# ghost let matches after
    proof { lemma_default(self.items@, annotationtype, matches@); }
//# endfn
}
// the positions listed are those of the declarations of that type
pub proof fn lemma_default(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType, m: Seq<usize>)
    requires decs.len() <= 0x10000, forall|k: int| 0 <= k < m.len() ==> 0 <= (#[trigger] m[k]) < decs.len() && decs[m[k] as int] is Some && decs[m[k] as int]->0.annotationtype == t,
        forall|k: int, l: int| 0 <= k < l < m.len() ==> m[k] < m[l],
        forall|i: int| #![trigger decs[i]] 0 <= i < decs.len() ==> m.contains(i as usize) || !(decs[i] is Some && decs[i]->0.annotationtype == t)
    ensures s_default(decs, t) == (if m.len() == 1 { Some(m[0] as int) } else { None::<int> })
{
    if m.len() == 1 { assert(s_only(decs, t, m[0] as int)); }
    else if exists|i: int| s_only(decs, t, i) {
        let i = choose|i: int| s_only(decs, t, i);
        assert(decs[i] is Some); assert(m.contains(i as usize)); assert(decs[m[0] as int] is Some && decs[m[1] as int] is Some); assert(m[0] < m[1]); assert(false);
    }
}
//# if prove
// how many of the first n declarations are of type t
pub open spec fn s_count(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { s_count(decs, t, n - 1) + if n <= decs.len() && decs[n - 1] is Some && decs[n - 1]->0.annotationtype == t { 1nat } else { 0 } } }
pub proof fn lemma_count(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType, n: int)
    requires 0 <= n <= decs.len()
    ensures s_count(decs, t, n) <= n, s_count(decs, t, n) == 0 <==> forall|i: int| 0 <= i < n && (#[trigger] decs[i]) is Some ==> decs[i]->0.annotationtype != t,
        s_count(decs, t, n) == 1 <==> exists|i: int| 0 <= i < n && s_only(decs.take(n), t, i)
    decreases n
{
    if n > 0 {
        let p: int = n - 1;
        lemma_count(decs, t, p);
        assert forall|i: int| 0 <= i < p && s_only(decs.take(p), t, i) implies decs[i] is Some && decs[i]->0.annotationtype == t by {}
        let last = decs[p] is Some && decs[p]->0.annotationtype == t;
        if s_count(decs, t, n) == 1 {
            if last {
                assert forall|j: int| 0 <= j < n && j != p && (#[trigger] decs.take(n)[j]) is Some implies decs.take(n)[j]->0.annotationtype != t by { assert(decs.take(n)[j] == decs[j]); }
                assert(s_only(decs.take(n), t, p));
            } else {
                let i = choose|i: int| 0 <= i < p && s_only(decs.take(p), t, i);
                assert forall|j: int| 0 <= j < n && j != i && (#[trigger] decs.take(n)[j]) is Some implies decs.take(n)[j]->0.annotationtype != t by { if j < p { assert(decs.take(p)[j] == decs[j]); assert(decs.take(n)[j] == decs[j]); } else { assert(decs.take(n)[j] == decs[p]); } }
                assert(decs.take(n)[i] == decs[i] && decs.take(p)[i] == decs[i]);
                assert(s_only(decs.take(n), t, i));
            }
        } else if exists|i: int| 0 <= i < n && s_only(decs.take(n), t, i) {
            let i = choose|i: int| 0 <= i < n && s_only(decs.take(n), t, i);
            assert(decs.take(n)[i] == decs[i]);
            if i == p {
                assert forall|j: int| 0 <= j < p && (#[trigger] decs[j]) is Some implies decs[j]->0.annotationtype != t by { assert(decs.take(n)[j] == decs[j]); }
            } else {
                assert(decs.take(n)[p] == decs[p]); assert(!last);
                assert forall|j: int| 0 <= j < p && j != i && (#[trigger] decs.take(p)[j]) is Some implies decs.take(p)[j]->0.annotationtype != t by { assert(decs.take(n)[j] == decs[j]); assert(decs.take(p)[j] == decs[j]); }
                assert(decs.take(p)[i] == decs[i]);
                assert(s_only(decs.take(p), t, i));
            }
            assert(false);
        }
    }
}
pub proof fn lemma_mask(decs: Seq<Option<Box<Declaration>>>, i: int)
    requires 0 <= i < decs.len(), decs[i] is Some
    ensures s_default(decs, decs[i]->0.annotationtype) == Some(i) <==> s_count(decs, decs[i]->0.annotationtype, decs.len() as int) == 1
{
    let t = decs[i]->0.annotationtype;
    lemma_count(decs, t, decs.len() as int);
    assert(decs.take(decs.len() as int) =~= decs);
    if s_count(decs, t, decs.len() as int) == 1 { let j = choose|j: int| s_only(decs, t, j); if i != j { assert(decs[i] is Some); } assert(s_default(decs, t) is Some); let l = s_default(decs, t)->0; if l != i { assert(decs[i] is Some); } }
    else if s_default(decs, t) == Some(i) { assert(s_only(decs, t, i)); }
}
pub open spec fn s_counted(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType, n: int, m: Map<AnnotationType, usize>) -> bool { if s_count(decs, t, n) == 0 { !m.contains_key(t) } else { m.contains_key(t) && m[t] == s_count(decs, t, n) } }
//# end-if
// which declarations are the default of their type
pub open spec fn s_masked(decs: Seq<Option<Box<Declaration>>>, i: int) -> bool { decs[i] is Some && s_default(decs, decs[i]->0.annotationtype) == Some(i) }
//# if prove
// AnnotationType hashes and compares as HashMap needs it (both are derived).
pub axiom fn axiom_key_annotationtype() ensures obeys_key_model::<AnnotationType>();
// m.get_mut(k)
#[verifier::external_body]
pub fn vx_hash_mut<'a, V>(m: &'a mut HashMap<AnnotationType, V>, k: &AnnotationType) -> (r: Option<&'a mut V>)
    ensures match r { Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)), None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@ }
{ m.get_mut(k) }
//# end-if
impl DeclarationStore {
//# fn src/metadata.rs DeclarationStore::default_mask
//# ret r
//# spec
    ensures r@.len() == self.items@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == s_masked(self.items@, i)
//# replace /typecount.get_mut(&declaration.annotationtype)/ => /vx_hash_mut(&mut typecount, &declaration.annotationtype)/
//# ghost start
    proof { axiom_key_annotationtype(); }
//# loop 1 it
    invariant forall|t: AnnotationType| #![trigger s_count(self.items@, t, it.index())] s_counted(self.items@, t, it.index(), typecount@),
//# ghost loop 1 start
    let ghost before = typecount@;
    proof { assert(self.items.len() == self.items@.len()); assert(declaration == &self.items@[it.index()]); assert forall|t: AnnotationType| #[trigger] s_count(self.items@, t, it.index()) <= it.index() by { lemma_count(self.items@, t, it.index()); }
        assert(self.items@.len() <= usize::MAX); if *declaration is Some { let t = declaration->0.annotationtype; assert(s_counted(self.items@, t, it.index(), before)); assert(s_count(self.items@, t, it.index()) < usize::MAX); if before.contains_key(t) { assert(before[t] < usize::MAX); } } }
//# ghost loop 1 end
    proof {
        let n = it.index() + 1; let decs = self.items@;
        assert forall|t: AnnotationType| s_counted(decs, t, n, typecount@) by {
            assert(s_count(decs, t, n) == s_count(decs, t, it.index()) + if decs[n - 1] is Some && decs[n - 1]->0.annotationtype == t { 1nat } else { 0 });
            assert(s_counted(decs, t, it.index(), before));
        }
    }
//# loop 2 it
    invariant forall|t: AnnotationType| #![trigger s_count(self.items@, t, self.items@.len() as int)] s_counted(self.items@, t, self.items@.len() as int, typecount@),
        mask@.len() == it.index(), forall|i: int| 0 <= i < mask@.len() ==> #[trigger] mask@[i] == s_masked(self.items@, i),
//# ghost loop 2 start
    proof { assert(declaration == &self.items@[it.index()]); if declaration is Some { lemma_mask(self.items@, it.index()); } }
//# endfn
}
impl Document {
//# fn src/document.rs Document::get_default_set
//# ret r
//# spec
    requires s_decs_inv(*self)
    ensures match s_default(s_decs(*self), annotationtype) { Some(i) => match r { Some(x) => s_opt(s_decs(*self)[i]->0.set) == Some(x@), None => s_decs(*self)[i]->0.set is None }, None => r is None }
//# closure 1 |s: &String| -> (x: &str) ensures x@ == s@
//# ghost start
    proof { lemma_key_laws(); lemma_decs_len(*self); }
//# endfn
//# fn src/document.rs Document::declare
//# ret r
//# spec
    requires s_decs_inv(*old(self))
    ensures s_decs_inv(*final(self)), s_decs_grown(*old(self), *final(self)), s_but_decs(*final(self)) == s_but_decs(*old(self)),
        s_declare(*old(self), annotationtype, s_opt(*set), *alias, *format, *final(self), r)
//# ghost start
    proof { lemma_key_laws(); lemma_decs_len(*self); }
//# ghost tail
    proof {
        let d = *old(self); let k = declaration_key->0;
        if s_opt(*set) is None && s_default(s_decs(d), annotationtype) is Some { assert(s_dec_is(*s_decs(*self)[k as int]->0, *s_decs(d)[k as int]->0, s_plus(s_decs(d)[k as int]->0.processors@, d.active_processor))); }
        else { assert(s_decs(*self).last()->0.processors@ == s_plus(Seq::<ProcKey>::empty(), d.active_processor)); }
    }
//# endfn
}
pub proof fn lemma_decs_len(d: Document)
    requires s_decs_inv(d)
    ensures s_decs(d).len() <= 0x10000
{
    lemma_key_laws();
    if s_decs(d).len() > 0x10000 { let i = 0x10000int; assert(s_decs(d)[i] is Some); let id = s_decs(d)[i]->0.s_id(); assert(id is Some); let k = d.declarationstore.index@[string_of(id->0)]; assert(s_idx(k) == k); }
}
