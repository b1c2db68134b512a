// The provenance tree. a_parent: the processor a processor is attached to, p_kids: those attached to it.
pub open spec fn p_parent(s: Seq<Option<Box<Processor>>>, i: int) -> Option<int> { if 0 <= i < s.len() && s[i] is Some { match s[i]->0.parent { Some(p) => Some(p as int), None => None } } else { None } }
pub open spec fn p_kids(s: Seq<Option<Box<Processor>>>, i: int) -> Seq<ProcKey> { if 0 <= i < s.len() && s[i] is Some { s[i]->0.processors@ } else { Seq::empty() } }
pub open spec fn p_rank(s: Seq<Option<Box<Processor>>>, rank: spec_fn(int) -> nat) -> bool { forall|i: int| 0 <= i < s.len() ==> match #[trigger] p_parent(s, i) { Some(p) => rank(p) < rank(i), None => true } }
// parents and lists of subprocessors agree, every one is in the list of its parent once and in no other, and none is below itself
pub open spec fn p_tree(s: Seq<Option<Box<Processor>>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> match #[trigger] p_parent(s, i) { Some(p) => 0 <= p < s.len() && p_kids(s, p).contains(i as ProcKey), None => true }
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < p_kids(s, i).len() ==> (#[trigger] p_kids(s, i)[j]) < s.len() && p_parent(s, p_kids(s, i)[j] as int) == Some(i)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] p_kids(s, i)).no_duplicates()
    &&& exists|rank: spec_fn(int) -> nat| p_rank(s, rank)
}
// a is reached from i in at most f steps to the parent
pub open spec fn p_reach(s: Seq<Option<Box<Processor>>>, i: int, a: int, f: nat) -> bool
    decreases f
{
    i == a || (f > 0 && match p_parent(s, i) { Some(p) => p_reach(s, p, a, (f - 1) as nat), None => false })
}
// a is i, or i is below it
pub open spec fn p_above(s: Seq<Option<Box<Processor>>>, i: int, a: int) -> bool { exists|f: nat| p_reach(s, i, a, f) }
// everything but the links between processors
pub open spec fn p_same(a: Processor, b: Processor) -> bool {
    a.id == b.id && a.name == b.name && a.processortype == b.processortype && a.version == b.version && a.folia_version == b.folia_version && a.document_version == b.document_version && a.command == b.command
    && a.host == b.host && a.user == b.user && a.begindatetime == b.begindatetime && a.enddatetime == b.enddatetime && a.src == b.src && a.format == b.format && a.resourcelink == b.resourcelink && a.metadata == b.metadata
}
pub open spec fn p_kept(s: Seq<Option<Box<Processor>>>, t: Seq<Option<Box<Processor>>>) -> bool {
    s.len() <= t.len() && forall|i: int| 0 <= i < s.len() ==> s[i] is Some && (#[trigger] t[i]) is Some && t[i]->0.key == s[i]->0.key && p_same(*s[i]->0, *t[i]->0)
}
// child has become a subprocessor of parent
pub open spec fn p_attached(s: Seq<Option<Box<Processor>>>, parent: int, child: int, t: Seq<Option<Box<Processor>>>) -> bool {
    &&& s.len() == t.len() && p_kept(s, t)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] p_parent(t, i) == (if i == child { Some(parent) } else { p_parent(s, i) })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] p_kids(t, i) == (if i == parent { s_plus(p_kids(s, i), Some(child as ProcKey)) } else if p_parent(s, child) == Some(i) { p_without(p_kids(s, i), child as ProcKey) } else { p_kids(s, i) })
}
pub open spec fn p_without(s: Seq<ProcKey>, k: ProcKey) -> Seq<ProcKey> { s_filter(s, |x: ProcKey| x != k) }
// what is above i has not changed
pub open spec fn p_up(s: Seq<Option<Box<Processor>>>, t: Seq<Option<Box<Processor>>>, i: int) -> bool { forall|a: int| #[trigger] p_above(s, i, a) ==> p_parent(t, a) == p_parent(s, a) }
// a processor that is not part of a document yet, and so are those it brings along
pub open spec fn p_fresh(p: Processor) -> bool
    decreases p
{
    p.parent is None && forall|i: int| 0 <= i < p.pending_processors@.len() ==> p_fresh(#[trigger] p.pending_processors@[i])
}
pub open spec fn p_inv(d: Document) -> bool { s_procs_inv(d) && p_tree(s_procs(d)) }
// adding processor (with what it brings along) below parent led from d to e and k
pub open spec fn p_grown(d: Document, e: Document) -> bool {
    &&& s_but_procs(e) == s_but_procs(d) && p_kept(s_procs(d), s_procs(e))
    &&& forall|id: Seq<char>| s_lookup(d.provenancestore.index@, id) is Some ==> #[trigger] s_lookup(e.provenancestore.index@, id) == s_lookup(d.provenancestore.index@, id)
}
// k is the processor with this ID: the one there was, or else the next one, with what was given
pub open spec fn p_result(d: Document, p: Processor, e: Document, k: ProcKey) -> bool {
    &&& k < s_procs(e).len() && s_lookup(e.provenancestore.index@, p.id@) == Some(k)
    &&& match s_lookup(d.provenancestore.index@, p.id@) { Some(x) => k == x, None => k == s_procs(d).len() && s_procs(e)[k as int] is Some && p_same(p, *s_procs(e)[k as int]->0) }
}
// Exactly what adding does to the processors: p is added if its ID is new, attached, then the existing ones it names become its subprocessors, in order,
// and then the new ones it brings along are added below it, in order.
pub open spec fn p_state(d: Document, e: Document) -> bool { s_procs(d) == s_procs(e) && d.provenancestore.index@ == e.provenancestore.index@ }
#[verifier::opaque]
pub open spec fn p_step(d: Document, p: Processor, e: Document, k: ProcKey) -> bool {
    match s_lookup(d.provenancestore.index@, p.id@) {
        Some(x) => k == x && p_state(d, e),
        None => k == s_procs(d).len() && e.provenancestore.index@ == d.provenancestore.index@.insert(string_of(p.id@), k)
            && exists|x: Processor| p_same(p, x) && x.parent is None && x.processors@.len() == 0 && x.key == Some(k) && s_procs(e) == #[trigger] s_procs(d).push(Some(Box::new(x)))
    }
}
pub open spec fn p_via(d: Document) -> bool { true }
#[verifier::opaque]
pub open spec fn p_olds(d: Document, k: ProcKey, keys: Seq<ProcKey>, e: Document) -> bool
    decreases keys.len()
{
    if keys.len() == 0 { p_state(d, e) } else { exists|m: Document| #[trigger] p_via(m) && p_olds(d, k, keys.drop_last(), m) && p_attached(s_procs(m), k as int, keys.last() as int, s_procs(e)) && m.provenancestore.index@ == e.provenancestore.index@ }
}
#[verifier::opaque]
pub open spec fn p_news(p: Processor, d: Document, k: ProcKey, n: nat, e: Document) -> bool
    decreases p, n
{
    if n == 0 { p_state(d, e) } else if n > p.pending_processors@.len() { false } else { exists|m: Document| #[trigger] p_via(m) && p_news(p, d, k, (n - 1) as nat, m) && p_exact(m, k, p.pending_processors@[n - 1], e) }
}
#[verifier::opaque]
pub open spec fn p_exact(d: Document, parent: ProcKey, p: Processor, e: Document) -> bool
    decreases p, p.pending_processors@.len() + 1
{
    exists|m1: Document, k: ProcKey, m2: Document, m3: Document| #[trigger] p_step(d, p, m1, k) && #[trigger] p_via(m2) && #[trigger] p_via(m3) && p_attached(s_procs(m1), parent as int, k as int, s_procs(m2)) && m1.provenancestore.index@ == m2.provenancestore.index@
        && p_olds(m2, k, p.processors@, m3) && p_news(p, m3, k, p.pending_processors@.len(), e)
}
// the same for a processor that is added to the chain
#[verifier::opaque]
pub open spec fn p_exact_top(d: Document, p: Processor, k: ProcKey, e: Document) -> bool {
    exists|m1: Document, m2: Document, m3: Document| #[trigger] p_step(d, p, m1, k) && p_state(m1, m2) && #[trigger] p_olds(m2, k, p.processors@, m3) && #[trigger] p_news(p, m3, k, p.pending_processors@.len(), e)
}
