//# properties C09
//# covers C09: declaring, the default declaration and the default set of an annotation type, in any state of a document that the contracts allow
//# include core.inc
verus! {
// C09 as consequences of the contracts.
// there is at most one declaration of a type and set, and it is found under them
proof fn c09_unique(d: Document, i: int, j: int)
    requires s_decs_inv(d), 0 <= i < s_decs(d).len(), 0 <= j < s_decs(d).len(), s_decs(d)[i]->0.annotationtype == s_decs(d)[j]->0.annotationtype, s_opt(s_decs(d)[i]->0.set) == s_opt(s_decs(d)[j]->0.set)
    ensures i == j, s_lookup(d.declarationstore.index@, s_dec_id(s_decs(d)[i]->0.annotationtype, s_opt(s_decs(d)[i]->0.set))) == Some(i as DecKey)
{
    lemma_key_laws(); lemma_decs_len(d);
    assert(s_decs(d)[i] is Some && s_decs(d)[j] is Some);
}
// declaring yields the declaration of that type and set; without a set, the one without a set, or else the default, or else a new one without a set
proof fn c09_declared(d: Document, t: AnnotationType, set: Option<Seq<char>>, alias: Option<String>, format: Option<String>, d2: Document, r: Result<DecKey, FoliaError>)
    requires s_decs_inv(d), s_decs_inv(d2), s_declare(d, t, set, alias, format, d2, r), r is Ok
    ensures s_dec(d2, r->Ok_0 as int) is Some, s_dec(d2, r->Ok_0 as int)->0.annotationtype == t,
        set is Some ==> s_opt(s_dec(d2, r->Ok_0 as int)->0.set) == set,
        set is None && s_opt(s_dec(d2, r->Ok_0 as int)->0.set) is Some ==> s_default(s_decs(d), t) == Some(r->Ok_0 as int) && s_default(s_decs(d2), t) == Some(r->Ok_0 as int),
        forall|i: int| 0 <= i < s_decs(d).len() && i != r->Ok_0 ==> #[trigger] s_decs(d2)[i] == s_decs(d)[i],
{
    lemma_key_laws(); lemma_decs_len(d);
    match s_lookup(d.declarationstore.index@, s_dec_id(t, set)) {
        Some(k) => { c09_found(d, t, set); }
        None => if set is None && s_default(s_decs(d), t) is Some {
            let k = s_default(s_decs(d), t)->0;
            assert(s_only(s_decs(d), t, k));
            assert forall|j: int| 0 <= j < s_decs(d2).len() && j != k && (#[trigger] s_decs(d2)[j]) is Some implies s_decs(d2)[j]->0.annotationtype != t by { assert(s_decs(d2)[j] == s_decs(d)[j]); }
            assert(s_only(s_decs(d2), t, k)); c09_only(s_decs(d2), t, k);
        }
    }
}
// there is a default if and only if there is exactly one
proof fn c09_only(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType, i: int)
    requires s_only(decs, t, i)
    ensures s_default(decs, t) == Some(i)
{ let j = choose|i: int| s_only(decs, t, i); if i != j { assert(decs[j] is Some); } }
proof fn c09_default(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType)
    ensures match s_default(decs, t) { Some(i) => s_only(decs, t, i), None => forall|i: int| !s_only(decs, t, i) }
{}
// declaring once more gives the same and changes nothing else
proof fn c09_again(d: Document, t: AnnotationType, set: Option<Seq<char>>, alias: Option<String>, format: Option<String>, d2: Document, r: Result<DecKey, FoliaError>, alias3: Option<String>, format3: Option<String>, d3: Document, r3: Result<DecKey, FoliaError>)
    requires s_decs_inv(d), s_decs_inv(d2), s_declare(d, t, set, alias, format, d2, r), r is Ok, s_declare(d2, t, set, alias3, format3, d3, r3)
    ensures r3 == r, s_decs(d3).len() == s_decs(d2).len(), s_dec(d3, r->Ok_0 as int)->0.set == s_dec(d2, r->Ok_0 as int)->0.set,
        forall|i: int| 0 <= i < s_decs(d2).len() && i != r->Ok_0 ==> #[trigger] s_decs(d3)[i] == s_decs(d2)[i],
{
    lemma_key_laws(); lemma_decs_len(d); lemma_decs_len(d2);
    c09_declared(d, t, set, alias, format, d2, r);
    let k = r->Ok_0;
    assert(s_decs(d2)[k as int] is Some);
    let e = *s_decs(d2)[k as int]->0;
    c09_unique(d2, k as int, k as int);
    if s_opt(e.set) != set {
        assert(s_default(s_decs(d2), t) == Some(k as int)); assert(s_only(s_decs(d2), t, k as int));
        if s_lookup(d2.declarationstore.index@, s_dec_id(t, set)) is Some { c09_found(d2, t, set); }
    }
}
// A set that was left out because its declaration is the default one is recovered: declaring without it gives that declaration.
proof fn c09_recovered(d: Document, t: AnnotationType, k: int, alias: Option<String>, format: Option<String>, d2: Document, r: Result<DecKey, FoliaError>)
    requires s_decs_inv(d), s_only(s_decs(d), t, k), s_declare(d, t, None, alias, format, d2, r)
    ensures r == Ok::<DecKey, FoliaError>(k as DecKey), s_dec(d2, k) is Some && s_dec(d2, k)->0.set == s_dec(d, k)->0.set
{
    lemma_key_laws(); lemma_decs_len(d);
    c09_only(s_decs(d), t, k);
    if s_lookup(d.declarationstore.index@, s_dec_id(t, None)) is Some { c09_found(d, t, None); }
}
// a new declaration is attributed to the active processor, and only to it
proof fn c09_attributed(d: Document, t: AnnotationType, set: Option<Seq<char>>, alias: Option<String>, format: Option<String>, d2: Document, r: Result<DecKey, FoliaError>)
    requires s_decs_inv(d), s_declare(d, t, set, alias, format, d2, r), r is Ok, r->Ok_0 >= s_decs(d).len()
    ensures s_dec(d2, r->Ok_0 as int)->0.processors@ == (match d.active_processor { Some(p) => seq![p], None => Seq::<ProcKey>::empty() })
{
    lemma_key_laws(); lemma_decs_len(d);
    if s_lookup(d.declarationstore.index@, s_dec_id(t, set)) is Some { c09_found(d, t, set); }
    else if set is None && s_default(s_decs(d), t) is Some { assert(s_only(s_decs(d), t, s_default(s_decs(d), t)->0)); }
    match d.active_processor { Some(p) => { assert(Seq::<ProcKey>::empty().push(p) =~= seq![p]); }, None => {} }
}
}
fn main() {}
