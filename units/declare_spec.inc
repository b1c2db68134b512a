// the declaration of an annotation type, if it has exactly one
pub open spec fn s_only(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType, i: int) -> bool {
    0 <= i < decs.len() && decs[i] is Some && decs[i]->0.annotationtype == t && forall|j: int| 0 <= j < decs.len() && j != i && (#[trigger] decs[j]) is Some ==> decs[j]->0.annotationtype != t
}
pub open spec fn s_default(decs: Seq<Option<Box<Declaration>>>, t: AnnotationType) -> Option<int> {
    if exists|i: int| s_only(decs, t, i) { Some(choose|i: int| s_only(decs, t, i)) } else { None }
}
pub open spec fn s_plus<A>(s: Seq<A>, x: Option<A>) -> Seq<A> { match x { Some(x) => if s.contains(x) { s } else { s.push(x) }, None => s } }
// b is a with these processors
pub open spec fn s_dec_is(b: Declaration, a: Declaration, processors: Seq<ProcKey>) -> bool {
    b.key == a.key && b.annotationtype == a.annotationtype && b.set == a.set && b.alias == a.alias && b.format == a.format && b.classes == a.classes && b.subsets == a.subsets && b.subclasses == a.subclasses
    && b.processors@ == processors
}
// declaring (type, set) in d leads to d2 and r
pub open spec fn s_declare(d: Document, t: AnnotationType, set: Option<Seq<char>>, alias: Option<String>, format: Option<String>, d2: Document, r: Result<DecKey, FoliaError>) -> bool {
    &&& s_but_decs(d2) == s_but_decs(d)
    &&& match s_lookup(d.declarationstore.index@, s_dec_id(t, set)) {
        Some(k) => r == Ok::<DecKey, FoliaError>(k) && s_decs(d2) == s_decs(d) && d2.declarationstore.index@ == d.declarationstore.index@,
        None => match (if set is None { s_default(s_decs(d), t) } else { None }) {
            Some(k) => r == Ok::<DecKey, FoliaError>(k as DecKey) && d2.declarationstore.index@ == d.declarationstore.index@ && s_decs(d2).len() == s_decs(d).len()
                && (forall|i: int| 0 <= i < s_decs(d).len() && i != k ==> #[trigger] s_decs(d2)[i] == s_decs(d)[i])
                && s_decs(d2)[k] is Some && s_dec_is(*s_decs(d2)[k]->0, *s_decs(d)[k]->0, s_plus(s_decs(d)[k]->0.processors@, d.active_processor)),
            None => match s_key::<DecKey>(s_decs(d).len()) {
                Some(k) => r == Ok::<DecKey, FoliaError>(k) && d2.declarationstore.index@ == d.declarationstore.index@.insert(string_of(s_dec_id(t, set)), k) && s_decs(d2).len() == s_decs(d).len() + 1
                    && (forall|i: int| 0 <= i < s_decs(d).len() ==> #[trigger] s_decs(d2)[i] == s_decs(d)[i])
                    && s_decs(d2).last() is Some && ({ let n = *s_decs(d2).last()->0;
                        n.annotationtype == t && s_opt(n.set) == set && n.alias == alias && n.format == format && n.key == Some(k) && n.processors@ == s_plus(Seq::<ProcKey>::empty(), d.active_processor)
                        && n.classes is None && n.subsets is None && n.subclasses is None }),
                None => r is Err && s_decs(d2) == s_decs(d) && d2.declarationstore.index@ == d.declarationstore.index@,
            }
        }
    }
}
// what never changes about declarations that exist: b is a with more processors, classes, subsets and feature classes
pub open spec fn s_strings_grown(a: Seq<Option<String>>, b: Seq<Option<String>>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn s_dec_grown(a: Declaration, b: Declaration) -> bool {
    b.key == a.key && b.annotationtype == a.annotationtype && b.set == a.set && b.alias == a.alias && b.format == a.format
    && a.processors@.is_prefix_of(b.processors@)
    && s_strings_grown(s_strings(a.classes), s_strings(b.classes)) && s_strings_grown(s_strings2(a.subsets), s_strings2(b.subsets)) && s_strings_grown(s_strings(a.subclasses), s_strings(b.subclasses))
}
pub open spec fn s_decs_grown(d: Document, d2: Document) -> bool {
    s_decs(d).len() <= s_decs(d2).len() && forall|i: int| 0 <= i < s_decs(d).len() && s_decs(d)[i] is Some ==> (#[trigger] s_decs(d2)[i]) is Some && s_dec_grown(*s_decs(d)[i]->0, *s_decs(d2)[i]->0)
}
// a declaration is indexed under a different name for each type and set
pub proof fn c09_name(t: AnnotationType, s: Option<Seq<char>>, u: AnnotationType, z: Option<Seq<char>>)
    requires s_dec_id(t, s) == s_dec_id(u, z)
    ensures t == u, s == z
{
    lemma_s_at_names();
    let a = s_dec_id(t, s); let n = s_at_name(t).len() as int; let m = s_at_name(u).len() as int;
    assert forall|i: int| 0 <= i < n implies a[i] == s_at_name(t)[i] by {}
    assert forall|i: int| 0 <= i < m implies a[i] == s_at_name(u)[i] by {}
    if s is Some { assert(a[n] == '/'); if n < m { assert(s_at_name(u)[n] != '/'); } }
    if z is Some { assert(a[m] == '/'); if m < n { assert(s_at_name(t)[m] != '/'); } }
    if s is Some && z is Some { assert(n == m); assert(a.take(n) =~= s_at_name(t)); assert(a.take(n) =~= s_at_name(u)); assert(a.skip(n + 1) =~= s->0); assert(a.skip(n + 1) =~= z->0); }
    else if s is Some { assert(a.len() == m); assert(n < m); assert(s_at_name(u)[n] != '/'); }
    else if z is Some { assert(a.len() == n); assert(m < n); assert(s_at_name(t)[m] != '/'); }
}
// what is found under a type and set is the declaration of that type and set
pub proof fn c09_found(d: Document, t: AnnotationType, set: Option<Seq<char>>)
    requires s_decs_inv(d), s_lookup(d.declarationstore.index@, s_dec_id(t, set)) is Some
    ensures ({ let k = s_lookup(d.declarationstore.index@, s_dec_id(t, set))->0 as int; s_dec(d, k) is Some && s_dec(d, k)->0.annotationtype == t && s_opt(s_dec(d, k)->0.set) == set })
{
    lemma_key_laws();
    let s = string_of(s_dec_id(t, set)); let k = d.declarationstore.index@[s];
    assert(s@ == s_dec_id(t, set));
    assert(s_idx(k) == k);
    let e = *s_decs(d)[k as int]->0;
    assert(e.s_id() == Some(s@));
    c09_name(e.annotationtype, s_opt(e.set), t, set);
}
