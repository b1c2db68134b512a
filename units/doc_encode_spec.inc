// Encoding an element: its set, class, subset and processor become keys.
pub struct Refs { pub dec: Option<DecKey>, pub class: Option<ClassKey>, pub proc: Option<ProcKey>, pub subset: Option<SubsetKey> }
pub open spec fn s_refs(k: Refs) -> Seq<Attribute> {
    (match k.dec { Some(x) => seq![Attribute::DeclarationRef(x)], None => Seq::<Attribute>::empty() }) + (match k.class { Some(x) => seq![Attribute::ClassRef(x)], None => Seq::<Attribute>::empty() })
    + (match k.proc { Some(x) => seq![Attribute::ProcessorRef(x)], None => Seq::<Attribute>::empty() }) + (match k.subset { Some(x) => seq![Attribute::SubsetRef(x)], None => Seq::<Attribute>::empty() })
}
pub open spec fn s_given(e: ElementData, t: AttribType) -> Option<Seq<char>> { match s_raw(e, t) { Ok(x) => x, Err(_) => None } }
pub open spec fn s_none_decodable(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> !s_decodable(#[trigger] s[i]) }
// an element does not mix attributes that are encoded with ones that are not
pub open spec fn s_encode_el_pre(d: Document, e: ElementData) -> bool { s_decs_inv(d) && (s_any_encodable(e.attribs@) ==> s_none_decodable(e.attribs@)) }
// the processor it names, if there is such a processor
pub open spec fn s_enc_explicit(d: Document, e: ElementData) -> Option<ProcKey> { match s_given(e, AttribType::PROCESSOR) { Some(id) => s_lookup(d.provenancestore.index@, id), None => None } }
pub open spec fn s_dec_default_proc(d: Declaration) -> Option<ProcKey> { if d.processors@.len() == 1 { Some(d.processors@[0]) } else { None } }
// the processor an annotation in declaration x is attributed to
pub open spec fn s_enc_proc(d: Document, x: Declaration, e: ElementData) -> Option<ProcKey> {
    match s_enc_explicit(d, e) { Some(p) => Some(p), None => match s_dec_default_proc(x) { Some(p) => Some(p), None => d.active_processor } }
}
// the processor that is added to the declaration if it is not there
pub open spec fn s_enc_joins(d: Document, x: Declaration, e: ElementData) -> Option<ProcKey> {
    match s_enc_explicit(d, e) { Some(p) => Some(p), None => match s_dec_default_proc(x) { Some(_) => None, None => d.active_processor } }
}
// adding what was given to a vocabulary
pub open spec fn s_vocab<Key: TryFrom<usize> + Copy>(items: Seq<Option<String>>, index: Map<String, Key>, given: Option<Seq<char>>, items2: Seq<Option<String>>, index2: Map<String, Key>, key: Option<Key>) -> bool where usize: TryFrom<Key> {
    match given {
        Some(s) => match key { Some(k) => ss_add(items, index, s, items2, index2, Ok(k)), None => ss_lookup(index, s) is None && s_key::<Key>(items.len()) is None && items2 == items && index2 == index },
        None => key is None && items2 == items && index2 == index
    }
}
// m and d2 differ in declaration k only, which is x there and y here
pub open spec fn s_dec_changed(m: Document, k: int, x: Declaration, d2: Document, y: Declaration) -> bool {
    &&& d2.declarationstore.index@ == m.declarationstore.index@ && s_decs(d2).len() == s_decs(m).len()
    &&& s_dec(m, k) == Some(x) && s_dec(d2, k) == Some(y)
    &&& forall|i: int| 0 <= i < s_decs(m).len() && i != k ==> #[trigger] s_decs(d2)[i] == s_decs(m)[i]
}
pub open spec fn s_same_decs(m: Document, d2: Document) -> bool { d2.declarationstore.index@ == m.declarationstore.index@ && s_decs(d2) == s_decs(m) }
// first the declaration is looked up or made (d to m) ..
pub open spec fn s_enc_declared(d: Document, e: ElementData, context: Option<ElementKey>, m: Document, dec: Result<DecKey, FoliaError>) -> bool {
    match s_el_at(e.elementtype) {
        Some(t) => s_declare(d, t, s_given(e, AttribType::SET), None, None, m, dec),
        None => e.elementtype == ElementType::Feature && match context { Some(p) => match s_elem(d, p as int) {
            Some(parent) => match s_enc(parent, AttribType::SET) {
                Ok(Some(k)) => if s_given(e, AttribType::SET) is None { s_same_decs(d, m) && dec == Ok::<DecKey, FoliaError>(k as DecKey) } else { match s_el_at(parent.elementtype) { Some(t) => s_declare(d, t, s_given(e, AttribType::SET), None, None, m, dec), None => s_same_decs(d, m) && dec is Err } },
                Ok(None) => match s_el_at(parent.elementtype) { Some(t) => s_declare(d, t, s_given(e, AttribType::SET), None, None, m, dec), None => s_same_decs(d, m) && dec is Err },
                Err(_) => s_same_decs(d, m) && dec is Err },
            None => s_same_decs(d, m) && dec is Err },
        None => s_same_decs(d, m) && dec is Err }
    }
}
// .. then class, subset and processor are added to it (m to d2)
pub open spec fn s_enc_added(d: Document, e: ElementData, m: Document, k: int, x: Declaration, d2: Document, y: Declaration, r: Refs) -> bool {
    let feature = s_el_at(e.elementtype) is None;
    &&& s_dec_changed(m, k, x, d2, y)
    &&& y.key == x.key && y.annotationtype == x.annotationtype && y.set == x.set && y.alias == x.alias && y.format == x.format
    &&& if feature { s_strings(y.classes) == s_strings(x.classes) && s_index1(y.classes) == s_index1(x.classes)
            && s_vocab(s_strings(x.subclasses), s_index1(x.subclasses), s_given(e, AttribType::CLASS), s_strings(y.subclasses), s_index1(y.subclasses), r.class)
            && s_vocab(s_strings2(x.subsets), s_index2(x.subsets), s_given(e, AttribType::SUBSET), s_strings2(y.subsets), s_index2(y.subsets), r.subset)
            && r.proc == s_enc_explicit(d, e) && y.processors@ == s_plus(x.processors@, s_enc_explicit(d, e))
        } else { s_strings(y.subclasses) == s_strings(x.subclasses) && s_index1(y.subclasses) == s_index1(x.subclasses) && s_strings2(y.subsets) == s_strings2(x.subsets) && s_index2(y.subsets) == s_index2(x.subsets)
            && s_vocab(s_strings(x.classes), s_index1(x.classes), s_given(e, AttribType::CLASS), s_strings(y.classes), s_index1(y.classes), r.class)
            && r.subset is None && r.proc == s_enc_proc(d, x, e) && y.processors@ == s_plus(x.processors@, s_enc_joins(d, x, e))
        }
}
// before the processor is added
pub open spec fn s_enc_middle(e: ElementData, m: Document, k: int, x: Declaration, d2: Document, y: Declaration, r: Refs) -> bool {
    let feature = s_el_at(e.elementtype) is None;
    &&& s_dec_changed(m, k, x, d2, y)
    &&& y.key == x.key && y.annotationtype == x.annotationtype && y.set == x.set && y.alias == x.alias && y.format == x.format && y.processors == x.processors && s_dec_ok(y)
    &&& if feature { s_strings(y.classes) == s_strings(x.classes) && s_index1(y.classes) == s_index1(x.classes)
            && s_vocab(s_strings(x.subclasses), s_index1(x.subclasses), s_given(e, AttribType::CLASS), s_strings(y.subclasses), s_index1(y.subclasses), r.class)
            && s_vocab(s_strings2(x.subsets), s_index2(x.subsets), s_given(e, AttribType::SUBSET), s_strings2(y.subsets), s_index2(y.subsets), r.subset)
        } else { s_strings(y.subclasses) == s_strings(x.subclasses) && s_index1(y.subclasses) == s_index1(x.subclasses) && s_strings2(y.subsets) == s_strings2(x.subsets) && s_index2(y.subsets) == s_index2(x.subsets)
            && s_vocab(s_strings(x.classes), s_index1(x.classes), s_given(e, AttribType::CLASS), s_strings(y.classes), s_index1(y.classes), r.class)
            && r.subset is None
        }
}
pub open spec fn s_encoded(d: Document, e: ElementData, context: Option<ElementKey>, m: Document, d2: Document, r: Refs) -> bool {
    match r.dec {
        Some(k) => s_enc_declared(d, e, context, m, Ok(k)) && match s_dec(m, k as int) {
            Some(x) => exists|y: Declaration| #[trigger] s_enc_added(d, e, m, k as int, x, d2, y, r),
            None => s_same_decs(m, d2) && r.class is None && r.subset is None && r.proc == s_enc_explicit(d, e) && e.elementtype == ElementType::Feature },
        None => s_el_at(e.elementtype) is None && e.elementtype != ElementType::Feature && s_same_decs(d, d2) && r.class is None && r.subset is None && r.proc == s_enc_explicit(d, e)
    }
}
pub open spec fn s_encode_el(d: Document, e: ElementData, context: Option<ElementKey>, d2: Document, r: Result<ElementData, FoliaError>) -> bool {
    if !s_any_encodable(e.attribs@) { d2 == d && r == Ok::<ElementData, FoliaError>(e) } else {
        &&& s_but_decs(d2) == s_but_decs(d) && s_decs_inv(d2) && s_decs_grown(d, d2)
        &&& match r {
            Ok(x) => x == ElementData { attribs: x.attribs, ..e } && exists|m: Document, k: Refs| #[trigger] s_encoded(d, e, context, m, d2, k) && x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k),
            Err(_) => exists|m: Document, x: FoliaError| #[trigger] s_enc_declared(d, e, context, m, Err(x))
        }
    }
}
//# if-unit encode
pub proof fn lemma_raw_ok(e: ElementData)
    requires s_none_decodable(e.attribs@)
    ensures s_raw(e, AttribType::SET) is Ok, s_raw(e, AttribType::CLASS) is Ok, s_raw(e, AttribType::SUBSET) is Ok, s_raw(e, AttribType::PROCESSOR) is Ok
{
    lemma_first(e.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::SET));
    lemma_first(e.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::CLASS));
    lemma_first(e.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::SUBSET));
    lemma_first(e.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::PROCESSOR));
}
//# end-if
// the first attribute that satisfies f
pub open spec fn s_fval(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool) -> Option<Attribute> { match s_first(s, f) { Some(i) => Some(s[i]), None => None } }
pub proof fn lemma_fval_push(s: Seq<Attribute>, x: Attribute, f: spec_fn(Attribute) -> bool)
    ensures s_fval(s.push(x), f) == (match s_fval(s, f) { Some(a) => Some(a), None => if f(x) { Some(x) } else { None } })
{
    let t = s.push(x);
    lemma_first(s, f); lemma_first(t, f);
    assert(t[s.len() as int] == x);
    match s_first(s, f) {
        Some(i) => { assert(t[i] == s[i]); match s_first(t, f) { Some(j) => { if j < i { assert(t[j] == s[j]); } assert(i == j); }, None => {} } }
        None => { match s_first(t, f) { Some(j) => { if j < s.len() { assert(t[j] == s[j]); } }, None => {} } }
    }
}
// leaving out attributes that do not satisfy f, or adding such, does not change the first that does
pub proof fn lemma_fval_filter(s: Seq<Attribute>, g: spec_fn(Attribute) -> bool, f: spec_fn(Attribute) -> bool)
    requires forall|a: Attribute| #[trigger] f(a) ==> g(a)
    ensures s_fval(s_filter(s, g), f) == s_fval(s, f)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_fval_filter(s.drop_last(), g, f);
        assert(s =~= s.drop_last().push(s.last()));
        lemma_fval_push(s.drop_last(), s.last(), f);
        lemma_fval_push(s_filter(s.drop_last(), g), s.last(), f);
    }
}
pub proof fn lemma_fval_plus(s: Seq<Attribute>, t: Seq<Attribute>, f: spec_fn(Attribute) -> bool)
    ensures s_fval(s + t, f) == (match s_fval(s, f) { Some(a) => Some(a), None => s_fval(t, f) })
    decreases t.len()
{
    if t.len() > 0 {
        lemma_fval_plus(s, t.drop_last(), f);
        assert(s + t =~= (s + t.drop_last()).push(t.last())); assert(t =~= t.drop_last().push(t.last()));
        lemma_fval_push(s + t.drop_last(), t.last(), f); lemma_fval_push(t.drop_last(), t.last(), f);
    } else { assert(s + t =~= s); lemma_first(t, f); }
}
pub proof fn lemma_enc_id(e: ElementData, x: ElementData, k: Refs)
    requires x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k)
    ensures s_el_id(x) == s_el_id(e)
{
    let f = |a: Attribute| a is Id; let g = |a: Attribute| !s_encodable(a);
    lemma_fval_filter(e.attribs@, g, f);
    lemma_fval_plus(s_filter(e.attribs@, g), s_refs(k), f);
    lemma_first(s_refs(k), f);
}
//# if-unit encode
pub proof fn lemma_enc_added(d: Document, e: ElementData, m: Document, k: int, x: Declaration, d2: Document, y: Declaration, r: Refs)
    requires s_decs_inv(m), s_enc_added(d, e, m, k, x, d2, y, r), s_dec_ok(y), s_decs_grown(d, m)
    ensures s_decs_inv(d2), s_decs_grown(m, d2), s_decs_grown(d, d2)
{
}
pub proof fn lemma_grown_same(d: Document) ensures s_decs_grown(d, d) {}
pub proof fn lemma_decs_ok(d: Document, k: int) requires s_decs_inv(d) ensures s_dec(d, k) is Some ==> s_dec_ok(s_dec(d, k)->0) {}
pub proof fn lemma_declared_some(d: Document, t: AnnotationType, set: Option<Seq<char>>, m: Document, k: DecKey)
    requires s_decs_inv(d), s_declare(d, t, set, None, None, m, Ok(k))
    ensures s_dec(m, k as int) is Some
{
    lemma_key_laws(); lemma_decs_len(d);
    match s_lookup(d.declarationstore.index@, s_dec_id(t, set)) { Some(j) => { let s = string_of(s_dec_id(t, set)); assert(s_idx(j) == j); assert(s_decs(d)[j as int] is Some); }, None => {} }
}
pub proof fn lemma_dec_ok_same(z: Declaration, y: Declaration) requires s_dec_ok(z), y.classes == z.classes, y.subsets == z.subsets, y.subclasses == z.subclasses ensures s_dec_ok(y) {}
pub proof fn lemma_same_decs(d: Document, m: Document, d2: Document) requires s_same_decs(m, d2), s_decs_inv(m), s_decs_grown(d, m) ensures s_decs_inv(d2), s_decs_grown(d, d2) {}
//# end-if
