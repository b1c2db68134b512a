proof fn lemma_filter_has<T>(s: Seq<T>, g: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < s_filter(s, g).len() ==> g(#[trigger] s_filter(s, g)[i]) && s.contains(s_filter(s, g)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_has(d, g);
        assert forall|i: int| 0 <= i < s_filter(s, g).len() implies g(#[trigger] s_filter(s, g)[i]) && s.contains(s_filter(s, g)[i]) by {
            if i < s_filter(d, g).len() { let a = s_filter(d, g)[i]; assert(d.contains(a)); let j = choose|j: int| 0 <= j < d.len() && d[j] == a; assert(s[j] == a); } else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}
pub open spec fn is_kind(t: AttribType) -> spec_fn(Attribute) -> bool { |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == t) }
proof fn lemma_encv(e: ElementData, t: AttribType)
    requires s_none_encodable(e.attribs@)
    ensures s_encv(e, t) == (match s_fval(e.attribs@, is_kind(t)) { Some(a) => Some(s_ref(a)), None => None })
{ lemma_first(e.attribs@, is_kind(t)); }
proof fn lemma_fval1(a: Attribute, f: spec_fn(Attribute) -> bool)
    ensures s_fval(seq![a], f) == (if f(a) { Some(a) } else { None })
{ assert(seq![a] =~= Seq::<Attribute>::empty().push(a)); lemma_fval_push(Seq::<Attribute>::empty(), a, f); }
proof fn lemma_fval_refs(k: Refs, t: AttribType)
    ensures s_fval(s_refs(k), is_kind(t)) == (match t {
        AttribType::SET => match k.dec { Some(x) => Some(Attribute::DeclarationRef(x)), None => None },
        AttribType::CLASS => match k.class { Some(x) => Some(Attribute::ClassRef(x)), None => None },
        AttribType::PROCESSOR => match k.proc { Some(x) => Some(Attribute::ProcessorRef(x)), None => None },
        AttribType::SUBSET => match k.subset { Some(x) => Some(Attribute::SubsetRef(x)), None => None },
        _ => s_fval(s_refs(k), is_kind(t)) })
{
    let f = is_kind(t); let z = Seq::<Attribute>::empty();
    let a = match k.dec { Some(x) => seq![Attribute::DeclarationRef(x)], None => z }; let b = match k.class { Some(x) => seq![Attribute::ClassRef(x)], None => z };
    let c = match k.proc { Some(x) => seq![Attribute::ProcessorRef(x)], None => z }; let d = match k.subset { Some(x) => seq![Attribute::SubsetRef(x)], None => z };
    assert(s_refs(k) == a + b + c + d);
    lemma_fval_plus(a + b + c, d, f); lemma_fval_plus(a + b, c, f); lemma_fval_plus(a, b, f);
    assert(s_fval(z, f) is None);
    if let Some(x) = k.dec { lemma_fval1(Attribute::DeclarationRef(x), f); }
    if let Some(x) = k.class { lemma_fval1(Attribute::ClassRef(x), f); }
    if let Some(x) = k.proc { lemma_fval1(Attribute::ProcessorRef(x), f); }
    if let Some(x) = k.subset { lemma_fval1(Attribute::SubsetRef(x), f); }
}
// what an encoded element refers to
proof fn lemma_refs_read(e: ElementData, x: ElementData, k: Refs)
    requires s_none_decodable(e.attribs@), x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k)
    ensures s_none_encodable(x.attribs@),
        s_encv(x, AttribType::SET) == (match k.dec { Some(y) => Some(y as nat), None => None }), s_encv(x, AttribType::CLASS) == (match k.class { Some(y) => Some(y as nat), None => None }),
        s_encv(x, AttribType::SUBSET) == (match k.subset { Some(y) => Some(y as nat), None => None }), s_encv(x, AttribType::PROCESSOR) == (match k.proc { Some(y) => Some(y as nat), None => None }),
{
    let g = |a: Attribute| !s_encodable(a); let w = s_filter(e.attribs@, g); let r = s_refs(k);
    lemma_filter_has(e.attribs@, g);
    assert forall|i: int| 0 <= i < x.attribs@.len() implies !s_encodable(#[trigger] x.attribs@[i]) by { if i < w.len() { assert(x.attribs@[i] == w[i]); } else { assert(x.attribs@[i] == r[i - w.len()]); } }
    assert forall|t: AttribType| #[trigger] s_fval(w, is_kind(t)) is None by {
        lemma_first(w, is_kind(t));
        if let Some(i) = s_first(w, is_kind(t)) { assert(e.attribs@.contains(w[i])); let j = choose|j: int| 0 <= j < e.attribs@.len() && e.attribs@[j] == w[i]; assert(!s_decodable(e.attribs@[j])); }
    }
    lemma_encv(x, AttribType::SET); lemma_fval_plus(w, r, is_kind(AttribType::SET)); lemma_fval_refs(k, AttribType::SET); assert(s_fval(w, is_kind(AttribType::SET)) is None);
    lemma_encv(x, AttribType::CLASS); lemma_fval_plus(w, r, is_kind(AttribType::CLASS)); lemma_fval_refs(k, AttribType::CLASS); assert(s_fval(w, is_kind(AttribType::CLASS)) is None);
    lemma_encv(x, AttribType::SUBSET); lemma_fval_plus(w, r, is_kind(AttribType::SUBSET)); lemma_fval_refs(k, AttribType::SUBSET); assert(s_fval(w, is_kind(AttribType::SUBSET)) is None);
    lemma_encv(x, AttribType::PROCESSOR); lemma_fval_plus(w, r, is_kind(AttribType::PROCESSOR)); lemma_fval_refs(k, AttribType::PROCESSOR); assert(s_fval(w, is_kind(AttribType::PROCESSOR)) is None);
}
// d3 is d2 some time later: declarations have grown, and processors are what they were
pub open spec fn later(d: Document, e: Document) -> bool {
    s_decs_grown(d, e) && forall|i: int| 0 <= i < s_procs(d).len() && s_procs(d)[i] is Some ==> (#[trigger] s_procs(e).len()) > i && s_procs(e)[i] is Some && s_procs(e)[i]->0.id == s_procs(d)[i]->0.id
}
// C10: what an annotation reads back as never changes
proof fn c10_stable(d: Document, e: Document, x: ElementData)
    requires later(d, e)
    ensures s_read_dec(Some(d), x) is Some ==> s_read_dec(Some(e), x) is Some && s_read_set(Some(e), x) == s_read_set(Some(d), x),
        s_read_class(Some(d), x) is Some ==> s_read_class(Some(e), x) == s_read_class(Some(d), x),
        s_read_subset(Some(d), x) is Some ==> s_read_subset(Some(e), x) == s_read_subset(Some(d), x),
        s_read_processor(Some(d), x) is Some ==> s_read_processor(Some(e), x) == s_read_processor(Some(d), x),
{
    if let Some(k) = s_encv(x, AttribType::SET) { if s_dec(d, k as int) is Some { assert(s_decs(d)[k as int] is Some); assert(s_decs(e)[k as int] is Some); assert(s_dec_grown(*s_decs(d)[k as int]->0, *s_decs(e)[k as int]->0)); } }
    if let Some(k) = s_encv(x, AttribType::PROCESSOR) { if s_proc(d, k as int) is Some { assert(s_procs(e).len() > k); } }
}
proof fn lemma_vocab<Key: TryFrom<usize> + Copy>(items: Seq<Option<String>>, index: Map<String, Key>, given: Option<Seq<char>>, items2: Seq<Option<String>>, index2: Map<String, Key>, key: Option<Key>) where usize: TryFrom<Key>
    requires key_laws::<Key>(), s_vocab(items, index, given, items2, index2, key), ss_inv(items, index), given is Some, key is Some
    ensures ss_get(items2, s_idx(key->0)) == given
{
    let s = given->0; assert(string_of(s)@ == s);
    match ss_lookup(index, s) { Some(k) => { assert(items[s_idx(index[string_of(s)])] == Some(string_of(s))); }, None => { let x = <Key as TryFromSpec<usize>>::try_from_spec(items.len() as usize); assert(items2[items.len() as int] == Some(string_of(s))); } }
}
// C10: an annotation reads back as it was given
proof fn c10_read(d: Document, e: ElementData, context: Option<ElementKey>, d2: Document, x: ElementData)
    requires s_encode_el_pre(d, e), s_procs_inv(d), s_any_encodable(e.attribs@), s_encode_el(d, e, context, d2, Ok(x)), s_el_at(e.elementtype) is Some
    ensures
        s_read_dec(Some(d2), x) is Some && s_read_dec(Some(d2), x)->0.annotationtype == s_el_at(e.elementtype)->0,
        // a set that was given; else the default set if there is one, and none if not
        s_given(e, AttribType::SET) is Some ==> s_read_set(Some(d2), x) == s_given(e, AttribType::SET),
        s_given(e, AttribType::SET) is None && s_lookup(d.declarationstore.index@, s_dec_id(s_el_at(e.elementtype)->0, None)) is None ==> s_read_set(Some(d2), x) == (match s_default(s_decs(d), s_el_at(e.elementtype)->0) { Some(i) => s_opt(s_decs(d)[i]->0.set), None => None }),
        // a class that was given (unless its declaration has no key left for it)
        s_given(e, AttribType::CLASS) is Some && s_encv(x, AttribType::CLASS) is Some ==> s_read_class(Some(d2), x) == s_given(e, AttribType::CLASS),
        s_given(e, AttribType::CLASS) is None ==> s_read_class(Some(d2), x) is None,
        s_read_subset(Some(d2), x) is None,
        // a processor that was given and is one of the document's
        s_enc_explicit(d, e) is Some ==> s_read_processor(Some(d2), x) == s_given(e, AttribType::PROCESSOR),
{
    lemma_key_laws(); lemma_decs_len(d); lemma_decs_len(d2);
    let (m, k) = choose|m: Document, k: Refs| #[trigger] s_encoded(d, e, context, m, d2, k) && x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k);
    lemma_refs_read(e, x, k);
    let t = s_el_at(e.elementtype)->0; let set = s_given(e, AttribType::SET);
    let dk = k.dec->0;
    assert(s_declare(d, t, set, None, None, m, Ok(dk)));
    c10_declared(d, t, set, m, dk);
    let a = s_dec(m, dk as int)->0;
    let y = choose|y: Declaration| #[trigger] s_enc_added(d, e, m, dk as int, a, d2, y, k);
    assert(s_dec(d2, dk as int) == Some(y));
    if s_given(e, AttribType::CLASS) is Some && k.class is Some { lemma_vocab(s_strings(a.classes), s_index1(a.classes), s_given(e, AttribType::CLASS), s_strings(y.classes), s_index1(y.classes), k.class); }
    if s_enc_explicit(d, e) is Some { lemma_proc_found(d, s_given(e, AttribType::PROCESSOR)->0); }
}
proof fn lemma_proc_found(d: Document, id: Seq<char>)
    requires s_procs_inv(d), s_lookup(d.provenancestore.index@, id) is Some
    ensures ({ let k = s_lookup(d.provenancestore.index@, id)->0 as int; s_proc(d, k) is Some && s_proc(d, k)->0.id@ == id })
{ lemma_key_laws(); let s = string_of(id); assert(s@ == id); let k = d.provenancestore.index@[s]; assert(s_idx(k) == k); }
// what declare leads to (see unit declare for more)
proof fn c10_declared(d: Document, t: AnnotationType, set: Option<Seq<char>>, m: Document, k: DecKey)
    requires s_decs_inv(d), s_declare(d, t, set, None, None, m, Ok(k))
    ensures s_dec(m, k as int) is Some, s_dec_ok(s_dec(m, k as int)->0), s_dec(m, k as int)->0.annotationtype == t,
        set is Some ==> s_opt(s_dec(m, k as int)->0.set) == set,
        set is None && s_lookup(d.declarationstore.index@, s_dec_id(t, None)) is None ==> s_opt(s_dec(m, k as int)->0.set) == (match s_default(s_decs(d), t) { Some(i) => s_opt(s_decs(d)[i]->0.set), None => None }),
{
    lemma_key_laws(); lemma_decs_len(d);
    match s_lookup(d.declarationstore.index@, s_dec_id(t, set)) {
        Some(j) => {
            let s = string_of(s_dec_id(t, set)); assert(s@ == s_dec_id(t, set)); assert(s_idx(j) == j); assert(s_decs(d)[j as int] is Some);
            c09_name(s_decs(d)[j as int]->0.annotationtype, s_opt(s_decs(d)[j as int]->0.set), t, set);
        }
        None => if set is None && s_default(s_decs(d), t) is Some { assert(s_only(s_decs(d), t, s_default(s_decs(d), t)->0)); assert(s_decs(d)[k as int] is Some); }
    }
}
// C10: a feature reads back as it was given
proof fn c10_feature(d: Document, e: ElementData, context: Option<ElementKey>, d2: Document, x: ElementData)
    requires s_encode_el_pre(d, e), s_procs_inv(d), s_any_encodable(e.attribs@), s_encode_el(d, e, context, d2, Ok(x)), e.elementtype == ElementType::Feature, s_given(e, AttribType::SUBSET) is Some,
        // the element it belongs to is in a declaration that exists
        context is Some ==> s_elem(d, context->0 as int) is Some && match s_encv(s_elem(d, context->0 as int)->0, AttribType::SET) { Some(p) => s_dec(d, p as int) is Some && p < 0x10000, None => true },
    ensures
        // without a set of its own it is resolved in the declaration of the element it belongs to
        s_given(e, AttribType::SET) is None && s_encv(s_elem(d, context->0 as int)->0, AttribType::SET) is Some ==> s_encv(x, AttribType::SET) == s_encv(s_elem(d, context->0 as int)->0, AttribType::SET),
        s_given(e, AttribType::SET) is Some ==> s_read_set(Some(d2), x) == s_given(e, AttribType::SET),
        s_encv(x, AttribType::SUBSET) is Some ==> s_read_subset(Some(d2), x) == s_given(e, AttribType::SUBSET),
        s_encv(x, AttribType::SUBSET) is Some && s_encv(x, AttribType::CLASS) is Some && s_given(e, AttribType::CLASS) is Some ==> s_read_class(Some(d2), x) == s_given(e, AttribType::CLASS),
{
    lemma_key_laws(); lemma_decs_len(d); lemma_decs_len(d2);
    let (m, k) = choose|m: Document, k: Refs| #[trigger] s_encoded(d, e, context, m, d2, k) && x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k);
    lemma_refs_read(e, x, k);
    assert(s_el_at(ElementType::Feature) is None);
    let parent = s_elem(d, context->0 as int)->0;
    let set = s_given(e, AttribType::SET); let dk = k.dec->0;
    if s_encv(parent, AttribType::SET) is None || set is Some { c10_declared(d, s_el_at(parent.elementtype)->0, set, m, dk); } else { assert(s_decs(d)[dk as int] is Some); assert(s_dec_ok(*s_decs(d)[dk as int]->0)); }
    let a = s_dec(m, dk as int)->0;
    assert(s_dec_ok(a));
    let y = choose|y: Declaration| #[trigger] s_enc_added(d, e, m, dk as int, a, d2, y, k);
    assert(s_dec(d2, dk as int) == Some(y));
    if k.class is Some && s_given(e, AttribType::CLASS) is Some { lemma_vocab(s_strings(a.subclasses), s_index1(a.subclasses), s_given(e, AttribType::CLASS), s_strings(y.subclasses), s_index1(y.subclasses), k.class); }
    if k.subset is Some { lemma_vocab(s_strings2(a.subsets), s_index2(a.subsets), s_given(e, AttribType::SUBSET), s_strings2(y.subsets), s_index2(y.subsets), k.subset); }
}
// C10: all other attributes are unchanged and in the same order, and so is everything else about the element
proof fn c10_rest(d: Document, e: ElementData, context: Option<ElementKey>, d2: Document, x: ElementData)
    requires s_encode_el(d, e, context, d2, Ok(x))
    ensures x.elementtype == e.elementtype, x.data == e.data, x.key == e.key, x.parent == e.parent, s_el_id(x) == s_el_id(e),
        s_any_encodable(e.attribs@) ==> s_filter(e.attribs@, |a: Attribute| !s_encodable(a)).is_prefix_of(x.attribs@),
        s_but_decs(d2) == s_but_decs(d),
{
    if s_any_encodable(e.attribs@) {
        let (m, k) = choose|m: Document, k: Refs| #[trigger] s_encoded(d, e, context, m, d2, k) && x.attribs@ == s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k);
        lemma_enc_id(e, x, k);
    }
}
