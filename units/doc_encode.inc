//# fn src/document.rs Store<ElementData,ElementKey>/Document::encode
//# closure 1 |s: &str| -> (x: String) ensures x@ == s@
//# closure 2 |s: &str| -> (x: String) ensures x@ == s@
//# closure 3 |attrib: &Attribute| -> (b: bool) ensures b == !s_encodable(*attrib)
//# ghost start
    hide(s_declare); hide(s_decs_inv); hide(s_decs_grown); hide(s_dec_ok);
    let ghost d = *self;
    let ghost e = element;
    let ghost mut m = *self;
    let ghost err: Result<DecKey, FoliaError> = Err(arbitrary());
    proof {
        lemma_key_laws(); lemma_decs_len(*self); lemma_grown_same(d); if s_any_encodable(e.attribs@) { lemma_raw_ok(e); }
        if s_el_at(e.elementtype) is Some { let t = s_el_at(e.elementtype)->0; assert forall|m2: Document, x: FoliaError| #[trigger] s_declare(d, t, s_given(e, AttribType::SET), None, None, m2, Err(x)) implies s_enc_declared(d, e, context, m2, Err(x)) by {} }
        else if e.elementtype == ElementType::Feature {
            if context is None || s_elem(d, context->0 as int) is None { assert(s_enc_declared(d, e, context, d, err)); }
            else {
                let parent = s_elem(d, context->0 as int)->0;
                if s_enc(parent, AttribType::SET) is Err { assert(s_enc_declared(d, e, context, d, err)); }
                else if s_enc(parent, AttribType::SET)->Ok_0 is None || s_given(e, AttribType::SET) is Some {
                    if s_el_at(parent.elementtype) is None { assert(s_enc_declared(d, e, context, d, err)); }
                    else { let t = s_el_at(parent.elementtype)->0; assert forall|m2: Document, x: FoliaError| #[trigger] s_declare(d, t, s_given(e, AttribType::SET), None, None, m2, Err(x)) implies s_enc_declared(d, e, context, m2, Err(x)) by {} }
                }
            }
        }
    }
//# ghost call get_mut_declaration 2 before
    proof { m = *self; assert(s_enc_declared(d, e, context, m, Ok(deckey))); lemma_decs_len(m); lemma_decs_ok(m, deckey as int); }
//# ghost let deckey after
    proof { m = *self; assert(s_enc_declared(d, e, context, m, Ok(deckey))); lemma_decs_len(m); lemma_decs_ok(m, deckey as int); lemma_declared_some(d, s_el_at(e.elementtype)->0, s_given(e, AttribType::SET), m, deckey); assert(s_decs(m)[deckey as int] is Some); }
//# ghost call class 1 after
    proof {
        let x = *s_decs(m)[deckey as int]->0; let y = *s_decs(*self)[deckey as int]->0;
        assert(s_vocab(s_strings(x.classes), s_index1(x.classes), s_given(e, AttribType::CLASS), s_strings(y.classes), s_index1(y.classes), class_key));
        assert(y.processors == x.processors && y.subsets == x.subsets && y.subclasses == x.subclasses && y.key == x.key && y.annotationtype == x.annotationtype && y.set == x.set && y.alias == x.alias && y.format == x.format && s_dec_ok(y));
        assert(s_dec_changed(m, deckey as int, x, *self, y));
    }
//# ghost call get_mut_declaration 2 after
    proof {
        if s_dec(m, deckey as int) is Some {
            let x = *s_decs(m)[deckey as int]->0; let y = *s_decs(*self)[deckey as int]->0;
            assert(s_vocab(s_strings(x.subclasses), s_index1(x.subclasses), s_given(e, AttribType::CLASS), s_strings(y.subclasses), s_index1(y.subclasses), class_key));
            assert(s_vocab(s_strings2(x.subsets), s_index2(x.subsets), s_given(e, AttribType::SUBSET), s_strings2(y.subsets), s_index2(y.subsets), subset_key));
            assert(y.processors == x.processors && y.classes == x.classes && y.key == x.key && y.annotationtype == x.annotationtype && y.set == x.set && y.alias == x.alias && y.format == x.format && s_dec_ok(y));
            assert(s_dec_changed(m, deckey as int, x, *self, y));
        }
    }
//# ghost call processor 1 before
    let ghost n = *self;
    proof {
        if declaration_key is Some && s_dec(m, declaration_key->0 as int) is Some {
            let k = Refs { dec: declaration_key, class: class_key, proc: None, subset: subset_key };
            assert(s_enc_middle(e, m, k.dec->0 as int, s_dec(m, k.dec->0 as int)->0, n, s_dec(n, k.dec->0 as int)->0, k));
        } else { assert(s_same_decs(m, n)); }
    }
//# ghost call retain 1 before
    proof { let f = s_filter(e.attribs@, |a: Attribute| !s_encodable(a)); }
//# ghost tail
    proof {
        let k = Refs { dec: declaration_key, class: class_key, proc: processor_key, subset: subset_key };
        assert(element.attribs@ =~= s_filter(e.attribs@, |a: Attribute| !s_encodable(a)) + s_refs(k));
        if declaration_key is Some && s_dec(m, declaration_key->0 as int) is Some {
            let x = s_dec(m, declaration_key->0 as int)->0;
            let y = s_dec(*self, declaration_key->0 as int)->0;
            let z = s_dec(n, declaration_key->0 as int)->0;
            assert(z.processors == x.processors);
            assert(s_dec_changed(n, declaration_key->0 as int, z, *self, y));
            assert(y.processors@ == s_plus(x.processors@, if test_declaration_has_processor { processor_key } else { None }));
            assert(s_enc_added(d, e, m, declaration_key->0 as int, x, *self, y, k));
            lemma_dec_ok_same(z, y);
            lemma_enc_added(d, e, m, declaration_key->0 as int, x, *self, y, k);
        }
        else { lemma_same_decs(d, m, *self); }
        assert(s_encoded(d, e, context, m, *self, k));
        lemma_enc_id(e, element, k);
    }
//# endfn
