//# properties C14
//# covers C14: gathering text and delimiters, of elements and documents, with the parameters for it (complete; that it comes to an end where no reference leads back to what it is in)
//# include core.inc
verus! {
//# unit-mode text
//# include props.inc
//# sub /DEFAULT_TEXT_CLASS: &str/ => /DEFAULT_TEXT_CLASS: &'static str/
//# sub /DEFAULT_TEXT_SET: &str/ => /DEFAULT_TEXT_SET: &'static str/
//# item src/common.rs const DEFAULT_TEXT_CLASS
//# item src/common.rs const DEFAULT_TEXT_SET
//# item src/text.rs struct TextParameters
// derived by the source
pub mod axt { use super::*;
pub broadcast axiom fn axiom_att_obeys() ensures #[trigger] <AttribType as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_att_eq(a: AttribType, b: AttribType) ensures (#[trigger] a.eq_spec(&b)) == (a == b);
}
// s + t
#[verifier::external_body]
pub fn vx_concat(s: String, t: &str) -> (r: String) ensures r@ == s@ + t@ { s + t }
// the element that is an item of data
pub open spec fn x_kid(d: Document, item: DataType) -> Option<ElementData> { match item { DataType::Element(k) => s_elem(d, k as int), _ => None } }
// what a word reference stands for
pub open spec fn x_ref(d: Document, e: ElementData) -> Option<ElementData> { if e.elementtype == ElementType::WordReference { s_refers_to(Some(d), e) } else { None } }
// everything below e, references followed, is reached in less than n steps
pub open spec fn x_deep(d: Document, e: ElementData, n: nat) -> bool
    decreases n, 0int
{
    n > 0 && (forall|i: int| 0 <= i < e.data@.len() ==> x_deep_kid(d, #[trigger] e.data@[i], (n - 1) as nat)) && match x_ref(d, e) { Some(y) => x_deep(d, y, (n - 1) as nat), None => true }
}
pub open spec fn x_deep_kid(d: Document, item: DataType, n: nat) -> bool
    decreases n, 1int
{ match x_kid(d, item) { Some(c) => x_deep(d, c, n), None => true } }
// gathering the text of e comes to an end
pub open spec fn x_settles(d: Document, e: ElementData) -> bool { exists|n: nat| x_deep(d, e, n) }
pub open spec fn x_least(d: Document, e: ElementData, n: nat) -> bool { x_deep(d, e, n) && forall|m: nat| m < n ==> !#[trigger] x_deep(d, e, m) }
pub open spec fn x_depth(d: Document, e: ElementData) -> nat { if exists|n: nat| x_least(d, e, n) { choose|n: nat| x_least(d, e, n) } else { 0 } }
proof fn lemma_x_least(d: Document, e: ElementData, n: nat)
    requires x_deep(d, e, n)
    ensures exists|m: nat| m <= n && x_least(d, e, m)
    decreases n
{
    if forall|m: nat| m < n ==> !#[trigger] x_deep(d, e, m) { assert(x_least(d, e, n)); }
    else { let m = choose|m: nat| m < n && #[trigger] x_deep(d, e, m); lemma_x_least(d, e, m); }
}
proof fn lemma_x_depth(d: Document, e: ElementData)
    requires x_settles(d, e)
    ensures x_least(d, e, x_depth(d, e)), forall|n: nat| #[trigger] x_deep(d, e, n) ==> x_depth(d, e) <= n
{ let n = choose|n: nat| x_deep(d, e, n); lemma_x_least(d, e, n); }
// c is an element in e
pub open spec fn x_has(d: Document, e: ElementData, c: ElementData) -> bool { exists|i: int| 0 <= i < e.data@.len() && x_kid(d, #[trigger] e.data@[i]) == Some(c) }
proof fn lemma_x_kid(d: Document, e: ElementData, c: ElementData)
    requires x_settles(d, e), x_has(d, e, c)
    ensures x_settles(d, c), x_depth(d, c) < x_depth(d, e)
{
    lemma_x_depth(d, e);
    let n = x_depth(d, e);
    let i = choose|i: int| 0 <= i < e.data@.len() && x_kid(d, #[trigger] e.data@[i]) == Some(c);
    assert(x_deep_kid(d, e.data@[i], (n - 1) as nat));
    assert(x_deep(d, c, (n - 1) as nat));
    lemma_x_depth(d, c);
}
proof fn lemma_x_ref(d: Document, e: ElementData)
    requires x_settles(d, e), x_ref(d, e) is Some
    ensures x_settles(d, x_ref(d, e)->0), x_depth(d, x_ref(d, e)->0) < x_depth(d, e)
{
    lemma_x_depth(d, e);
    let n = x_depth(d, e);
    assert(x_deep(d, x_ref(d, e)->0, (n - 1) as nat));
    lemma_x_depth(d, x_ref(d, e)->0);
}
// the last element among the data
pub open spec fn x_last(d: Document, data: Seq<DataType>) -> Option<ElementData>
    decreases data.len()
{ if data.len() == 0 { None } else if x_kid(d, data.last()) is Some { x_kid(d, data.last()) } else { x_last(d, data.drop_last()) } }
proof fn lemma_x_last(d: Document, data: Seq<DataType>)
    ensures x_last(d, data) is Some ==> exists|i: int| 0 <= i < data.len() && x_kid(d, #[trigger] data[i]) == x_last(d, data)
    decreases data.len()
{
    if data.len() > 0 {
        if x_kid(d, data.last()) is Some { assert(x_kid(d, data[data.len() - 1]) == x_last(d, data)); }
        else { lemma_x_last(d, data.drop_last()); if x_last(d, data) is Some { let i = choose|i: int| 0 <= i < data.drop_last().len() && x_kid(d, #[trigger] data.drop_last()[i]) == x_last(d, data); assert(data[i] == data.drop_last()[i]); } }
    }
}
// what separates e from what follows
pub open spec fn x_spaced(e: ElementData, retain: bool) -> bool { retain || match s_find(e.attribs@, AttribType::SPACE) { Some(i) => e.attribs@[i] != Attribute::Space(false), None => true } }
pub open spec fn x_delim(d: Document, e: ElementData, retain: bool) -> Seq<char>
    decreases x_depth(d, e) when x_settles(d, e) via x_delim_ends
{
    let p = s_props_of(d, e.elementtype);
    match p.textdelimiter {
        None => match x_last(d, e.data@) { Some(c) => x_delim(d, c, retain), None => Seq::empty() },
        Some(t) => if p.optional_attribs@.contains(AttribType::SPACE) && !x_spaced(e, retain) { Seq::empty() } else { t@ },
    }
}
#[via_fn]
proof fn x_delim_ends(d: Document, e: ElementData, retain: bool) { lemma_x_last(d, e.data@); if let Some(c) = x_last(d, e.data@) { assert(x_has(d, e, c)); lemma_x_kid(d, e, c); } }
// the parts that text is gathered from
pub open spec fn x_gathers(t: ElementType) -> bool { s_in_group(ElementGroup::Structure, t) || t == ElementType::Correction || s_in_group(ElementGroup::Span, t) }
pub open spec fn x_part(d: Document, item: DataType) -> Option<ElementData> { match x_kid(d, item) { Some(c) => if x_gathers(c.elementtype) { Some(c) } else { x_ref(d, c) }, None => None } }
// text content of the class
pub open spec fn x_class(d: Document, e: ElementData) -> Seq<char> { match s_read_class(Some(d), e) { Some(c) => c, None => DEFAULT_TEXT_CLASS@ } }
pub open spec fn x_is_own(d: Document, item: DataType, class: Seq<char>) -> bool { match x_kid(d, item) { Some(c) => !x_gathers(c.elementtype) && c.elementtype == ElementType::TextContent && x_class(d, c) == class, None => false } }
pub open spec fn x_own(d: Document, data: Seq<DataType>, class: Seq<char>) -> Option<ElementData>
    decreases data.len()
{ if data.len() == 0 { None } else if x_is_own(d, data.last(), class) { x_kid(d, data.last()) } else { x_own(d, data.drop_last(), class) } }
proof fn lemma_x_own(d: Document, data: Seq<DataType>, class: Seq<char>)
    ensures x_own(d, data, class) is Some ==> exists|i: int| 0 <= i < data.len() && x_kid(d, #[trigger] data[i]) == x_own(d, data, class) && x_is_own(d, data[i], class)
    decreases data.len()
{
    if data.len() > 0 {
        if x_is_own(d, data.last(), class) { assert(x_kid(d, data[data.len() - 1]) == x_own(d, data, class)); }
        else { lemma_x_own(d, data.drop_last(), class); if x_own(d, data, class) is Some { let i = choose|i: int| 0 <= i < data.drop_last().len() && x_kid(d, #[trigger] data.drop_last()[i]) == x_own(d, data, class) && x_is_own(d, data.drop_last()[i], class); assert(data[i] == data.drop_last()[i]); } }
    }
}
pub open spec fn x_str(t: Option<Seq<char>>) -> Seq<char> { match t { Some(t) => t, None => Seq::empty() } }
// The text of e in a class: that of what it is made up of if it holds text itself, or else that of its parts with what separates them in between, or else its own text of that class.
pub open spec fn x_text(d: Document, e: ElementData, class: Seq<char>, retain: bool) -> Option<Seq<char>>
    decreases x_depth(d, e), e.data@.len() + 1 when x_settles(d, e) via x_text_ends
{
    let p = s_props_of(d, e.elementtype);
    if p.textcontainer { Some(x_markup(d, e, class, retain, e.data@.len() as int)) }
    else if !p.printable || p.hidden { None }
    else {
        let t = x_parts(d, e, class, retain, e.data@.len() as int).0;
        let t = if t.len() > 0 { t } else { match x_own(d, e.data@, class) { Some(c) => x_str(x_text(d, c, class, retain)), None => Seq::empty() } };
        if t.len() > 0 { Some(t) } else { None }
    }
}
#[via_fn]
proof fn x_text_ends(d: Document, e: ElementData, class: Seq<char>, retain: bool) { lemma_x_own(d, e.data@, class); if let Some(c) = x_own(d, e.data@, class) { assert(x_has(d, e, c)); lemma_x_kid(d, e, c); } }
pub open spec fn x_markup(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int) -> Seq<char>
    decreases x_depth(d, e), n when x_settles(d, e) && n <= e.data@.len() via x_markup_ends
{
    if n <= 0 { Seq::empty() } else {
        let t = x_markup(d, e, class, retain, n - 1);
        match e.data@[n - 1] {
            DataType::Text(s) => t + s@,
            item => match x_kid(d, item) {
                Some(c) => { let p = s_props_of(d, c.elementtype); if p.printable { t + (if t.len() > 0 && p.textdelimiter is Some { p.textdelimiter->0@ } else { Seq::empty() }) + x_str(x_text(d, c, class, retain)) } else { t } },
                None => t,
            }
        }
    }
}
#[via_fn]
proof fn x_markup_ends(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int) { if n > 0 { if let Some(c) = x_kid(d, e.data@[n - 1]) { assert(x_has(d, e, c)); lemma_x_kid(d, e, c); } } }
// the text of the first n, and what separates it from the next
pub open spec fn x_parts(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int) -> (Seq<char>, Seq<char>)
    decreases x_depth(d, e), n when x_settles(d, e) && n <= e.data@.len() via x_parts_ends
{
    if n <= 0 { (Seq::empty(), Seq::empty()) } else {
        let t = x_parts(d, e, class, retain, n - 1);
        match x_part(d, e.data@[n - 1]) {
            Some(c) => match x_text(d, c, class, retain) { Some(u) => (t.0 + x_after(d, c, t.1, u), x_delim(d, c, retain)), None => t },
            None => t,
        }
    }
}
#[via_fn]
proof fn x_parts_ends(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int) { if n > 0 { lemma_x_part(d, e, n - 1); } }
// text after something else (nothing is put before what holds text itself)
pub open spec fn x_after(d: Document, c: ElementData, delim: Seq<char>, u: Seq<char>) -> Seq<char> { if s_props_of(d, c.elementtype).textcontainer { u } else { delim + u } }
proof fn lemma_x_part(d: Document, e: ElementData, i: int)
    requires x_settles(d, e), 0 <= i < e.data@.len()
    ensures match x_part(d, e.data@[i]) { Some(c) => x_settles(d, c) && x_depth(d, c) < x_depth(d, e), None => true }, match x_kid(d, e.data@[i]) { Some(c) => x_settles(d, c) && x_depth(d, c) < x_depth(d, e), None => true }
{
    if let Some(c) = x_kid(d, e.data@[i]) { assert(x_has(d, e, c)); lemma_x_kid(d, e, c); if x_ref(d, c) is Some { lemma_x_ref(d, c); } }
}
proof fn lemma_x_last_rev(d: Document, data: Seq<DataType>, n: int)
    requires 0 <= n <= data.len(), forall|j: int| 0 <= j < n ==> x_kid(d, #[trigger] data.reverse()[j]) is None
    ensures x_last(d, data) == x_last(d, data.take(data.len() - n))
    decreases n
{
    if n > 0 {
        lemma_x_last_rev(d, data, n - 1);
        let t = data.take(data.len() - (n - 1));
        assert(t.last() == data.reverse()[n - 1]);
        assert(t.drop_last() =~= data.take(data.len() - n));
    } else { assert(data.take(data.len() as int) =~= data); }
}
pub open spec fn x_ready(d: Document, e: ElementData) -> bool { s_doc_inv(d) && s_all_encoded(d) && x_settles(d, e) }
pub open spec fn x_class_name(d: Document, set: DecKey, class: ClassKey) -> Seq<char> { match s_dec(d, set as int) { Some(x) => match ss_get(s_strings(x.classes), class as int) { Some(c) => c, None => DEFAULT_TEXT_CLASS@ }, None => DEFAULT_TEXT_CLASS@ } }
pub open spec fn x_measure(e: Element) -> nat { match e.document { Some(d) => x_depth(*d, *e.data), None => 0 } }
pub open spec fn x_result(t: Option<Seq<char>>, r: Result<String, FoliaError>) -> bool { match t { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err && r->Err_0 is NoTextError } }
impl<'a> Element<'a> {
//# fn src/text.rs Element::get_textdelimiter
//# ret r
//# spec
    requires self.document is Some ==> x_ready(*self.document->0, *self.data)
    ensures match self.document { Some(d) => r is Ok && r->Ok_0@ == x_delim(*d, *self.data, retaintokenisation), None => r is Err }
    decreases x_measure(*self)
//# replace /self.elementdata().data.iter().rev()/ => /vx_rev(&self.elementdata().data)/
//# ghost start
    broadcast use {axt::axiom_att_obeys, axt::axiom_att_eq};
    let ghost data = self.data.data@;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//# loop 1 it
    invariant *doc == *self.document->0, self.document is Some, x_ready(*doc, *self.data), data == self.data.data@, properties.textdelimiter is None, *properties == s_props_of(*doc, self.data.elementtype),
        it.seq().len() == data.len(), forall|j: int| 0 <= j < data.len() ==> *(#[trigger] it.seq()[j]) == data.reverse()[j],
        forall|j: int| 0 <= j < it.index() ==> x_kid(*doc, #[trigger] data.reverse()[j]) is None,
//# ghost loop 1 start
    proof {
        let i = it.index(); let n = data.len() - 1 - i;
        assert(*item == data.reverse()[i] && data.reverse()[i] == data[n]);
        lemma_x_part(*doc, *self.data, n);
        lemma_x_last_rev(*doc, data, i);
        assert(data.take(data.len() - i).last() == data[n]);
    }
//# ghost loop 1 after
    proof { assert(""@ =~= Seq::<char>::empty()); lemma_x_last_rev(*doc, data, data.len() as int); assert(data.take(0) =~= Seq::empty()); }
//# endfn
//# fn src/text.rs Element::text_by_key
//# ret r
//# spec
    requires self.document is Some ==> x_ready(*self.document->0, *self.data)
    ensures match self.document { Some(d) => x_result(match x_text(*d, *self.data, x_class_name(*d, set, textclass), retaintokenisation) { Some(t) => Some(match previousdelimiter { Some(p) => x_after(*d, *self.data, p@, t), None => t }), None => None }, r), None => r is Err }
    decreases x_measure(*self)
//# append text
//# replace /previousdelimiter.unwrap() + text.as_str()/ => /vx_concat(previousdelimiter.unwrap(), text.as_str())/
//# closure 1 |declaration: &Declaration| -> (o: Option<&str>) ensures v_str(o) == ss_get(s_strings(declaration.classes), textclass as int)
//# ghost start
    let ghost class = if self.document is Some { x_class_name(*self.document->0, set, textclass) } else { Seq::empty() };
//# loop 1 it
    invariant *doc == *self.document->0, self.document is Some, x_ready(*doc, *self.data), class == x_class_name(*doc, set, textclass), text@ == x_markup(*doc, *self.data, class, retaintokenisation, it.index()),
        it.seq().len() == self.data.data@.len(), forall|j: int| 0 <= j < self.data.data@.len() ==> *(#[trigger] it.seq()[j]) == self.data.data@[j],
//# ghost loop 1 start
    proof { assert(*item == self.data.data@[it.index()]); lemma_x_part(*doc, *self.data, it.index()); }
//# loop 2 it
    invariant *doc == *self.document->0, self.document is Some, x_ready(*doc, *self.data), class == x_class_name(*doc, set, textclass), (text@, delimiter@) == x_parts(*doc, *self.data, class, retaintokenisation, it.index()),
        it.seq().len() == self.data.data@.len(), forall|j: int| 0 <= j < self.data.data@.len() ==> *(#[trigger] it.seq()[j]) == self.data.data@[j],
        match x_own(*doc, self.data.data@.take(it.index()), class) { Some(c) => textcontent_element is Some && *textcontent_element->0.data == c && v_doc(textcontent_element->0.document) == Some(*doc), None => textcontent_element is None },
//# ghost loop 2 start
    proof {
        let i = it.index(); let data = self.data.data@;
        assert(*element == data[i]); lemma_x_part(*doc, *self.data, i);
        assert(data.take(i + 1).drop_last() =~= data.take(i)); assert(data.take(i + 1).last() == data[i]);
    }
//# ghost loop 2 after
    proof {
        assert(self.data.data@.take(self.data.data@.len() as int) =~= self.data.data@);
        lemma_x_own(*doc, self.data.data@, class);
        if let Some(c) = x_own(*doc, self.data.data@, class) { assert(x_has(*doc, *self.data, c)); lemma_x_kid(*doc, *self.data, c); }
    }
//# endfn
}

// the class key of a class of a declaration
pub open spec fn x_class_key(d: Document, k: int, class: Seq<char>) -> Option<ClassKey> { match s_dec(d, k) { Some(x) => ss_lookup(s_index1(x.classes), class), None => None } }
pub open spec fn x_set(p: TextParameters) -> Seq<char> { match p.set { Some(s) => s@, None => DEFAULT_TEXT_SET@ } }
pub open spec fn x_asked(p: TextParameters) -> Seq<char> { match p.textclass { Some(s) => s@, None => DEFAULT_TEXT_CLASS@ } }
// the class that is asked for is there
pub open spec fn x_known(d: Document, p: TextParameters) -> bool { match s_lookup(d.declarationstore.index@, s_dec_id(AnnotationType::TEXT, Some(x_set(p)))) { Some(k) => x_class_key(d, k as int, x_asked(p)) is Some, None => false } }
proof fn lemma_x_name(d: Document, k: DecKey, class: Seq<char>)
    requires s_doc_inv(d), x_class_key(d, k as int, class) is Some
    ensures x_class_name(d, k, x_class_key(d, k as int, class)->0) == class
{ lemma_key_laws(); let x = s_decs(d)[k as int]; assert(x is Some && s_dec_ok(*x->0)); let c = x->0.classes->0; assert(c.index@.contains_key(string_of(class))); let i = c.index@[string_of(class)]; assert(s_idx(i) == i); }
impl TextParameters {
//# fn src/text.rs Default/TextParameters::default
//# ret r
//# spec
    ensures s_opt(r.set) == Some(DEFAULT_TEXT_SET@), s_opt(r.textclass) == Some(DEFAULT_TEXT_CLASS@), !r.strict, !r.retaintokenisation
//# ghost start
    proof { reveal_strlit("current"); reveal_strlit("https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"); }
//# endfn
//# fn src/text.rs TextParameters::new
//# ret r
//# spec
    ensures s_opt(r.set) == Some(DEFAULT_TEXT_SET@), s_opt(r.textclass) == Some(DEFAULT_TEXT_CLASS@), !r.strict, !r.retaintokenisation
//# endfn
//# fn src/text.rs TextParameters::retaintokenisation
//# ret r
//# spec
    ensures r == (TextParameters { retaintokenisation: retaintokenisation, ..self })
//# endfn
//# fn src/text.rs TextParameters::set
//# ret r
//# spec
    ensures s_opt(r.set) == Some(set@), r == (TextParameters { set: r.set, ..self })
//# endfn
//# fn src/text.rs TextParameters::textclass
//# ret r
//# spec
    ensures s_opt(r.textclass) == Some(textclass@), r == (TextParameters { textclass: r.textclass, ..self })
//# endfn
}
impl Document {
//# fn src/metadata.rs Document::class_key
//# ret r
//# spec
    ensures match x_class_key(*self, dec_key as int, class@) { Some(k) => r == Ok::<ClassKey, FoliaError>(k), None => r is Err }
//# endfn
}
impl<'a> Element<'a> {
//# fn src/text.rs Element::text
//# ret r
//# spec
    requires self.document is Some ==> x_ready(*self.document->0, *self.data)
    ensures match self.document { Some(d) => if x_known(*d, *textparameters) { x_result(x_text(*d, *self.data, x_asked(*textparameters), textparameters.retaintokenisation), r) } else { r is Err }, None => r is Err }
//# closure 1 |s: &String| -> (x: &str) ensures x@ == s@
//# closure 2 |s: &String| -> (x: &str) ensures x@ == s@
//# ghost let class_key after
    proof { lemma_x_name(*doc, dec_key, textclass@); }
//# endfn
}
impl Document {
//# fn src/text.rs Document::text_by_key
//# ret r
//# spec
    requires s_elem(*self, element_key as int) is Some ==> x_ready(*self, s_elem(*self, element_key as int)->0)
    ensures match s_elem(*self, element_key as int) { Some(e) => x_result(x_text(*self, e, x_class_name(*self, set, textclass), retaintokenisation), r), None => r is Err }
//# endfn
//# fn src/text.rs Document::text
//# ret r
//# spec
    requires s_elem(*self, element_key as int) is Some ==> x_ready(*self, s_elem(*self, element_key as int)->0)
    ensures match s_elem(*self, element_key as int) { Some(e) => if x_known(*self, *textparameters) { x_result(x_text(*self, e, x_asked(*textparameters), textparameters.retaintokenisation), r) } else { r is Err }, None => r is Err }
//# endfn
}

// C14 as consequences of the contracts.
// the texts of the parts that have text, each with what separates it from the next
pub open spec fn x_list(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int) -> Seq<(Seq<char>, Seq<char>)>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let l = x_list(d, e, class, retain, n - 1);
        match x_part(d, e.data@[n - 1]) { Some(c) => match x_text(d, c, class, retain) { Some(u) => l.push((u, x_delim(d, c, retain))), None => l }, None => l }
    }
}
pub open spec fn x_joined(l: Seq<(Seq<char>, Seq<char>)>) -> Seq<char>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0].0 } else { x_joined(l.drop_last()) + l[l.len() - 2].1 + l.last().0 } }
// the text is that of the parts, with the delimiter of each between it and the next, and none before the first or after the last
proof fn c14_joined(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int)
    requires x_settles(d, e), 0 <= n <= e.data@.len(), forall|i: int| 0 <= i < n ==> match x_part(d, #[trigger] e.data@[i]) { Some(c) => !s_props_of(d, c.elementtype).textcontainer, None => true }
    ensures x_parts(d, e, class, retain, n).0 == x_joined(x_list(d, e, class, retain, n)),
        x_parts(d, e, class, retain, n).1 == (if x_list(d, e, class, retain, n).len() == 0 { Seq::empty() } else { x_list(d, e, class, retain, n).last().1 })
    decreases n
{
    if n > 0 {
        c14_joined(d, e, class, retain, n - 1);
        lemma_x_part(d, e, n - 1);
        let l = x_list(d, e, class, retain, n - 1);
        if let Some(c) = x_part(d, e.data@[n - 1]) { if let Some(u) = x_text(d, c, class, retain) {
            let m = l.push((u, x_delim(d, c, retain)));
            assert(m.drop_last() =~= l);
            let t = x_parts(d, e, class, retain, n - 1);
            assert(x_list(d, e, class, retain, n) == m);
            assert(!s_props_of(d, c.elementtype).textcontainer);
            assert(x_parts(d, e, class, retain, n) == (t.0 + x_after(d, c, t.1, u), x_delim(d, c, retain)));
            if l.len() == 0 { assert(m[0].0 == u && x_joined(m) == u); assert(t.0 + (t.1 + u) =~= u); }
            else { assert(m[m.len() - 2] == l.last() && m.last().0 == u); assert(x_joined(m) == x_joined(l) + l.last().1 + u); assert(t.0 + (t.1 + u) =~= x_joined(l) + l.last().1 + u); }
        } }
    }
}
// an element has text in a class exactly if it is there: never an empty string, unless it holds text itself
proof fn c14_never_empty(d: Document, e: ElementData, class: Seq<char>, retain: bool)
    requires x_settles(d, e), !s_props_of(d, e.elementtype).textcontainer, x_text(d, e, class, retain) is Some
    ensures x_text(d, e, class, retain)->0.len() > 0
{}
// what an element without parts has is its own text of that class, and nothing of another class
proof fn c14_own(d: Document, e: ElementData, class: Seq<char>, retain: bool)
    requires x_settles(d, e), !s_props_of(d, e.elementtype).textcontainer, x_text(d, e, class, retain) is Some, forall|i: int| 0 <= i < e.data@.len() ==> x_part(d, #[trigger] e.data@[i]) is None
    ensures exists|i: int| 0 <= i < e.data@.len() && x_is_own(d, #[trigger] e.data@[i], class) && x_text(d, x_kid(d, e.data@[i])->0, class, retain) == x_text(d, e, class, retain)
{
    c14_no_parts(d, e, class, retain, e.data@.len() as int);
    lemma_x_own(d, e.data@, class);
    let t = x_text(d, e, class, retain)->0;
    let c = x_own(d, e.data@, class);
    if c is Some { assert(x_has(d, e, c->0)); lemma_x_kid(d, e, c->0); }
    assert(x_str(match c { Some(c) => x_text(d, c, class, retain), None => None }) == t);
    let i = choose|i: int| 0 <= i < e.data@.len() && x_kid(d, #[trigger] e.data@[i]) == c && x_is_own(d, e.data@[i], class);
    assert(x_text(d, c->0, class, retain) == Some(t));
    assert(x_is_own(d, e.data@[i], class) && x_kid(d, e.data@[i])->0 == c->0);
}
proof fn c14_no_parts(d: Document, e: ElementData, class: Seq<char>, retain: bool, n: int)
    requires x_settles(d, e), 0 <= n <= e.data@.len(), forall|i: int| 0 <= i < e.data@.len() ==> x_part(d, #[trigger] e.data@[i]) is None
    ensures x_parts(d, e, class, retain, n).0.len() == 0
    decreases n
{ if n > 0 { c14_no_parts(d, e, class, retain, n - 1); assert(x_part(d, e.data@[n - 1]) is None); } }
// It comes to an end wherever no word reference leads to something with references in it.
proof fn lemma_x_more(d: Document, e: ElementData, n: nat, m: nat)
    requires x_deep(d, e, n), n <= m
    ensures x_deep(d, e, m)
    decreases n
{
    assert forall|i: int| 0 <= i < e.data@.len() implies x_deep_kid(d, #[trigger] e.data@[i], (m - 1) as nat) by { assert(x_deep_kid(d, e.data@[i], (n - 1) as nat)); if let Some(c) = x_kid(d, e.data@[i]) { lemma_x_more(d, c, (n - 1) as nat, (m - 1) as nat); } }
    if let Some(y) = x_ref(d, e) { lemma_x_more(d, y, (n - 1) as nat, (m - 1) as nat); }
}
// no element at or below k is a word reference
pub open spec fn x_plain(d: Document, k: int) -> bool { forall|j: int| #[trigger] t_above(s_elems(d), j, k) && s_elem(d, j) is Some ==> s_elem(d, j)->0.elementtype != ElementType::WordReference }
pub open spec fn x_simple(d: Document, k: int) -> bool { s_elem(d, k) is Some ==> match x_ref(d, s_elem(d, k)->0) { Some(y) => exists|t: int| s_elem(d, t) == Some(y) && #[trigger] x_plain(d, t), None => true } }
pub open spec fn x_under(rank: spec_fn(int) -> nat, n: int, m: nat) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] rank(i) < m }
proof fn lemma_x_under(rank: spec_fn(int) -> nat, n: int)
    requires n >= 0
    ensures exists|m: nat| #[trigger] x_under(rank, n, m)
    decreases n
{
    if n == 0 { assert(x_under(rank, 0, 0)); }
    else { lemma_x_under(rank, n - 1); let m = choose|m: nat| #[trigger] x_under(rank, n - 1, m); let r = rank(n - 1) + 1; let m2: nat = if m > r { m } else { r }; assert(x_under(rank, n, m2)); }
}
proof fn lemma_x_plain(d: Document, rank: spec_fn(int) -> nat, m: nat, k: int)
    requires t_tree(s_elems(d)), t_rank(s_elems(d), rank), x_under(rank, s_elems(d).len() as int, m), s_elem(d, k) is Some, x_plain(d, k)
    ensures x_deep(d, s_elem(d, k)->0, (m - rank(k)) as nat)
    decreases m - rank(k)
{
    let s = s_elems(d); let e = s_elem(d, k)->0;
    assert(rank(k) < m);
    assert(t_above(s, k, k)) by { assert(t_reach(s, k, k, 0)); }
    assert forall|i: int| 0 <= i < e.data@.len() implies x_deep_kid(d, #[trigger] e.data@[i], (m - rank(k) - 1) as nat) by {
        if let Some(c) = x_kid(d, e.data@[i]) {
            let j = e.data@[i]->Element_0 as int;
            assert(t_data(s, k)[i] == e.data@[i]); assert(t_parent(s, j) == Some(k)); assert(rank(k) < rank(j)); assert(rank(j) < m);
            assert(x_plain(d, j)) by { assert forall|z: int| #[trigger] t_above(s, z, j) && s_elem(d, z) is Some implies s_elem(d, z)->0.elementtype != ElementType::WordReference by { lemma_x_above(s, z, j, k); } }
            lemma_x_plain(d, rank, m, j);
            lemma_x_more(d, c, (m - rank(j)) as nat, (m - rank(k) - 1) as nat);
        }
    }
}
proof fn lemma_x_above(s: Seq<Option<Box<ElementData>>>, z: int, j: int, k: int)
    requires t_above(s, z, j), t_parent(s, j) == Some(k)
    ensures t_above(s, z, k)
{ let f = choose|f: nat| t_reach(s, z, j, f); lemma_x_reach(s, z, j, k, f); assert(t_reach(s, z, k, f + 1)); }
proof fn lemma_x_reach(s: Seq<Option<Box<ElementData>>>, z: int, j: int, k: int, f: nat)
    requires t_reach(s, z, j, f), t_parent(s, j) == Some(k)
    ensures t_reach(s, z, k, f + 1)
    decreases f
{ if z == j { assert(t_reach(s, k, k, f)); } else { lemma_x_reach(s, t_parent(s, z)->0, j, k, (f - 1) as nat); } }
proof fn lemma_x_simple(d: Document, rank: spec_fn(int) -> nat, m: nat, k: int)
    requires t_tree(s_elems(d)), t_rank(s_elems(d), rank), x_under(rank, s_elems(d).len() as int, m), s_elem(d, k) is Some, forall|j: int| #[trigger] x_simple(d, j)
    ensures x_deep(d, s_elem(d, k)->0, (m - rank(k) + m + 1) as nat)
    decreases m - rank(k)
{
    let s = s_elems(d); let e = s_elem(d, k)->0; let n = (m - rank(k) + m + 1) as nat;
    assert(rank(k) < m);
    assert forall|i: int| 0 <= i < e.data@.len() implies x_deep_kid(d, #[trigger] e.data@[i], (n - 1) as nat) by {
        if let Some(c) = x_kid(d, e.data@[i]) {
            let j = e.data@[i]->Element_0 as int;
            assert(t_data(s, k)[i] == e.data@[i]); assert(t_parent(s, j) == Some(k)); assert(rank(k) < rank(j)); assert(rank(j) < m);
            lemma_x_simple(d, rank, m, j);
            lemma_x_more(d, c, (m - rank(j) + m + 1) as nat, (n - 1) as nat);
        }
    }
    if let Some(y) = x_ref(d, e) {
        assert(x_simple(d, k));
        let t = choose|t: int| s_elem(d, t) == Some(y) && #[trigger] x_plain(d, t);
        assert(rank(t) < m);
        lemma_x_plain(d, rank, m, t);
        lemma_x_more(d, y, (m - rank(t)) as nat, (n - 1) as nat);
    }
}
proof fn c14_ends(d: Document, k: int)
    requires s_good(d), s_elem(d, k) is Some, forall|j: int| #[trigger] x_simple(d, j)
    ensures x_settles(d, s_elem(d, k)->0)
{
    reveal(s_good);
    let s = s_elems(d);
    let rank = choose|rank: spec_fn(int) -> nat| t_rank(s, rank);
    lemma_x_under(rank, s.len() as int);
    let m = choose|m: nat| #[trigger] x_under(rank, s.len() as int, m);
    lemma_x_simple(d, rank, m, k);
}
}
fn main() {}
