//# properties C02
//# covers C02: adding, encoding and decoding classes, subsets and feature classes of a declaration, and the string stores behind them (complete)
//# include core.inc
verus! {
// C02 as consequences of the contracts, for any declaration.
proof fn c02_add<Key: TryFrom<usize> + Copy>(items: Seq<Option<String>>, index: Map<String, Key>, s: Seq<char>, items2: Seq<Option<String>>, index2: Map<String, Key>, r: Result<Key, FoliaError>) where usize: TryFrom<Key>
    requires key_laws::<Key>(), ss_inv(items, index), ss_add(items, index, s, items2, index2, r)
    ensures
        // what a key decodes to never changes
        forall|i: int| ss_get(items, i) is Some ==> #[trigger] ss_get(items2, i) == ss_get(items, i),
        forall|t: Seq<char>| ss_lookup(index, t) is Some ==> #[trigger] ss_lookup(index2, t) == ss_lookup(index, t),
        // the key decodes to the string, and the string encodes to that key again
        r is Ok ==> ss_get(items2, s_idx(r->Ok_0)) == Some(s) && ss_lookup(index2, s) == Some(r->Ok_0),
        r is Ok ==> forall|t: Seq<char>| t != s ==> #[trigger] ss_lookup(index2, t) == ss_lookup(index, t),
        r is Err ==> items2 == items && index2 == index,
{
    assert forall|t: Seq<char>| #[trigger] string_of(t)@ == t by {}
    assert forall|t: Seq<char>| t != s implies string_of(t) != string_of(s) by { assert(string_of(t)@ == t); assert(string_of(s)@ == s); }
    assert forall|i: int| ss_get(items, i) is Some implies #[trigger] ss_get(items2, i) == ss_get(items, i) by {}
    if r is Ok { if ss_lookup(index, s) is None { let x = <Key as TryFromSpec<usize>>::try_from_spec(items.len() as usize); assert(s_idx(r->Ok_0) == items.len()); }
        else { let k = ss_lookup(index, s)->0; assert(items[s_idx(k)] == Some(string_of(s))); } }
}
// different strings have different keys
proof fn c02_distinct<Key>(items: Seq<Option<String>>, index: Map<String, Key>, s: Seq<char>, t: Seq<char>) where usize: TryFrom<Key>
    requires ss_inv(items, index), ss_lookup(index, s) is Some, ss_lookup(index, s) == ss_lookup(index, t)
    ensures s == t
{ assert(string_of(s)@ == s && string_of(t)@ == t); assert(items[s_idx(index[string_of(s)])] == Some(string_of(s))); assert(items[s_idx(index[string_of(t)])] == Some(string_of(t))); }
// as the callers of Declaration see it
fn c02_client<'a>(d: &mut Declaration, a: &'a str, b: &'a str, k: ClassKey, sk: SubsetKey)
    requires s_dec_ok(*old(d))
    ensures s_dec_ok(*final(d))
{
    proof { lemma_key_laws(); }
    let ghost d0 = *d;
    let known = d.class_key(a);
    let ka = d.add_class(Cow::Borrowed(a));
    proof { c02_add::<ClassKey>(s_strings(d0.classes), s_index1(d0.classes), a@, s_strings(d.classes), s_index1(d.classes), ka); }
    let ghost d1 = *d;
    let kb = d.add_class(Cow::Borrowed(b));
    proof { c02_add::<ClassKey>(s_strings(d1.classes), s_index1(d1.classes), b@, s_strings(d.classes), s_index1(d.classes), kb); }
    let ghost d2 = *d;
    let ks = d.add_subset(Cow::Borrowed(a));
    let kf = d.add_subclass(Cow::Borrowed(b));
    if let (Ok(x), Ok(y)) = (ka, kb) {
        let s = d.get_class(x);
        assert(s is Some && s->0@ == a@);
        let e = d.class_key(a);
        assert(e == Some(x));
        if x == y { proof { c02_distinct::<ClassKey>(s_strings(d.classes), s_index1(d.classes), a@, b@); } assert(a@ == b@); }
        assert(known is Some ==> known == Some(x));
    }
    assert(d.classes == d2.classes);
}
}
fn main() {}
