//# properties C01
//# covers C01: adding, looking up and getting items of the generic store, and of the stores of elements, declarations and processors of a document
//# include core.inc
verus! {
// C01 as consequences of the contracts, for any document.
// No two items carry the same ID.
proof fn c01_unique<T: Storable<Key>, Key>(items: Seq<Option<Box<T>>>, index: Map<String, Key>, i: int, j: int) where usize: TryFrom<Key>
    requires s_inv(items, index), 0 <= i < items.len(), 0 <= j < items.len(), items[i]->0.s_id() is Some, items[i]->0.s_id() == items[j]->0.s_id()
    ensures i == j
{ assert(items[i] is Some && items[j] is Some); }
// Looking an ID up yields the key of the one item that carries it, and nothing for an ID no item carries.
proof fn c01_lookup<T: Storable<Key>, Key>(items: Seq<Option<Box<T>>>, index: Map<String, Key>, id: Seq<char>) where usize: TryFrom<Key>
    requires s_inv(items, index)
    ensures match s_lookup(index, id) {
        Some(k) => 0 <= s_idx(k) < items.len() && items[s_idx(k)] is Some && items[s_idx(k)]->0.s_id() == Some(id),
        None => forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]) is Some && items[i]->0.s_id() != Some(id) }
{ }
// Adding: a new key that nothing else has, everything that was there stays where it was, its ID unchanged; or nothing at all.
proof fn c01_add<T: Storable<Key>, Key: TryFrom<usize> + Copy>(items: Seq<Option<Box<T>>>, index: Map<String, Key>, item: T, items2: Seq<Option<Box<T>>>, index2: Map<String, Key>, r: Result<Key, FoliaError>) where usize: TryFrom<Key>
    requires key_laws::<Key>(), s_inv(items, index), s_inv(items2, index2), s_add(items, index, item, items2, index2, r)
    ensures
        items2.len() >= items.len(), forall|i: int| 0 <= i < items.len() ==> items2[i] == #[trigger] items[i],
        forall|s: String| #[trigger] index.contains_key(s) ==> index2.contains_key(s) && index2[s] == index[s],
        match r {
            Ok(k) => (s_known(index, item) == Some(k) && items2 == items && index2 == index)
                || (s_known(index, item) is None && s_idx(k) == items.len() && items2.len() == items.len() + 1 && items2.last() == Some(Box::new(item.s_keyed(k))) && match items2.last()->0.s_id() { Some(id) => s_lookup(index2, id) == Some(k), None => true }),
            Err(_) => items2 == items && index2 == index && s_key::<Key>(items.len()) is None }
{
    if let Ok(k) = r { if s_known(index, item) is None { assert(items2[items.len() as int] is Some); assert(s_idx(k) == items.len()) by { let x = <Key as TryFromSpec<usize>>::try_from_spec(items.len() as usize); }
        if let Some(id) = items2.last()->0.s_id() { assert(s_idx(index2[string_of(id)]) == items.len()); } } }
}
// The stores of a document as their callers see them.
fn c01_client(doc: &mut Document, d: Declaration, id: &str, k: DecKey)
    requires s_decs_inv(*old(doc)), s_dec_ok(d)
    ensures s_decs_inv(*final(doc))
{
    proof { lemma_key_laws(); }
    let ghost before = *doc;
    let ghost dd = d;
    let had = doc.get_declaration(k).is_some();
    let known = doc.get_declaration_key_by_id(id);
    let r = doc.add_declaration(d);
    proof { c01_add::<Declaration, DecKey>(before.declarationstore.items@, before.declarationstore.index@, dd, doc.declarationstore.items@, doc.declarationstore.index@, r); }
    let now = doc.get_declaration(k);
    assert(had ==> now is Some && *now->0 == s_dec(before, k as int)->0);
    let again = doc.get_declaration_key_by_id(id);
    assert(known is Some ==> again == known);
    assert(r is Err ==> before.declarationstore.items@.len() >= 0x10000);
}
}
fn main() {}
