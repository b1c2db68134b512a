// adding a string to a store of strings
pub open spec fn ss_lookup<Key>(index: Map<String, Key>, s: Seq<char>) -> Option<Key> { s_lookup(index, s) }
pub open spec fn ss_add<Key>(items: Seq<Option<String>>, index: Map<String, Key>, s: Seq<char>, items2: Seq<Option<String>>, index2: Map<String, Key>, r: Result<Key, FoliaError>) -> bool
    where Key: TryFrom<usize> + Copy, usize: TryFrom<Key>
{
    match ss_lookup(index, s) {
        Some(k) => r == Ok::<Key, FoliaError>(k) && items2 == items && index2 == index,
        None => match s_key::<Key>(items.len()) {
            Some(k) => r == Ok::<Key, FoliaError>(k) && items2 == items.push(Some(string_of(s))) && index2 == index.insert(string_of(s), k),
            None => r is Err && items2 == items && index2 == index,
        }
    }
}
// the key a string has in a list of strings without an index (classes, subsets and subclasses may be absent)
pub open spec fn ss_get(items: Seq<Option<String>>, k: int) -> Option<Seq<char>> { if 0 <= k < items.len() && items[k] is Some { Some(items[k]->0@) } else { None } }

pub trait StringStore<Key>: Sized where Key: TryFrom<usize> + Copy + Debug,
                              usize: std::convert::TryFrom<Key>,
                              <usize as std::convert::TryFrom<Key>>::Error : std::fmt::Debug {
    spec fn s_items(&self) -> Seq<Option<String>>;
    spec fn s_index(&self) -> Map<String, Key>;
//# fn src/store.rs StringStore::items_mut
//# ret r
//# spec
    ensures (*r)@ == old(self).s_items(), final(self).s_items() == (*final(r))@, final(self).s_index() == old(self).s_index()
//# endfn
//# fn src/store.rs StringStore::index_mut
//# ret r
//# spec
    ensures (*r)@ == old(self).s_index(), final(self).s_index() == (*final(r))@, final(self).s_items() == old(self).s_items()
//# endfn
//# fn src/store.rs StringStore::items
//# ret r
//# spec
    ensures r@ == self.s_items()
//# endfn
//# fn src/store.rs StringStore::index
//# ret r
//# spec
    ensures r@ == self.s_index()
//# endfn
//# fn src/store.rs StringStore::add
//# ret r
//# spec
    requires key_laws::<Key>(), ss_inv(old(self).s_items(), old(self).s_index())
    ensures ss_inv(final(self).s_items(), final(self).s_index()),
        ss_add(old(self).s_items(), old(self).s_index(), item@, final(self).s_items(), final(self).s_index(), r)
//# replace /self.get_key(&item)/ => /self.get_key(vx_cow(&item))/
//# replace /item.clone()/ => /vx_cow_clone(&item)/
//# endfn
//# fn src/store.rs StringStore::get_key
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures r == ss_lookup(self.s_index(), item@)
//# closure 1 |k: &Key| -> (x: Key) ensures x == *k
//# endfn
//# fn src/store.rs StringStore::is_empty
//# ret r
//# spec
    ensures r == (self.s_items().len() == 0)
//# endfn
//# fn src/store.rs StringStore::len
//# ret r
//# spec
    ensures r == self.s_items().len()
//# endfn
//# fn src/store.rs StringStore::get
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures match r { Some(x) => ss_get(self.s_items(), s_idx(key)) == Some(x@), None => ss_get(self.s_items(), s_idx(key)) is None }
//# closure 1 |item: &String| -> (x: &str) ensures x@ == item@
//# endfn
//# fn src/store.rs StringStore::get_mut
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures final(self).s_index() == old(self).s_index(),
        match r {
            Some(x) => s_idx(key) < old(self).s_items().len() && old(self).s_items()[s_idx(key)] == Some(*x) && final(self).s_items() == old(self).s_items().update(s_idx(key), Some(*final(x))),
            None => ss_get(old(self).s_items(), s_idx(key)) is None && final(self).s_items() == old(self).s_items() }
//# endfn
}
impl StringStore<ClassKey> for ClassStore {
    open spec fn s_items(&self) -> Seq<Option<String>> { self.items@ }
    open spec fn s_index(&self) -> Map<String, ClassKey> { self.index@ }
//# fn src/metadata.rs StringStore<ClassKey>/ClassStore::items_mut
//# endfn
//# fn src/metadata.rs StringStore<ClassKey>/ClassStore::index_mut
//# endfn
//# fn src/metadata.rs StringStore<ClassKey>/ClassStore::items
//# endfn
//# fn src/metadata.rs StringStore<ClassKey>/ClassStore::index
//# endfn
}
impl StringStore<SubsetKey> for SubsetStore {
    open spec fn s_items(&self) -> Seq<Option<String>> { self.items@ }
    open spec fn s_index(&self) -> Map<String, SubsetKey> { self.index@ }
//# fn src/metadata.rs StringStore<SubsetKey>/SubsetStore::items_mut
//# endfn
//# fn src/metadata.rs StringStore<SubsetKey>/SubsetStore::index_mut
//# endfn
//# fn src/metadata.rs StringStore<SubsetKey>/SubsetStore::items
//# endfn
//# fn src/metadata.rs StringStore<SubsetKey>/SubsetStore::index
//# endfn
}
//# trust the derived Default of ClassStore and SubsetStore is a store without strings
impl Default for ClassStore {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.items@ == Seq::<Option<String>>::empty(), r.index@ == Map::<String, ClassKey>::empty() { unimplemented!() }
}
impl Default for SubsetStore {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.items@ == Seq::<Option<String>>::empty(), r.index@ == Map::<String, SubsetKey>::empty() { unimplemented!() }
}
pub open spec fn s_index1(c: Option<ClassStore>) -> Map<String, ClassKey> { match c { Some(c) => c.index@, None => Map::empty() } }
pub open spec fn s_index2(c: Option<SubsetStore>) -> Map<String, SubsetKey> { match c { Some(c) => c.index@, None => Map::empty() } }
// everything of a declaration but its three vocabularies
pub open spec fn s_but_vocabulary(d: Declaration) -> Declaration { Declaration { classes: None, subsets: None, subclasses: None, ..d } }
impl Declaration {
//# fn src/metadata.rs Declaration::new
//# ret r
//# spec
    ensures r.annotationtype == annotationtype, r.set == set, r.alias == alias, r.format == format, r.key is None, r.processors@.len() == 0,
        r.classes is None, r.subsets is None, r.subclasses is None
//# endfn
//# fn src/metadata.rs Declaration::default_processor
//# ret r
//# spec
    ensures r == (if self.processors@.len() == 1 { Some(self.processors@[0]) } else { None })
//# closure 1 |x: &ProcKey| -> (y: ProcKey) ensures y == *x
//# endfn
//# fn src/metadata.rs Declaration::get_class
//# ret r
//# spec
    ensures match r { Some(x) => ss_get(s_strings(self.classes), class_key as int) == Some(x@), None => ss_get(s_strings(self.classes), class_key as int) is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::add_class
//# ret r
//# spec
    requires s_dec_ok(*old(self))
    ensures s_dec_ok(*final(self)), s_but_vocabulary(*final(self)) == s_but_vocabulary(*old(self)), final(self).subsets == old(self).subsets, final(self).subclasses == old(self).subclasses,
        ss_add::<ClassKey>(s_strings(old(self).classes), s_index1(old(self).classes), class@, s_strings(final(self).classes), s_index1(final(self).classes), r)
//# replace /get_key(&class)/ => /get_key(vx_cow(&class))/
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::class_key
//# ret r
//# spec
    ensures r == ss_lookup(s_index1(self.classes), class@)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::get_subset
//# ret r
//# spec
    ensures match r { Some(x) => ss_get(s_strings2(self.subsets), subset_key as int) == Some(x@), None => ss_get(s_strings2(self.subsets), subset_key as int) is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::add_subset
//# ret r
//# spec
    requires s_dec_ok(*old(self))
    ensures s_dec_ok(*final(self)), s_but_vocabulary(*final(self)) == s_but_vocabulary(*old(self)), final(self).classes == old(self).classes, final(self).subclasses == old(self).subclasses,
        ss_add::<SubsetKey>(s_strings2(old(self).subsets), s_index2(old(self).subsets), subset@, s_strings2(final(self).subsets), s_index2(final(self).subsets), r)
//# replace /get_key(&subset)/ => /get_key(vx_cow(&subset))/
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::subset_key
//# ret r
//# spec
    ensures r == ss_lookup(s_index2(self.subsets), subset@)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::get_subclass
//# ret r
//# spec
    ensures match r { Some(x) => ss_get(s_strings(self.subclasses), subclass_key as int) == Some(x@), None => ss_get(s_strings(self.subclasses), subclass_key as int) is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::add_subclass
//# ret r
//# spec
    requires s_dec_ok(*old(self))
    ensures s_dec_ok(*final(self)), s_but_vocabulary(*final(self)) == s_but_vocabulary(*old(self)), final(self).classes == old(self).classes, final(self).subsets == old(self).subsets,
        ss_add::<ClassKey>(s_strings(old(self).subclasses), s_index1(old(self).subclasses), subclass@, s_strings(final(self).subclasses), s_index1(final(self).subclasses), r)
//# replace /get_key(&subclass)/ => /get_key(vx_cow(&subclass))/
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/metadata.rs Declaration::subclass_key
//# ret r
//# spec
    ensures r == ss_lookup(s_index1(self.subclasses), subclass@)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
}
