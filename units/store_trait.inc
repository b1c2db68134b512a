pub open spec fn opt_view(o: Option<Cow<str>>) -> Option<Seq<char>> { match o { Some(c) => Some(c@), None => None } }
// the position a key stands for
pub open spec fn s_idx<Key>(k: Key) -> int where usize: TryFrom<Key> { (<usize as TryFromSpec<Key>>::try_from_spec(k)->Ok_0) as int }
pub open spec fn s_key<Key>(n: nat) -> Option<Key> where Key: TryFrom<usize> {
    if n > usize::MAX { None } else { match <Key as TryFromSpec<usize>>::try_from_spec(n as usize) { Ok(k) => Some(k), Err(_) => None } }
}
// what is needed of the key type; lemma_key_laws proves it for the two types that are used
pub open spec fn key_laws<Key>() -> bool where Key: TryFrom<usize> + Copy, usize: TryFrom<Key> {
    &&& <Key as TryFromSpec<usize>>::obeys_try_from_spec()
    &&& <usize as TryFromSpec<Key>>::obeys_try_from_spec()
    &&& forall|k: Key| (#[trigger] <usize as TryFromSpec<Key>>::try_from_spec(k)) is Ok
    &&& forall|a: Key| 0 <= #[trigger] s_idx(a) <= usize::MAX && s_key::<Key>(s_idx(a) as nat) == Some(a)
    &&& forall|n: usize| match #[trigger] <Key as TryFromSpec<usize>>::try_from_spec(n) { Ok(k) => s_idx(k) == n, Err(_) => true }
    &&& forall|a: Key, b: Key| #[trigger] cloned(a, b) ==> a == b
}
pub proof fn lemma_key_laws()
    ensures key_laws::<u16>(), key_laws::<u32>(), forall|k: u16| #[trigger] s_idx(k) == k, forall|k: u32| #[trigger] s_idx(k) == k,
        forall|n: nat| #[trigger] s_key::<u16>(n) == (if n < 0x10000 { Some(n as u16) } else { None::<u16> }),
        forall|n: nat| #[trigger] s_key::<u32>(n) == (if n < 0x1_0000_0000 && n <= usize::MAX { Some(n as u32) } else { None::<u32> }),
{
    let k: u16 = 0; let x = <usize as TryFromSpec<u16>>::try_from_spec(k);
    assert forall|k: u16| #[trigger] s_idx(k) == k by { let x = <usize as TryFromSpec<u16>>::try_from_spec(k); }
    assert forall|k: u32| #[trigger] s_idx(k) == k by { let x = <usize as TryFromSpec<u32>>::try_from_spec(k); }
    assert forall|n: nat| #[trigger] s_key::<u16>(n) == (if n < 0x10000 { Some(n as u16) } else { None::<u16> }) by {
        if n <= usize::MAX { let x = <u16 as TryFromSpec<usize>>::try_from_spec(n as usize); } }
    assert forall|n: nat| #[trigger] s_key::<u32>(n) == (if n < 0x1_0000_0000 && n <= usize::MAX { Some(n as u32) } else { None::<u32> }) by {
        if n <= usize::MAX { let x = <u32 as TryFromSpec<usize>>::try_from_spec(n as usize); } }
}

pub trait Storable<Key>: Sized {
    spec fn s_id(&self) -> Option<Seq<char>>;
    spec fn s_encodable(&self) -> bool;
    // what the item looks like once it has been told its key
    spec fn s_keyed(&self, key: Key) -> Self;
    spec fn s_own_key(&self) -> Option<Key>;
//# fn src/store.rs Storable::maybe_id
//# ret r
//# nobody
//# spec
    ensures opt_view(r) == self.s_id()
//# endfn
//# fn src/store.rs Storable::encodable
//# ret r
//# nobody
//# spec
    ensures r == self.s_encodable()
//# endfn
//# fn src/store.rs Storable::key
//# ret r
//# nobody
//# spec
    ensures r == self.s_own_key()
//# endfn
//# fn src/store.rs Storable::assign_key
//# nobody
//# spec
    ensures *final(self) == old(self).s_keyed(_key), final(self).s_id() == old(self).s_id()
//# endfn
}

// The store invariant of C01: the index and the items say the same.
pub open spec fn s_inv<T: Storable<Key>, Key>(items: Seq<Option<Box<T>>>, index: Map<String, Key>) -> bool where usize: TryFrom<Key> {
    &&& forall|s: String| #[trigger] index.contains_key(s) ==> 0 <= s_idx(index[s]) < items.len() && items[s_idx(index[s])] is Some && items[s_idx(index[s])]->0.s_id() == Some(s@)
    &&& forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]) is Some && match items[i]->0.s_id() { Some(x) => index.contains_key(string_of(x)) && s_idx(index[string_of(x)]) == i, None => true }
}
// the key of the item with that ID
pub open spec fn s_lookup<Key>(index: Map<String, Key>, id: Seq<char>) -> Option<Key> { if index.contains_key(string_of(id)) { Some(index[string_of(id)]) } else { None } }
pub open spec fn s_known<T: Storable<Key>, Key>(index: Map<String, Key>, item: T) -> Option<Key> { match item.s_id() { Some(id) => s_lookup(index, id), None => None } }
// adding the (encoded) item to a store in the state (items, index)
pub open spec fn s_add<T: Storable<Key>, Key>(items: Seq<Option<Box<T>>>, index: Map<String, Key>, item: T, items2: Seq<Option<Box<T>>>, index2: Map<String, Key>, r: Result<Key, FoliaError>) -> bool
    where Key: TryFrom<usize> + Copy, usize: TryFrom<Key>
{
    match s_known(index, item) {
        Some(k) => r == Ok::<Key, FoliaError>(k) && items2 == items && index2 == index,
        None => match s_key::<Key>(items.len()) {
            Some(k) => r == Ok::<Key, FoliaError>(k) && items2 == items.push(Some(Box::new(item.s_keyed(k))))
                && index2 == match item.s_id() { Some(id) => index.insert(string_of(id), k), None => index },
            None => r is Err && items2 == items && index2 == index,
        }
    }
}

pub broadcast proof fn lemma_s_add_inv<T: Storable<Key>, Key>(items: Seq<Option<Box<T>>>, index: Map<String, Key>, item: T, items2: Seq<Option<Box<T>>>, index2: Map<String, Key>, r: Result<Key, FoliaError>)
    where Key: TryFrom<usize> + Copy, usize: TryFrom<Key>
    requires key_laws::<Key>(), s_inv(items, index), #[trigger] s_add(items, index, item, items2, index2, r), forall|k: Key| (#[trigger] item.s_keyed(k)).s_id() == item.s_id()
    ensures s_inv(items2, index2)
{
}

pub trait Store<T,Key>: Sized where T: Storable<Key>,
                           Key: TryFrom<usize> + Copy + Debug,
                           usize: std::convert::TryFrom<Key>,
                           <usize as std::convert::TryFrom<Key>>::Error : std::fmt::Debug {
    spec fn s_items(&self) -> Seq<Option<Box<T>>>;
    spec fn s_index(&self) -> Map<String,Key>;
    // everything else: self with items and index blanked out
    spec fn s_rest(&self) -> Self;
    // what encode needs of the store and the item
    spec fn s_encode_pre(before: &Self, item: T) -> bool;
    // what encode does: (before, item, context) -> (after, result)
    spec fn s_encode(before: &Self, item: T, context: Option<Key>, after: &Self, r: Result<T, FoliaError>) -> bool;
//# fn src/store.rs Store::items_mut
//# ret r
//# spec
    ensures (*r)@ == old(self).s_items(), final(self).s_items() == (*final(r))@, final(self).s_index() == old(self).s_index(), old(self).s_rest() == final(self).s_rest()
//# endfn
//# fn src/store.rs Store::index_mut
//# ret r
//# spec
    ensures (*r)@ == old(self).s_index(), final(self).s_index() == (*final(r))@, final(self).s_items() == old(self).s_items(), old(self).s_rest() == final(self).s_rest()
//# endfn
//# fn src/store.rs Store::items
//# ret r
//# spec
    ensures r@ == self.s_items()
//# endfn
//# fn src/store.rs Store::index
//# ret r
//# spec
    ensures r@ == self.s_index()
//# endfn
//# fn src/store.rs Store::encode
//# ret r
//# nobody
//# spec
    requires Self::s_encode_pre(old(self), item)
    ensures Self::s_encode(old(self), item, _context, final(self), r),
        final(self).s_items() == old(self).s_items(), final(self).s_index() == old(self).s_index(),
        r is Ok ==> r->Ok_0.s_id() == item.s_id()
//# endfn
//# fn src/store.rs Store::add
//# ret r
//# spec
    requires key_laws::<Key>(), s_inv(old(self).s_items(), old(self).s_index()), item.s_encodable() ==> Self::s_encode_pre(old(self), item)
    ensures
        s_inv(final(self).s_items(), final(self).s_index()),
        !item.s_encodable() ==> old(self).s_rest() == final(self).s_rest() && s_add(old(self).s_items(), old(self).s_index(), item, final(self).s_items(), final(self).s_index(), r),
        item.s_encodable() ==> exists|mid: Self, e: Result<T, FoliaError>| #[trigger] Self::s_encode(old(self), item, context, &mid, e) && mid.s_rest() == final(self).s_rest()
            && mid.s_items() == old(self).s_items() && mid.s_index() == old(self).s_index()
            && match e { Ok(x) => x.s_id() == item.s_id() && s_add(old(self).s_items(), old(self).s_index(), x, final(self).s_items(), final(self).s_index(), r), Err(_) => r is Err && *final(self) == mid }
//# closure 1 |x: Cow<str>| -> (s: String) ensures s@ == x@
//# ghost start
let ghost vx_item = item;
proof { broadcast use lemma_s_add_inv; }
//# endfn
//# fn src/store.rs Store::get_key
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures r == s_known(self.s_index(), *item)
//# replace /let id: &str = id;/ => /let id: &str = vx_cow(id);/
//# closure 1 |k: &Key| -> (x: Key) ensures x == *k
//# endfn
//# fn src/store.rs Store::is_empty
//# ret r
//# spec
    ensures r == (self.s_items().len() == 0)
//# endfn
//# fn src/store.rs Store::len
//# ret r
//# spec
    ensures r == self.s_items().len()
//# endfn
//# fn src/store.rs Store::get
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures match r {
        Some(x) => s_idx(key) < self.s_items().len() && self.s_items()[s_idx(key)] is Some && *x == *self.s_items()[s_idx(key)]->0,
        None => s_idx(key) >= self.s_items().len() || self.s_items()[s_idx(key)] is None }
//# closure 1 |item: &Box<T>| -> (x: &T) ensures *x == **item
//# endfn
//# fn src/store.rs Store::get_mut
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures
        old(self).s_rest() == final(self).s_rest(), final(self).s_index() == old(self).s_index(),
        match r {
            Some(x) => s_idx(key) < old(self).s_items().len() && old(self).s_items()[s_idx(key)] is Some && *x == *old(self).s_items()[s_idx(key)]->0
                && final(self).s_items() == old(self).s_items().update(s_idx(key), Some(Box::new(*final(x)))),
            None => (s_idx(key) >= old(self).s_items().len() || old(self).s_items()[s_idx(key)] is None) && final(self).s_items() == old(self).s_items() }
//# replace /item.as_mut().map(|item| item.as_mut())/ => /vx_opt_box_mut(item)/
//# endfn
//# fn src/store.rs Store::id_to_key
//# ret r
//# spec
    requires key_laws::<Key>()
    ensures r == s_lookup(self.s_index(), id@)
//# closure 1 |vx_p: &Key| -> (x: Key) ensures x == *vx_p
//# endfn
//# fn src/store.rs Store::get_by_id
//# ret r
//# spec
    requires key_laws::<Key>(), s_inv(self.s_items(), self.s_index())
    ensures match s_lookup(self.s_index(), id@) { Some(k) => r == Some(&*self.s_items()[s_idx(k)]->0) && r->0.s_id() == Some(id@), None => r is None }
//# closure 1 |key: Key| -> (x: Option<&T>) requires s_lookup(self.s_index(), id@) == Some(key) ensures x == Some(&*self.s_items()[s_idx(key)]->0)
//# closure 2 |o: Option<&T>| -> (x: &T) requires o is Some ensures x == o->0
//# endfn
//# fn src/store.rs Store::get_mut_by_id
//# ret r
//# spec
    requires key_laws::<Key>(), s_inv(old(self).s_items(), old(self).s_index())
    ensures
        old(self).s_rest() == final(self).s_rest(), final(self).s_index() == old(self).s_index(),
        match s_lookup(old(self).s_index(), id@) {
            Some(k) => r is Some && *r->0 == *old(self).s_items()[s_idx(k)]->0 && r->0.s_id() == Some(id@) && final(self).s_items() == old(self).s_items().update(s_idx(k), Some(Box::new(*final(r->0)))),
            None => r is None && final(self).s_items() == old(self).s_items() }
//# replace /self.id_to_key(id).map( move |key| {/ => /(match self.id_to_key(id) { None => None, Some(key) => Some({/
//# replace /}).map(|o| o.unwrap())/ => /}) }).map(|o: Option<&mut T>| -> (x: &mut T) requires o is Some ensures x == o->0 { o.unwrap() })/
//# endfn
}
