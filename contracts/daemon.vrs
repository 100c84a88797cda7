//! needs
use alloc::vec::Vec;
use alloc::vec;
use alloc::string::String;
use vstd::std_specs::iter::IteratorSpec;
global size_of usize == 8;
/// which of the properties is asked for
pub open spec fn asked(p: int) -> bool { true }

// ---- what is assumed of the types of other crates
// What values and stores stand for; a store is a map (P10 to P12 are about their bytes).
pub ghost enum VM { Str(Seq<char>), Arr(Seq<VM>), Other(int) }
#[verifier::external_body]
#[derive(Debug)]
pub struct OtherValue;
impl OtherValue { pub uninterp spec fn is(&self) -> int; }
#[derive(Debug)]
pub enum Value { Array(Vec<Value>), String(String), Rest(OtherValue) }
pub open spec fn vm(v: Value) -> VM decreases v { match v { Value::Array(a) => VM::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { vm(a@[i]) } else { arbitrary() })), Value::String(s) => VM::Str(s@), Value::Rest(o) => VM::Other(o.is()) } }
impl View for Value { type V = VM; open spec fn view(&self) -> VM { vm(*self) } }
impl Value {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>) ensures r is Some == self is String, r is Some ==> r->0@ == self->String_0@ { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct Store;
pub type SM = Map<Seq<char>, VM>;
impl View for Store { type V = SM; uninterp spec fn view(&self) -> SM; }
/// bytes which stand for a store, and for no other (P12)
pub uninterp spec fn stored(b: Seq<u8>, m: SM) -> bool;
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Clone for Store { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub struct HBOccupiedEntry<'a> { pub at: String, pub store: &'a mut Store }
pub struct HBVacantEntry<'a> { pub at: String, pub store: &'a mut Store }
pub enum HBEntry<'a> { Occupied(HBOccupiedEntry<'a>), Vacant(HBVacantEntry<'a>) }
impl Store {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, VM>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn ser(&self) -> (r: Vec<u8>) ensures stored(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn deser(b: &[u8]) -> (r: Result<Store, StoreSerError>) ensures forall|m: SM| #[trigger] stored(b@, m) ==> r is Ok && r->Ok_0@ == m { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, VM>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<char>, VM>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v@), r is Some == old(self)@.contains_key(k@), r is Some ==> r->0@ == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: Option<Value>) ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.contains_key(k@), r is Some ==> r->0@ == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&Value>) ensures r is Some == self@.contains_key(k@), r is Some ==> r->0@ == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: String) -> (r: HBEntry<'a>)
        ensures match r {
            HBEntry::Occupied(o) => old(self)@.contains_key(k@) && o.at == k && o.store@ == old(self)@ && final(self)@ == final(o.store)@,
            HBEntry::Vacant(o) => !old(self)@.contains_key(k@) && o.at == k && o.store@ == old(self)@ && final(self)@ == final(o.store)@,
        }
    { unimplemented!() }
    pub fn iter(&self) -> (r: Vec<(&String, &Value)>) ensures is_entries(r@, self@) { self.entries() }
    // what it holds, in some order
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&String, &Value)>) ensures is_entries(r@, self@) { unimplemented!() }
}
pub open spec fn is_entries(s: Seq<(&String, &Value)>, m: SM) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && s[i].1@ == m[s[i].0@]
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
}
impl<'a> HBOccupiedEntry<'a> {
    #[verifier::external_body]
    pub fn insert(&mut self, v: Value) -> (r: Value) ensures r@ == (*old(self).store)@[old(self).at@], (*final(self).store)@ == (*old(self).store)@.insert(old(self).at@, v@), final(self).at == old(self).at, *final(final(self).store) == *final(old(self).store) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &Value) ensures r@ == (*old(self.store))@[self.at@] { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &String) ensures *r == self.at { unimplemented!() }
}
impl<'a> HBVacantEntry<'a> {
    #[verifier::external_body]
    pub fn insert(self, v: Value) ensures final(self.store)@ == (*old(self.store))@.insert(self.at@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &String) ensures *r == self.at { unimplemented!() }
}
// std's HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K: View, V>(core::marker::PhantomData<(K, V)>);
#[verifier::reject_recursive_types(K)]
pub struct SOccupiedEntry<'a, K: View, V> { pub at: K, pub slot: &'a mut V }
#[verifier::reject_recursive_types(K)]
pub struct SVacantEntry<'a, K: View, V> { pub at: K, pub map: &'a mut HashMap<K, V> }
#[verifier::reject_recursive_types(K)]
pub enum SEntry<'a, K: View, V> { Occupied(SOccupiedEntry<'a, K, V>), Vacant(SVacantEntry<'a, K, V>) }
impl<K: View, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r { Some(x) => old(self)@.contains_key(k@) && *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)), None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r is Some == old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: SEntry<'a, K, V>)
        ensures match r {
            SEntry::Occupied(o) => old(self)@.contains_key(k@) && o.at == k && *o.slot == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(o.slot)),
            SEntry::Vacant(v) => !old(self)@.contains_key(k@) && v.at == k && v.map@ == old(self)@ && final(self)@ == final(v.map)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K::V, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::V, V>::empty() { unimplemented!() }
    // the keys and the entries in some order, each once
    #[verifier::external_body]
    pub fn all_keys(&self) -> (r: Vec<K>) ensures self@.dom().finite(), r@.len() == self@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i])@),
        forall|k: K::V| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&K, &V)>) ensures
        forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && *r@[i].1 == self@[r@[i].0@],
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
        forall|k: K::V| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k { unimplemented!() }
}
impl<'a, K: View, V> SOccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == *old(self.slot) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'b>(&'b mut self) -> (r: &'b mut V) ensures *r == *old(self).slot, *final(self).slot == *final(r), final(self).at == old(self).at, *final(final(self).slot) == *final(old(self).slot), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) ensures *r == *old(self.slot), *final(self.slot) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V) ensures r == *old(self).slot, *final(self).slot == v, final(self).at == old(self).at, *final(final(self).slot) == *final(old(self).slot), { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.at { unimplemented!() }
}
impl<'a, K: View, V> SVacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.at@, *final(r)), { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.at { unimplemented!() }
}
impl<'a> SEntry<'a, String, Store> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut Store)
        ensures match self {
            SEntry::Occupied(_) => *r == *old(self->Occupied_0.slot) && *final(self->Occupied_0.slot) == *final(r),
            SEntry::Vacant(_) => r@ == Map::<Seq<char>, VM>::empty() && final(self->Vacant_0.map)@ == old(self->Vacant_0.map)@.insert(self->Vacant_0.at@, *final(r)),
        }
    { unimplemented!() }
}
// `cloned` of an optional reference
pub trait Duplicated<T> { fn duplicated(self) -> T; }
impl<'a> Duplicated<Option<Store>> for Option<&'a Store> { #[verifier::external_body] fn duplicated(self) -> (r: Option<Store>) ensures r is Some == self is Some, r is Some ==> r->0@ == self->0@ { unimplemented!() } }
impl<'a> Duplicated<Option<Value>> for Option<&'a Value> { #[verifier::external_body] fn duplicated(self) -> (r: Option<Value>) ensures r is Some == self is Some, r is Some ==> r->0@ == self->0@ { unimplemented!() } }
#[verifier::external_body]
#[derive(Debug)]
pub struct StoreSerError;
#[verifier::external_body]
#[derive(Debug)]
pub struct ValueSerError;
#[verifier::external_body]
#[derive(Debug)]
pub struct IntegerSerError;
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub struct StatusCode { pub code: u16 }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { code: 200 };
    pub const CREATED: StatusCode = StatusCode { code: 201 };
    pub const BAD_REQUEST: StatusCode = StatusCode { code: 400 };
    pub const NOT_FOUND: StatusCode = StatusCode { code: 404 };
    pub const CONFLICT: StatusCode = StatusCode { code: 409 };
    pub const GONE: StatusCode = StatusCode { code: 410 };
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { code: 500 };
}
// axum's Bytes
#[verifier::external_body]
#[derive(Debug)]
pub struct Bytes;
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Bytes {
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
// texts
pub trait AsText { spec fn text(&self) -> Seq<char>; fn as_text(&self) -> (r: String) ensures r@ == self.text(); }
impl AsText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
impl<'a> AsText for &'a String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
impl<'a> AsText for &'a str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
pub fn text_of<T: AsText>(t: T) -> (r: String) ensures r@ == t.text() { t.as_text() }
#[verifier::external_body]
pub fn text_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub trait StrMore {
    spec fn chars_seen(&self) -> Seq<char>;
    fn byte_len(&self) -> (r: usize) ensures ascii(self.chars_seen()) ==> r == self.chars_seen().len();
    fn all_ascii(&self) -> (r: bool) ensures r == ascii(self.chars_seen());
    fn has_any<const N: usize>(&self, c: [char; N]) -> (r: bool) ensures r == exists|i: int, j: int| 0 <= i < self.chars_seen().len() && 0 <= j < N && #[trigger] self.chars_seen()[i] == #[trigger] c@[j];
    fn same_text(&self, o: &str) -> (r: bool) ensures r == (self.chars_seen() == o@);
}
impl StrMore for str {
    open spec fn chars_seen(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn byte_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn all_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn has_any<const N: usize>(&self, c: [char; N]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn same_text(&self, o: &str) -> (r: bool) { unimplemented!() }
}

// ---- what the daemon shares between its operations
pub type DB = Map<Seq<char>, SM>;
pub open spec fn dv(m: Map<Seq<char>, Store>) -> DB { m.map_values(|s: Store| s@) }
// The mutex around the databases: others change them (keeping to what holds whenever the lock is free) until the lock is taken, and not while it is held.
pub struct Shared { pub now: HashMap<String, Store>, pub was: Ghost<DB> }
impl Shared {
    /// the databases
    pub open spec fn view(&self) -> DB { dv(self.now@) }
    /// the databases when the lock was taken
    pub open spec fn taken(&self) -> DB { self.was@ }
    pub open spec fn same(&self) -> bool { self@ == self.taken() }
    #[verifier::external_body]
    pub fn lock<'a>(&'a mut self, c: &mut Cache) -> (r: &'a mut HashMap<String, Store>)
        requires old(self).same(), // (each operation changes the databases under one lock)
        ensures final(self).taken() == dv(r@), final(self).now == *final(r), names_ok(dv(r@)), cache_ok(dv(r@), final(c)@),
    { unimplemented!() }
}
// moka's cache: what was put in is there or has been evicted
#[verifier::external_body]
#[derive(Debug)]
pub struct Cache;
impl View for Cache { type V = Map<Seq<char>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<u8>>; }
impl Cache {
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<Bytes>) ensures r is Some ==> self@.contains_key(k@) && r->0@ == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, Ghost(held): Ghost<bool>, k: String, v: Bytes)
        requires asked(17) ==> held, // bytes are only put into the cache while no other operation can replace the contents
        ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn invalidate(&mut self, k: &String) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn invalidate_all(&mut self) ensures final(self)@ == Map::<Seq<char>, Seq<u8>>::empty() { unimplemented!() }
}
/// what is cached are the bytes of the contents
pub open spec fn cache_ok(d: DB, c: Map<Seq<char>, Seq<u8>>) -> bool { forall|n: Seq<char>| #[trigger] c.contains_key(n) ==> d.contains_key(n) && stored(c[n], d[n]) }
pub open spec fn names_ok(d: DB) -> bool { forall|n: Seq<char>| #[trigger] d.contains_key(n) ==> valid_name(n) }
pub open spec fn valid_name(n: Seq<char>) -> bool {
    n != "meta"@ && ascii(n) && n.len() <= 247 && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '/' && n[i] != '\\' && n[i] != '\0'
}

//@src crates/sourisd/src/v1_routes/state.rs
//@always `.await` => `` -- what an async function does between its suspensions is what a function does
//@always `trace!($x_);` => `` -- logging
//@always `error!($x_);` => `` -- logging
//@always `info!($x_);` => `` -- logging
//@always `trace!($x_)` => `()` -- logging
//@always `error!($x_)` => `()` -- logging
//@always `info!($x_)` => `()` -- logging
//@always `String::from(` => `text_of(` -- texts
//@always `.cloned()` => `.duplicated()` -- Option's cloned
//@always `.keys().duplicated().collect()` => `.all_keys()` -- the keys in some order
//@always `self.db_cache.insert(` => `self.db_cache.insert(Ghost(held), ` -- a ghost argument: whether the lock is held
//@formats
//@patterns
//@guard `self.dbs.lock()` => `self.dbs.lock(&mut self.db_cache)` after `proof { held = true; }` end `proof { held = false; }` brief `self.dbs.lock(&mut self.db_cache)`

//@fn - | is_valid_db_name
        ensures asked(16) ==> r == valid_name(name@), asked(18) ==> r ==> valid_name(name@),
//@rw? `const MAX_LEN: usize = $x;` => `let MAX_LEN: usize = $x;` -- a constant
//@rw? `name != $x` => `!name.same_text($x)` -- comparing texts
//@rw? `.len()` => `.byte_len()` -- str's len
//@rw? `.is_ascii()` => `.all_ascii()` -- str's is_ascii
//@rw? `.contains(` => `.has_any(` -- str's contains
//@entry
        proof { reveal_strlit(".sdb.tmp"); assert(ascii(".sdb.tmp"@)); reveal_strlit(".sdb"); assert(ascii(".sdb"@)); reveal_strlit(".tmp"); assert(ascii(".tmp"@)); }
//@end

// ---- files
// The text of a path; joining puts a separator in between.
#[verifier::external_body]
#[derive(Debug)]
pub struct PathBuf;
pub type Path = PathBuf;
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub open spec fn joined(b: Seq<char>, f: Seq<char>) -> Seq<char> { b + (seq!['/'] + f) }
impl PathBuf {
    #[verifier::external_body]
    pub fn from<T: AsText>(t: T) -> (r: PathBuf) ensures r@ == t.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsText) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn join<T: AsText>(&self, f: T) -> (r: PathBuf) ensures r@ == joined(self@, f.text()) { unimplemented!() }
}
// std's OsString and OsStr
#[verifier::external_body]
#[derive(Debug)]
pub struct OsText;
impl View for OsText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsText {
    #[verifier::external_body]
    pub fn to_os_string(&self) -> (r: OsText) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: AsText>(&mut self, t: T) ensures final(self)@ == old(self)@ + t.text() { unimplemented!() }
}
// what is taken for a path (std's AsRef<Path>)
pub trait PathLike { spec fn at(&self) -> Seq<char>; fn as_ref(&self) -> (r: &PathBuf) ensures r@ == self.at(); }
impl PathLike for PathBuf { open spec fn at(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } }
impl PathLike for OsText { open spec fn at(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } }
impl<'a, T: PathLike> PathLike for &'a T { open spec fn at(&self) -> Seq<char> { (**self).at() } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } }
/// the file of a database, and of the list of databases
pub open spec fn file_of(b: Seq<char>, n: Seq<char>) -> Seq<char> { joined(b, n + ".sdb"@) }
pub open spec fn meta_file(b: Seq<char>) -> Seq<char> { joined(b, "meta.sdb"@) }
pub open spec fn flat(f: Seq<char>) -> bool { forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] != '/' }
/// is this the name of a file with contents to be kept?
pub open spec fn kept(p: Seq<char>) -> bool { p.len() >= 4 && p.skip(p.len() - 4) == ".sdb"@ }
pub open spec fn directly_in(p: Seq<char>, b: Seq<char>) -> bool { exists|f: Seq<char>| flat(f + ".tmp"@) && p == #[trigger] joined(b, f) }
// What the files hold: `files` those whose names end in .sdb, which are only replaced whole (`seen` is what they held after each step),
// `temps` any others, of which it is remembered whether what was written has been reported to be complete, and has been made durable.
// Any operation can fail, which adds to `faults`.
#[verifier::external_body]
#[derive(Debug)]
pub struct Disk;
pub ghost struct Temp { pub bytes: Seq<u8>, pub flushed: bool, pub synced: bool }
pub ghost struct Files { pub files: Map<Seq<char>, Seq<u8>>, pub faults: nat, pub seen: Seq<Map<Seq<char>, Seq<u8>>>, pub temps: Map<Seq<char>, Temp>, pub dirs: Set<Seq<char>> }
impl Files {
    pub open spec fn faulty(self) -> Files { Files { faults: self.faults + 1, ..self } }
    pub open spec fn now(self, f: Map<Seq<char>, Seq<u8>>) -> Files { Files { files: f, seen: self.seen.push(f), ..self } }
    pub open spec fn temp(self, p: Seq<char>, t: Temp) -> Files { Files { temps: self.temps.insert(p, t), ..self } }
    /// the same apart from temporary files and directories
    pub open spec fn like(self, o: Files) -> bool { self.files == o.files && self.seen == o.seen }
}
impl View for Disk { type V = Files; uninterp spec fn view(&self) -> Files; }
#[verifier::external_body]
#[derive(Debug)]
pub struct IOError;
#[derive(PartialEq, Eq, Structural, Clone, Copy, Debug)]
pub enum ErrorKind { NotFound, Other }
impl IOError {
    pub uninterp spec fn is(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.is() { unimplemented!() }
}
/// a file being read: what is to come
#[verifier::external_body]
#[derive(Debug)]
pub struct File;
pub ghost struct Opened { pub path: Seq<char>, pub rest: Seq<u8> }
impl View for File { type V = Opened; uninterp spec fn view(&self) -> Opened; }
impl File {
    // nothing is changed by opening a file for reading
    #[verifier::external_body]
    pub fn write_all(&mut self, disk: &mut Disk, b: &[u8]) -> (r: Result<(), IOError>)
        requires old(disk)@.temps.contains_key(old(self)@.path)
        ensures final(self)@ == old(self)@, ({
            let p = old(self)@.path; let t = old(disk)@.temps[p]; let o = old(disk)@; let n = final(disk)@;
            match r {
                Ok(_) => n == o.temp(p, Temp { bytes: t.bytes + b@, flushed: false, synced: false }),
                Err(_) => exists|x: Temp| n == #[trigger] o.faulty().temp(p, x),
            } })
    { unimplemented!() }
    // whether all of what was written has been written is only told by this
    #[verifier::external_body]
    pub fn flush(&mut self, disk: &mut Disk) -> (r: Result<(), IOError>)
        requires old(disk)@.temps.contains_key(old(self)@.path)
        ensures final(self)@ == old(self)@, ({
            let p = old(self)@.path; let t = old(disk)@.temps[p]; let o = old(disk)@; let n = final(disk)@;
            match r {
                Ok(_) => n == o.temp(p, Temp { flushed: true, ..t }),
                Err(_) => exists|x: Temp| n == #[trigger] o.faulty().temp(p, x),
            } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&mut self, disk: &mut Disk) -> (r: Result<(), IOError>)
        requires old(disk)@.temps.contains_key(old(self)@.path)
        ensures final(self)@ == old(self)@, ({
            let p = old(self)@.path; let t = old(disk)@.temps[p]; let o = old(disk)@; let n = final(disk)@;
            match r {
                Ok(_) => n == o.temp(p, Temp { synced: true, ..t }),
                Err(_) => exists|x: Temp| n == #[trigger] o.faulty().temp(p, x),
            } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read<const N: usize>(&mut self, disk: &mut Disk, b: &mut [u8; N]) -> (r: Result<usize, IOError>)
        ensures match r {
            Ok(n) => final(disk)@ == old(disk)@ && n <= N && n <= old(self)@.rest.len() && (n == 0 ==> N == 0 || old(self)@.rest.len() == 0)
                && final(b)@.take(n as int) == old(self)@.rest.take(n as int) && final(self)@ == (Opened { rest: old(self)@.rest.skip(n as int), ..old(self)@ }),
            Err(_) => final(disk)@ == old(disk)@.faulty(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, disk: &mut Disk, b: &mut Vec<u8>) -> (r: Result<usize, IOError>)
        ensures match r {
            Ok(n) => final(disk)@ == old(disk)@ && final(b)@ == old(b)@ + old(self)@.rest && final(self)@ == (Opened { rest: Seq::empty(), ..old(self)@ }),
            Err(_) => final(disk)@ == old(disk)@.faulty(),
        }
    { unimplemented!() }
}
impl Disk {
    #[verifier::external_body]
    pub fn remove_file<P: PathLike>(&mut self, Ghost(held): Ghost<bool>, p: P) -> (r: Result<(), IOError>)
        requires asked(19) ==> held, // not while the databases are being saved
        ensures match r {
            Ok(_) => final(self)@ == old(self)@.now(old(self)@.files.remove(p.at())) && old(self)@.files.contains_key(p.at()),
            Err(e) => final(self)@ == old(self)@ && e.is() is NotFound && !old(self)@.files.contains_key(p.at()) || final(self)@ == old(self)@.faulty() && !(e.is() is NotFound),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<P: PathLike>(&mut self, p: P) -> (r: Result<(), IOError>)
        ensures final(self)@ == match r { Ok(_) => Files { dirs: old(self)@.dirs.insert(p.at()), ..old(self)@ }, Err(e) => old(self)@.faulty() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: PathLike>(&mut self, p: P) -> (r: Result<File, IOError>)
        requires asked(19) ==> !kept(p.at()), // (it would lose what the file held)
        ensures match r {
            Ok(f) => final(self)@ == old(self)@.temp(p.at(), Temp { bytes: Seq::empty(), flushed: true, synced: false }) && f@.path == p.at(),
            Err(e) => final(self)@ == old(self)@ && e.is() is NotFound && (forall|d: Seq<char>, f: Seq<char>| #[trigger] joined(d, f) == p.at() && flat(f) ==> !old(self)@.dirs.contains(d)) || final(self)@ == old(self)@.faulty() && !(e.is() is NotFound),
        }
    { unimplemented!() }
    // Replaces the file at once.  The caller holds the lock, so that the files and the list of them agree.
    #[verifier::external_body]
    pub fn rename<P: PathLike, Q: PathLike>(&mut self, Ghost(held): Ghost<bool>, a: P, b: Q) -> (r: Result<(), IOError>)
        requires old(self)@.temps.contains_key(a.at()), asked(19) ==> held && kept(b.at()) && old(self)@.temps[a.at()].flushed && old(self)@.temps[a.at()].synced,
        ensures match r {
            Ok(_) => final(self)@ == old(self)@.now(old(self)@.files.insert(b.at(), old(self)@.temps[a.at()].bytes)),
            Err(_) => final(self)@ == old(self)@.faulty(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: PathLike>(&mut self, p: P) -> (r: Result<File, IOError>)
        ensures match r {
            Ok(f) => final(self)@ == old(self)@ && old(self)@.files.contains_key(p.at()) && f@.rest == old(self)@.files[p.at()],
            Err(e) => final(self)@ == old(self)@ && e.is() is NotFound && !old(self)@.files.contains_key(p.at()) || final(self)@ == old(self)@.faulty() && !(e.is() is NotFound),
        }
    { unimplemented!() }
}
pub fn drop<T>(t: T) { }
// color_eyre's Report
#[verifier::external_body]
#[derive(Debug)]
pub struct Report;
impl Report { #[verifier::external_body] pub fn of() -> Report { unimplemented!() } }
//@each t=IOError | t=StoreSerError
impl From<${t}> for Report { #[verifier::external_body] fn from(e: ${t}) -> Report { unimplemented!() } }
//@endeach

//@src crates/sourisd/src/error.rs
//@item - | enum SourisError
impl vstd::std_specs::convert::FromSpecImpl<IOError> for SourisError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IOError) -> Self { SourisError::IO(v) }
}
impl From<IOError> for SourisError {
//@fn impl From<IOError> for SourisError | from nopub
//@end
}
//@each t=StoreSerError,c=StoreError | t=ValueSerError,c=ValueError | t=IntegerSerError,c=IntegerSerError
impl vstd::std_specs::convert::FromSpecImpl<${t}> for SourisError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ${t}) -> Self { SourisError::${c}(v) }
}
impl From<${t}> for SourisError {
//@fn impl From<${t}> for SourisError | from nopub
//@end
}
//@endeach
// `?` converts errors with From::from
#[verifier::external_body]
pub proof fn axiom_question_mark() ensures forall|v: StoreSerError, e: SourisError| #[trigger] vstd::std_specs::control_flow::spec_from::<SourisError, StoreSerError>(v, e) ==> e == SourisError::StoreError(v) {}
/// the status an error is reported with
pub open spec fn status_of(e: SourisError) -> int {
    match e { SourisError::DatabaseNotFound => 410, SourisError::IO(_) => 500, _ => 400 }
}
pub struct Response { pub status: u16 }
impl Response {
    // a response with a status (and a text)
    pub fn of(s: StatusCode) -> (r: Response) ensures r.status == s.code { Response { status: s.code } }
}
impl SourisError {
//@fn impl IntoResponse for SourisError | into_response
        ensures asked(16) ==> r.status == status_of(self),
//@rw? `($c, $f).into_response()` => `Response::of($c)` -- a response with a status and a text
//@rw? `$c.into_response()` => `Response::of($c)` -- a response with a status
//@end
}

//@src crates/sourisd/src/v1_routes/value.rs
//@item - | struct KeyAndDb
//@item - | struct NewKeyArgs
//@src crates/sourisdb/src/client.rs
//@item - | enum CreationResult

// ---- the operations
//@src crates/sourisd/src/v1_routes/state.rs
pub struct SourisState { pub base_location: PathBuf, pub dbs: Shared, pub db_cache: Cache, pub disk: Disk }
impl SourisState {
    /// what holds before and after each operation
    pub open spec fn good(&self) -> bool { cache_ok(self.dbs@, self.db_cache@) && names_ok(self.dbs@) && self.dbs.same() }
}
/// what holds after an operation which changed the databases from `was` to `now`
pub open spec fn after(o: SourisState, s: SourisState) -> bool {
    &&& s.base_location == o.base_location
    &&& asked(17) ==> cache_ok(s.dbs@, s.db_cache@)
    &&& asked(18) ==> names_ok(s.dbs@)
}
pub type Outcome<T> = Result<T, SourisError>;
/// databases after d came to hold m
pub open spec fn with(x: DB, d: Seq<char>, m: SM) -> DB { x.insert(d, m) }
pub open spec fn none() -> SM { Map::<Seq<char>, VM>::empty() }
pub open spec fn did_new(was: DB, now: DB, r: Outcome<StatusCode>, n: Seq<char>, over: bool) -> bool {
    if !valid_name(n) { now == was && r is Err && r->Err_0 is InvalidDatabaseName }
    else if was.contains_key(n) { r is Ok && r->Ok_0.code == 200 && now == if over { with(was, n, none()) } else { was } }
    else { r is Ok && r->Ok_0.code == 201 && now == with(was, n, none()) }
}
pub open spec fn did_new_with(was: DB, now: DB, r: Outcome<StatusCode>, n: Seq<char>, over: bool, c: SM) -> bool {
    if !valid_name(n) { now == was && r is Err && r->Err_0 is InvalidDatabaseName }
    else if was.contains_key(n) { r is Ok && r->Ok_0.code == 200 && now == with(was, n, if over { c } else { was[n].union_prefer_right(c) }) }
    else { r is Ok && r->Ok_0.code == 201 && now == with(was, n, c) }
}
pub open spec fn did_clear(was: DB, now: DB, r: Outcome<()>, n: Seq<char>) -> bool {
    if was.contains_key(n) { r is Ok && now == with(was, n, none()) } else { r is Err && r->Err_0 is DatabaseNotFound && now == was }
}
pub open spec fn did_remove(was: DB, now: DB, r: Outcome<()>, n: Seq<char>, faulty: bool) -> bool {
    if was.contains_key(n) { (r is Ok && now == was.remove(n)) || (faulty && r is Err && r->Err_0 is IO && (now == was.remove(n) || now == was)) } else { r is Err && r->Err_0 is DatabaseNotFound && now == was }
}
pub open spec fn did_add(was: DB, now: DB, r: Outcome<CreationResult>, a: NewKeyArgs, v: VM) -> bool {
    let n = a.db_name@; let k = a.key@;
    if was.contains_key(n) {
        r is Ok && if was[n].contains_key(k) {
            if a.overwrite_key { r->Ok_0 is OverwroteKeyInExistingDB && now == with(was, n, was[n].insert(k, v)) } else { r->Ok_0 is FoundExistingKey && now == was }
        } else { r->Ok_0 is InsertedKeyIntoExistingDB && now == with(was, n, was[n].insert(k, v)) }
    } else if !a.create_new_database { r is Ok && r->Ok_0 is UnableToFindDB && now == was }
    else if !valid_name(n) { r is Err && r->Err_0 is InvalidDatabaseName && now == was }
    else { r is Ok && r->Ok_0 is InsertedKeyIntoNewDB && now == with(was, n, none().insert(k, v)) }
}
pub open spec fn did_remove_key(was: DB, now: DB, r: Outcome<()>, a: KeyAndDb) -> bool {
    let n = a.db_name@; let k = a.key@;
    if !was.contains_key(n) { r is Err && r->Err_0 is DatabaseNotFound && now == was }
    else if !was[n].contains_key(k) { r is Err && r->Err_0 is KeyNotFound && now == was }
    else { r is Ok && now == with(was, n, was[n].remove(k)) }
}
pub open spec fn did_get_value(was: DB, now: DB, r: Outcome<Value>, a: KeyAndDb) -> bool {
    let n = a.db_name@; let k = a.key@;
    now == was && if !was.contains_key(n) { r is Err && r->Err_0 is DatabaseNotFound } else if !was[n].contains_key(k) { r is Err && r->Err_0 is KeyNotFound } else { r is Ok && r->Ok_0@ == was[n][k] }
}
/// what a whole database is read as: its contents when the request came in, or when the lock was taken
pub open spec fn did_get(first: DB, was: DB, now: DB, r: Outcome<Bytes>, n: Seq<char>) -> bool {
    match r {
        Ok(b) => (first.contains_key(n) && stored(b@, first[n])) || (was.contains_key(n) && stored(b@, was[n])),
        Err(e) => e is DatabaseNotFound && !was.contains_key(n),
    }
}
/// `s` with the first i of some entries put in
pub open spec fn filled(s: SM, e: Seq<(&String, &Value)>, i: nat) -> SM decreases i { if i == 0 || i > e.len() { s } else { filled(s, e, (i - 1) as nat).insert(e[i - 1].0@, e[i - 1].1@) } }
pub proof fn lemma_filled(s: SM, e: Seq<(&String, &Value)>, m: SM, i: nat)
    requires is_entries(e, m), i <= e.len()
    ensures forall|k: Seq<char>| #[trigger] filled(s, e, i).contains_key(k) == (s.contains_key(k) || exists|j: int| 0 <= j < i && (#[trigger] e[j]).0@ == k),
        forall|k: Seq<char>| #[trigger] filled(s, e, i).contains_key(k) ==> filled(s, e, i)[k] == if (exists|j: int| 0 <= j < i && (#[trigger] e[j]).0@ == k) { m[k] } else { s[k] },
        i == e.len() ==> filled(s, e, i) == s.union_prefer_right(m),
    decreases i
{
    if i > 0 {
        lemma_filled(s, e, m, (i - 1) as nat);
        assert forall|k: Seq<char>| #[trigger] filled(s, e, i).contains_key(k) == (s.contains_key(k) || exists|j: int| 0 <= j < i && (#[trigger] e[j]).0@ == k) by {
            if k == e[i - 1].0@ { } else { assert(filled(s, e, (i - 1) as nat).contains_key(k) == filled(s, e, i).contains_key(k)); }
        }
        assert forall|k: Seq<char>| #[trigger] filled(s, e, i).contains_key(k) implies filled(s, e, i)[k] == if (exists|j: int| 0 <= j < i && (#[trigger] e[j]).0@ == k) { m[k] } else { s[k] } by {
            if k == e[i - 1].0@ { } else { assert(filled(s, e, (i - 1) as nat).contains_key(k)); }
        }
    }
    if i == e.len() {
        let u = s.union_prefer_right(m);
        assert forall|k: Seq<char>| filled(s, e, i).contains_key(k) == u.contains_key(k) by { if m.contains_key(k) { } }
        assert forall|k: Seq<char>| filled(s, e, i).contains_key(k) implies filled(s, e, i)[k] == u[k] by { if m.contains_key(k) { } else if exists|j: int| 0 <= j < i && (#[trigger] e[j]).0@ == k { } }
        assert(filled(s, e, i) =~= u);
    }
}
/// nothing was changed by putting in what was there
pub proof fn lemma_dv(m: Map<Seq<char>, Store>, n: Seq<char>, s: Store)
    ensures dv(m.insert(n, s)) == dv(m).insert(n, s@), dv(m.remove(n)) == dv(m).remove(n), m.contains_key(n) ==> dv(m)[n] == m[n]@, dv(m).contains_key(n) == m.contains_key(n),
        dv(m).contains_key(n) && dv(m)[n] == s@ ==> dv(m).insert(n, s@) == dv(m),
{ assert(dv(m.insert(n, s)) =~= dv(m).insert(n, s@)); assert(dv(m.remove(n)) =~= dv(m).remove(n)); if dv(m).contains_key(n) && dv(m)[n] == s@ { assert(dv(m).insert(n, s@) =~= dv(m)); } }
pub proof fn lemma_dvs() ensures forall|m: Map<Seq<char>, Store>, n: Seq<char>, s: Store| #[trigger] dv(m.insert(n, s)) == dv(m).insert(n, s@), forall|m: Map<Seq<char>, Store>, n: Seq<char>| #[trigger] dv(m.remove(n)) == dv(m).remove(n),
        forall|m: Map<Seq<char>, Store>, n: Seq<char>| #[trigger] dv(m).contains_key(n) == m.contains_key(n), forall|m: Map<Seq<char>, Store>, n: Seq<char>| m.contains_key(n) ==> #[trigger] dv(m)[n] == m[n]@, forall|x: DB, n: Seq<char>, m: SM| x.contains_key(n) && x[n] == m ==> #[trigger] x.insert(n, m) == x,
        forall|x: SM, k: Seq<char>| !x.contains_key(k) ==> #[trigger] x.remove(k) == x, forall|x: DB, k: Seq<char>| !x.contains_key(k) ==> #[trigger] x.remove(k) == x,
        forall|x: Map<Seq<char>, Store>, k: Seq<char>| !x.contains_key(k) ==> #[trigger] x.remove(k) == x,
{
    assert forall|x: DB, k: Seq<char>| !x.contains_key(k) implies #[trigger] x.remove(k) == x by { assert(x.remove(k) =~= x); }
    assert forall|x: Map<Seq<char>, Store>, k: Seq<char>| !x.contains_key(k) implies #[trigger] x.remove(k) == x by { assert(x.remove(k) =~= x); } 
    assert forall|x: DB, n: Seq<char>, m: SM| x.contains_key(n) && x[n] == m implies #[trigger] x.insert(n, m) == x by { assert(x.insert(n, m) =~= x); }
    assert forall|x: SM, k: Seq<char>| !x.contains_key(k) implies #[trigger] x.remove(k) == x by { assert(x.remove(k) =~= x); }
    assert forall|m: Map<Seq<char>, Store>, n: Seq<char>, s: Store| #[trigger] dv(m.insert(n, s)) == dv(m).insert(n, s@) by { lemma_dv(m, n, s); }
    assert forall|m: Map<Seq<char>, Store>, n: Seq<char>| #[trigger] dv(m.remove(n)) == dv(m).remove(n) by { assert(dv(m.remove(n)) =~= dv(m).remove(n)); }
}

impl SourisState {
//@fn impl SourisState | new_db
        requires old(self).good(),
        ensures asked(16) ==> did_new(final(self).dbs.taken(), final(self).dbs@, r, name@, overwrite_existing), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@rw? `is_valid_db_name(&name)` => `is_valid_db_name(name.as_str())` -- a String is its str
//@entry
        let ghost mut held = false; let ghost nm = name@; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | new_db_with_contents
        requires old(self).good(),
        ensures asked(16) ==> did_new_with(final(self).dbs.taken(), final(self).dbs@, r, name@, overwrite_existing, contents@), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@rw? `is_valid_db_name(&name)` => `is_valid_db_name(name.as_str())` -- a String is its str
//@rw? `in &*contents {` => `in contents.iter() {` -- what a store derefs to
//@entry
        let ghost mut held = false; let ghost nm = name@; let ghost cm = contents@; proof { lemma_dvs(); }
//@after `let current =`
        let ghost c0 = current@;
//@iter 0 it
//@loop 0
                    invariant is_entries(it.seq(), cm), asked(16) ==> current@ == filled(c0, it.seq(), it.index() as nat), asked(16) && it.index() == it.seq().len() ==> current@ == c0.union_prefer_right(cm),
//@into 0
                    let ghost ix = it.index() as int; proof { lemma_filled(c0, it.seq(), cm, it.seq().len()); }
//@exit
        proof { assert(none().union_prefer_right(cm) =~= cm); }
//@end
//@fn impl SourisState | clear_db
        requires old(self).good(),
        ensures asked(16) ==> did_clear(final(self).dbs.taken(), final(self).dbs@, r, name@), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@entry
        let ghost mut held = false; let ghost nm = name@; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | remove_db
        requires old(self).good(),
        ensures asked(16) ==> did_remove(final(self).dbs.taken(), final(self).dbs@, r, name@, final(self).disk@.faults != old(self).disk@.faults), after(*old(self), *final(self)),
            asked(18) || asked(19) ==> final(self).disk@.files == old(self).disk@.files || final(self).disk@.files == old(self).disk@.files.remove(file_of(old(self).base_location@, name@)),
            asked(19) && r is Ok ==> !final(self).disk@.files.contains_key(file_of(old(self).base_location@, name@)),
//@mutself
//@rw? `tokio::fs::remove_file(` => `self.disk.remove_file(Ghost(held), ` -- a ghost argument: whether the lock is held
//@entry
        let ghost mut held = false; let ghost nm = name@; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | get_db
        requires old(self).good(),
        ensures asked(16) || asked(17) ==> did_get(old(self).dbs@, final(self).dbs.taken(), final(self).dbs@, r, name@), asked(16) ==> final(self).dbs.same(), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@entry
        let ghost mut held = false; let ghost nm = name@; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | add_key_value_pair
        requires old(self).good(),
        ensures asked(16) ==> did_add(final(self).dbs.taken(), final(self).dbs@, r, arg1, v@), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@rw? `is_valid_db_name(vac.key())` => `is_valid_db_name(vac.key().as_str())` -- a String is its str
//@rw? `is_valid_db_name(&db_name)` => `is_valid_db_name(db_name.as_str())` -- a String is its str
//@entry
        let ghost mut held = false; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | get_value
        requires old(self).good(),
        ensures asked(16) ==> did_get_value(final(self).dbs.taken(), final(self).dbs@, r, arg1), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@entry
        let ghost mut held = false; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | remove_key
        requires old(self).good(),
        ensures asked(16) ==> did_remove_key(final(self).dbs.taken(), final(self).dbs@, r, arg1), after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@entry
        let ghost mut held = false; proof { lemma_dvs(); }
//@end
//@fn impl SourisState | get_all_db_names
        requires old(self).good(),
        ensures asked(16) ==> final(self).dbs.same() && r@.len() == final(self).dbs@.dom().len() && (forall|i: int| 0 <= i < r@.len() ==> final(self).dbs@.contains_key((#[trigger] r@[i])@))
                && forall|n: Seq<char>| #[trigger] final(self).dbs@.contains_key(n) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == n,
            after(*old(self), *final(self)), final(self).disk == old(self).disk,
//@mutself
//@entry
        let ghost mut held = false; proof { lemma_dvs(); }
//@end
}

// ---- what requests are answered with
pub struct State<T>(pub T);
pub struct Query<T>(pub T);
pub struct Json<T>(pub T);
//@src crates/sourisd/src/v1_routes/db.rs
//@item - | struct NewDB
//@item - | struct DbByName
//@always `State<SourisState>` => `State<&mut SourisState>` -- the shared state
//@fn - | add_db id daemon::add_db
        requires old(arg0.0).good(),
        ensures asked(16) ==> did_new(final(arg0.0).dbs.taken(), final(arg0.0).dbs@, r, arg1.0.db_name@, arg1.0.overwrite_existing), after(*old(arg0.0), *final(arg0.0)),
//@end
//@fn - | add_db_with_content id daemon::add_db_with_content
        requires old(arg0.0).good(),
        ensures asked(16) ==> (r is Err && r->Err_0 is StoreError && final(arg0.0).dbs@ == old(arg0.0).dbs@)
                || exists|m: SM| #[trigger] did_new_with(final(arg0.0).dbs.taken(), final(arg0.0).dbs@, r, arg1.0.db_name@, arg1.0.overwrite_existing, m),
            asked(16) ==> forall|m: SM| #[trigger] stored(body@, m) ==> did_new_with(final(arg0.0).dbs.taken(), final(arg0.0).dbs@, r, arg1.0.db_name@, arg1.0.overwrite_existing, m),
            after(*old(arg0.0), *final(arg0.0)),
//@entry
    proof { axiom_question_mark(); }
//@end
//@fn - | clear_db id daemon::clear_db
        requires old(arg0.0).good(),
        ensures asked(16) ==> did_clear(final(arg0.0).dbs.taken(), final(arg0.0).dbs@, forget(r), arg1.0.db_name@) && (r is Ok ==> r->Ok_0.code == 200), after(*old(arg0.0), *final(arg0.0)),
//@end
//@fn - | remove_db id daemon::remove_db
        requires old(arg0.0).good(),
        ensures asked(16) ==> did_remove(final(arg0.0).dbs.taken(), final(arg0.0).dbs@, forget(r), arg1.0.db_name@, final(arg0.0).disk@.faults != old(arg0.0).disk@.faults) && (r is Ok ==> r->Ok_0.code == 200), after(*old(arg0.0), *final(arg0.0)),
            asked(18) || asked(19) ==> final(arg0.0).disk@.files == old(arg0.0).disk@.files || final(arg0.0).disk@.files == old(arg0.0).disk@.files.remove(file_of(old(arg0.0).base_location@, arg1.0.db_name@)),
//@end
//@fn - | get_db id daemon::get_db
        requires old(arg0.0).good(),
        ensures asked(16) || asked(17) ==> did_get(old(arg0.0).dbs@, final(arg0.0).dbs.taken(), final(arg0.0).dbs@, r, arg1.0.db_name@), asked(16) ==> final(arg0.0).dbs.same(), after(*old(arg0.0), *final(arg0.0)),
//@end
//@fn - | get_all_dbs id daemon::get_all_dbs
        requires old(arg0.0).good(),
        ensures asked(16) ==> final(arg0.0).dbs.same() && r.0@.len() == final(arg0.0).dbs@.dom().len() && (forall|i: int| 0 <= i < r.0@.len() ==> final(arg0.0).dbs@.contains_key((#[trigger] r.0@[i])@))
                && forall|n: Seq<char>| #[trigger] final(arg0.0).dbs@.contains_key(n) ==> exists|i: int| 0 <= i < r.0@.len() && (#[trigger] r.0@[i])@ == n,
            after(*old(arg0.0), *final(arg0.0)),
//@end
//@src crates/sourisd/src/v1_routes/value.rs
//@fn - | add_kv id daemon::add_kv
        requires old(arg1.0).good(),
        ensures asked(16) ==> did_add(final(arg1.0).dbs.taken(), final(arg1.0).dbs@, match r { Ok(j) => Ok(j.0), Err(e) => Err(e) }, arg0.0, value@), after(*old(arg1.0), *final(arg1.0)),
//@end
//@fn - | get_value id daemon::get_value
        requires old(arg1.0).good(),
        ensures asked(16) ==> did_get_value(final(arg1.0).dbs.taken(), final(arg1.0).dbs@, r, arg0.0), after(*old(arg1.0), *final(arg1.0)),
//@end
//@fn - | rm_key id daemon::rm_key
        requires old(arg1.0).good(),
        ensures asked(16) ==> did_remove_key(final(arg1.0).dbs.taken(), final(arg1.0).dbs@, forget(r), arg0.0) && (r is Ok ==> r->Ok_0.code == 200), after(*old(arg1.0), *final(arg1.0)),
//@end
pub open spec fn forget(r: Outcome<StatusCode>) -> Outcome<()> { match r { Ok(_) => Ok(()), Err(e) => Err(e) } }

// ---- saving and loading
//@src crates/sourisd/src/v1_routes/state.rs
impl HashMap<String, Store> {
    pub fn iter(&self) -> (r: Vec<(&String, &Store)>) ensures
        forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && *r@[i].1 == self@[r@[i].0@],
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
        forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k { self.entries() }
}
impl Shared { pub fn new(m: HashMap<String, Store>) -> (r: Shared) ensures r.now == m, r.same() { let ghost g = dv(m@); Shared { now: m, was: Ghost(g) } } }
impl Cache { #[verifier::external_body] pub fn new(n: u64) -> (r: Cache) ensures r@ == Map::<Seq<char>, Seq<u8>>::empty() { unimplemented!() } }
//@item mod meta | const META_DB_FILE_NAME
//@item mod meta | const DB_FILE_NAMES_KEY
/// the names which a list of databases has
pub open spec fn listed(m: SM, names: Set<Seq<char>>) -> bool {
    m.contains_key(DB_FILE_NAMES_KEY@) && m[DB_FILE_NAMES_KEY@] is Arr && forall|n: Seq<char>| #[trigger] names.contains(n) == lists(m[DB_FILE_NAMES_KEY@]->Arr_0, n)
}
pub open spec fn lists(a: Seq<VM>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] a[i] == VM::Str(n) }
pub open spec fn is_meta(b: Seq<u8>, names: Set<Seq<char>>) -> bool { exists|m: SM| #[trigger] stored(b, m) && listed(m, names) }
/// files are those for databases d
pub open spec fn saved(f: Map<Seq<char>, Seq<u8>>, b: Seq<char>, d: DB) -> bool {
    &&& f.contains_key(meta_file(b)) && is_meta(f[meta_file(b)], d.dom())
    &&& forall|n: Seq<char>| #[trigger] d.contains_key(n) ==> f.contains_key(file_of(b, n)) && stored(f[file_of(b, n)], d[n])
}
/// each file holds what it held or all of what it is to hold
pub open spec fn old_or_new(o: Map<Seq<char>, Seq<u8>>, f: Map<Seq<char>, Seq<u8>>, b: Seq<char>, d: DB) -> bool {
    &&& forall|p: Seq<char>| #[trigger] o.contains_key(p) ==> f.contains_key(p)
    &&& forall|p: Seq<char>| #[trigger] f.contains_key(p) ==> (o.contains_key(p) && f[p] == o[p]) || is_new(p, f[p], b, d)
}
pub open spec fn is_new(p: Seq<char>, c: Seq<u8>, b: Seq<char>, d: DB) -> bool {
    (p == meta_file(b) && is_meta(c, d.dom())) || exists|n: Seq<char>| #[trigger] d.contains_key(n) && p == file_of(b, n) && stored(c, d[n])
}
pub open spec fn only_then(o: Files, n: Files, b: Seq<char>, d: DB) -> bool {
    &&& old_or_new(o.files, n.files, b, d)
    &&& o.seen.len() <= n.seen.len() && forall|i: int| 0 <= i < n.seen.len() ==> if i < o.seen.len() { #[trigger] n.seen[i] == o.seen[i] } else { old_or_new(o.files, n.seen[i], b, d) }
    &&& n.faults >= o.faults
}
pub proof fn lemma_dot(b: Seq<char>, n: Seq<char>)
    ensures kept(file_of(b, n)), file_of(b, n).len() == b.len() + 1 + n.len() + 4, file_of(b, n).subrange(b.len() as int + 1, file_of(b, n).len() - 4) == n,
{
    reveal_strlit(".sdb"); let p = file_of(b, n); assert(".sdb"@.len() == 4);
    assert(p.skip(p.len() - 4) =~= ".sdb"@); assert(p.subrange(b.len() as int + 1, p.len() - 4) =~= n);
}
pub proof fn lemma_meta(b: Seq<char>) ensures meta_file(b) == file_of(b, "meta"@), flat("meta.sdb"@ + ".tmp"@)
{ reveal_strlit(".sdb"); reveal_strlit("meta"); reveal_strlit("meta.sdb"); reveal_strlit(".tmp"); assert("meta"@ + ".sdb"@ =~= "meta.sdb"@); }
pub proof fn lemma_tmp(p: Seq<char>) ensures !kept(p + ".tmp"@)
{ reveal_strlit(".sdb"); reveal_strlit(".tmp"); let q = p + ".tmp"@; assert(".tmp"@.len() == 4); assert(q.skip(q.len() - 4) =~= ".tmp"@); assert(".tmp"@[1] == 't' && ".sdb"@[1] == 's'); }
pub proof fn lemma_flat(n: Seq<char>) requires forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '/' ensures flat(n + ".sdb"@ + ".tmp"@)
{ reveal_strlit(".sdb"); reveal_strlit(".tmp"); }
pub proof fn lemma_kept(b: Seq<char>, n: Seq<char>)
    ensures kept(file_of(b, n)), kept(meta_file(b)), forall|p: Seq<char>| !kept(#[trigger] (p + ".tmp"@)),
        forall|m: Seq<char>| #[trigger] file_of(b, m) == file_of(b, n) ==> m == n, file_of(b, n) == meta_file(b) ==> n == "meta"@,
        (forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '/') ==> flat(n + ".sdb"@ + ".tmp"@), flat("meta.sdb"@ + ".tmp"@),
{
    lemma_dot(b, n); lemma_meta(b); lemma_dot(b, "meta"@);
    assert forall|p: Seq<char>| !kept(#[trigger] (p + ".tmp"@)) by { lemma_tmp(p); }
    assert forall|m: Seq<char>| #[trigger] file_of(b, m) == file_of(b, n) implies m == n by { lemma_dot(b, m); }
    if forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '/' { lemma_flat(n); }
}
//@always `File::create(` => `disk.create(` -- the disk is a ghost argument of file operations
//@always `File::open(` => `disk.open(` -- likewise
//@always `std::fs::create_dir_all($p).context($c)` => `disk.create_dir_all($p)` -- likewise, and what the report says
//@always `tokio::fs::create_dir_all(` => `disk.create_dir_all(` -- likewise
//@always `= create_dir_all(` => `= disk.create_dir_all(` -- likewise
//@always `; create_dir_all(` => `; disk.create_dir_all(` -- likewise
//@always `{ create_dir_all(` => `{ disk.create_dir_all(` -- likewise
//@always `.write_all(` => `.write_all(disk, ` -- likewise
//@always `.flush(` => `.flush(disk` -- likewise
//@always `.sync_all(` => `.sync_all(disk` -- likewise
//@always `.read(` => `.read(disk, ` -- likewise
//@always `.read_to_end(` => `.read_to_end(disk, ` -- likewise
//@always `{ rename(` => `{ disk.rename(Ghost(held), ` -- likewise
//@always `; rename(` => `; disk.rename(Ghost(held), ` -- likewise
//@always `= rename(` => `= disk.rename(Ghost(held), ` -- likewise
//@always `color_eyre::Result<$t>` => `Result<$t, Report>` -- color_eyre's Result
//@always `impl AsRef<Path> + Debug` => `impl PathLike` -- std's AsRef
//@fn - | write_to_file id daemon::write_to_file
        requires asked(19) ==> held && kept(path.at()) && directly_in(path.at(), base_location.at()),
        ensures asked(19) ==> match r {
                Ok(_) => final(disk)@.files == old(disk)@.files.insert(path.at(), bytes@) && final(disk)@.seen == old(disk)@.seen.push(final(disk)@.files),
                Err(_) => final(disk)@.files == old(disk)@.files && final(disk)@.seen == old(disk)@.seen && final(disk)@.faults > old(disk)@.faults,
            },
            asked(18) ==> elsewhere(old(disk)@.files, final(disk)@.files, path.at()),
            final(disk)@.faults >= old(disk)@.faults,
//@rw `bytes: &[u8],` => `disk: &mut Disk, Ghost(held): Ghost<bool>, bytes: &[u8],` -- the disk, and whether the lock is held
//@entry
    proof {
        lemma_tmp(path.at());
        if asked(19) {
            let f = choose|f: Seq<char>| flat(f + ".tmp"@) && path.at() == #[trigger] joined(base_location.at(), f);
            assert(path.at() + ".tmp"@ =~= joined(base_location.at(), f + ".tmp"@));
        }
    }
//@end

/// no file but p was changed
pub open spec fn elsewhere(o: Map<Seq<char>, Seq<u8>>, f: Map<Seq<char>, Seq<u8>>, p: Seq<char>) -> bool { forall|q: Seq<char>| q != p ==> #[trigger] o.contains_key(q) == f.contains_key(q) && (o.contains_key(q) ==> o[q] == f[q]) }
/// no files but those of databases and the list of them were changed
pub open spec fn only_there(o: Map<Seq<char>, Seq<u8>>, f: Map<Seq<char>, Seq<u8>>, b: Seq<char>, d: DB) -> bool {
    forall|q: Seq<char>| #![trigger o.contains_key(q)] #![trigger f.contains_key(q)] q != meta_file(b) && (forall|n: Seq<char>| #[trigger] d.contains_key(n) ==> q != file_of(b, n)) ==> o.contains_key(q) == f.contains_key(q) && (o.contains_key(q) ==> o[q] == f[q])
}
/// a file was replaced by bytes for m, or not at all
pub open spec fn wrote(x: Files, y: Files, p: Seq<char>, m: SM) -> bool {
    y.faults >= x.faults && ((x.files == y.files && x.seen == y.seen && y.faults > x.faults) || exists|c: Seq<u8>| #[trigger] stored(c, m) && y.files == x.files.insert(p, c) && y.seen == x.seen.push(y.files))
}
pub proof fn lemma_wrote(o: Files, x: Files, y: Files, p: Seq<char>, m: SM, b: Seq<char>, d: DB)
    requires only_then(o, x, b, d), wrote(x, y, p, m), (p == meta_file(b) && listed(m, d.dom())) || exists|n: Seq<char>| #[trigger] d.contains_key(n) && p == file_of(b, n) && m == d[n]
    ensures only_then(o, y, b, d), y.faults == x.faults ==> y.files.contains_key(p) && stored(y.files[p], m) && forall|q: Seq<char>| q != p ==> #[trigger] y.files.contains_key(q) == x.files.contains_key(q) && (y.files.contains_key(q) ==> y.files[q] == x.files[q])
{
    if !(x.files == y.files && x.seen == y.seen) {
        let c = choose|c: Seq<u8>| #[trigger] stored(c, m) && y.files == x.files.insert(p, c) && y.seen == x.seen.push(y.files);
        assert(is_new(p, c, b, d));
        assert(old_or_new(o.files, y.files, b, d));
    }
}
/// likewise for a list of these names
pub open spec fn wrote_list(x: Files, y: Files, p: Seq<char>, names: Set<Seq<char>>) -> bool {
    y.faults >= x.faults && ((x.files == y.files && x.seen == y.seen && y.faults > x.faults) || exists|c: Seq<u8>, m: SM| #[trigger] stored(c, m) && listed(m, names) && y.files == x.files.insert(p, c) && y.seen == x.seen.push(y.files))
}
pub proof fn lemma_wrote_list(o: Files, x: Files, y: Files, b: Seq<char>, d: DB)
    requires only_then(o, x, b, d), wrote_list(x, y, meta_file(b), d.dom()),
    ensures only_then(o, y, b, d), y.files != x.files || y.faults == x.faults ==> y.files.contains_key(meta_file(b)) && is_meta(y.files[meta_file(b)], d.dom()),
        y.faults == x.faults ==> forall|q: Seq<char>| q != meta_file(b) ==> #[trigger] y.files.contains_key(q) == x.files.contains_key(q) && (y.files.contains_key(q) ==> y.files[q] == x.files[q])
{
    if !(x.files == y.files && x.seen == y.seen && y.faults > x.faults) {
        let (c, m) = choose|c: Seq<u8>, m: SM| #[trigger] stored(c, m) && listed(m, d.dom()) && y.files == x.files.insert(meta_file(b), c) && y.seen == x.seen.push(y.files);
        assert(wrote(x, y, meta_file(b), m)); lemma_wrote(o, x, y, meta_file(b), m, b, d);
    }
}
pub open spec fn vms(names: Seq<Value>) -> Seq<VM> { Seq::new(names.len(), |i: int| vm(names[i])) }
/// is n one of the names from e[k] on?
pub open spec fn to_come(e: Seq<(&String, &Store)>, k: int, n: Seq<char>) -> bool { exists|i: int| k <= i < e.len() && (#[trigger] e[i]).0@ == n }
/// names have been listed apart from those which are to come
pub open spec fn listing(names: Seq<Value>, e: Seq<(&String, &Store)>, k: int, d: DB) -> bool {
    &&& forall|i: int| 0 <= i < names.len() ==> vm(#[trigger] names[i]) is Str && d.contains_key(vm(names[i])->Str_0)
    &&& forall|n: Seq<char>| #[trigger] d.contains_key(n) ==> lists(vms(names), n) || to_come(e, k, n)
}
pub proof fn lemma_listing(a: Seq<Value>, c: Seq<Value>, e: Seq<(&String, &Store)>, k: int, d: DB)
    requires listing(a, e, k, d), 0 <= k < e.len(), c.len() == a.len() + 1, c.drop_last() == a, vm(c.last()) == VM::Str(e[k].0@), d.contains_key(e[k].0@)
    ensures listing(c, e, k + 1, d)
{
    assert forall|i: int| 0 <= i < c.len() implies vm(#[trigger] c[i]) is Str && d.contains_key(vm(c[i])->Str_0) by { if i < a.len() { assert(c[i] == a[i]); } }
    assert forall|n: Seq<char>| #[trigger] d.contains_key(n) implies lists(vms(c), n) || to_come(e, k + 1, n) by {
        if lists(vms(a), n) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] vms(a)[i] == VM::Str(n); assert(c[i] == a[i]); assert(vms(c)[i] == VM::Str(n)); }
        else if n == e[k].0@ { assert(vms(c)[a.len() as int] == VM::Str(n)); }
    }
}
pub proof fn lemma_listed(a: Seq<Value>, e: Seq<(&String, &Store)>, m: SM, d: DB)
    requires listing(a, e, e.len() as int, d), m.contains_key(DB_FILE_NAMES_KEY@), m[DB_FILE_NAMES_KEY@] is Arr, m[DB_FILE_NAMES_KEY@]->Arr_0 =~= vms(a),
    ensures listed(m, d.dom())
{
    let x = m[DB_FILE_NAMES_KEY@]->Arr_0;
    assert forall|n: Seq<char>| #[trigger] d.dom().contains(n) == lists(x, n) by {
        if d.contains_key(n) { }
        if lists(x, n) { let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == VM::Str(n); assert(vm(a[i]) == VM::Str(n)); }
    }
}
impl SourisState {
//@always `write_to_file($x)` => `write_to_file(&mut self.disk, Ghost(held), $x)` -- the disk, and whether the lock is held
//@always `.to_string()` => `.as_text()` -- texts
//@always `DB_FILE_NAMES_KEY.into()` => `DB_FILE_NAMES_KEY.as_text()` -- likewise
//@fn impl SourisState | save
        requires old(self).good(),
        ensures asked(19) ==> only_then(old(self).disk@, final(self).disk@, old(self).base_location@, final(self).dbs.taken()),
            asked(19) ==> final(self).dbs.same() && (r is Ok ==> final(self).disk@.files.contains_key(meta_file(old(self).base_location@)) && is_meta(final(self).disk@.files[meta_file(old(self).base_location@)], final(self).dbs@.dom())),
            asked(19) ==> (final(self).disk@.faults == old(self).disk@.faults ==> r is Ok && saved(final(self).disk@.files, old(self).base_location@, final(self).dbs@)),
            asked(18) ==> only_there(old(self).disk@.files, final(self).disk@.files, old(self).base_location@, final(self).dbs@),
            after(*old(self), *final(self)),
//@attr #[verifier::loop_isolation(false)]
//@mutself
//@entry
        let ghost mut held = false; proof { lemma_dvs(); } let ghost b = self.base_location@; let ghost o = self.disk@;
//@before `for`
        let ghost d = dv(dbs@); let ghost h = dbs@;
//@iter 0 it
//@loop 0
            invariant held, self.base_location@ == b, asked(19) ==> listing(names@, it.seq(), it.index() as int, d),
                forall|i: int| 0 <= i < it.seq().len() ==> h.contains_key((#[trigger] it.seq()[i]).0@) && *it.seq()[i].1 == h[it.seq()[i].0@],
                forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ != (#[trigger] it.seq()[j]).0@,
                forall|k: Seq<char>| #[trigger] h.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0@ == k,
                asked(18) ==> only_there(o.files, self.disk@.files, b, d),
                asked(19) ==> only_then(o, self.disk@, b, d),
                asked(19) && self.disk@.faults == o.faults ==> forall|i: int| 0 <= i < it.index() ==> self.disk@.files.contains_key(file_of(b, (#[trigger] it.seq()[i]).0@)) && stored(self.disk@.files[file_of(b, it.seq()[i].0@)], d[it.seq()[i].0@]),
//@into 0
            let ghost pre = self.disk@; let ghost pn = names@; let ghost ix = it.index() as int; let ghost n = it.seq()[ix].0@;
            proof { assert(it.seq()[ix] == (name, db)); assert(d.contains_key(n) && d[n] == db@); assert(names_ok(d)); assert(valid_name(n)); lemma_kept(b, n); assert(flat(n + ".sdb"@ + ".tmp"@)); assert(file_of(b, n) == joined(b, n + ".sdb"@)); }
//@endof 0
            proof {
                if asked(19) { assert(names@.drop_last() =~= pn); lemma_listing(pn, names@, it.seq(), ix, d); lemma_wrote(o, pre, self.disk@, file_of(b, n), d[n], b, d); }
                assert forall|i: int| asked(19) && 0 <= i < ix && pre.faults == o.faults && self.disk@.faults == o.faults implies self.disk@.files.contains_key(file_of(b, (#[trigger] it.seq()[i]).0@)) && stored(self.disk@.files[file_of(b, it.seq()[i].0@)], d[it.seq()[i].0@]) by {
                    let q = file_of(b, it.seq()[i].0@);
                    assert(it.seq()[i].0@ != it.seq()[ix].0@); assert(q != file_of(b, n)); assert(self.disk@.files.contains_key(q) == pre.files.contains_key(q));
                }
            }
//@before `let mut meta =`
        let ghost o2 = self.disk@; let ghost na = names@; let ghost done = choose|e: Seq<(&String, &Store)>| listing(na, e, e.len() as int, d);
        proof {
            lemma_kept(b, "meta"@); lemma_meta(b); assert(directly_in(meta_file(b), b)) by { assert(meta_file(b) == joined(b, "meta.sdb"@)); }
            assert forall|m: SM| asked(19) && m.contains_key(DB_FILE_NAMES_KEY@) && m[DB_FILE_NAMES_KEY@] is Arr && m[DB_FILE_NAMES_KEY@]->Arr_0 =~= vms(na) implies #[trigger] listed(m, d.dom()) by { lemma_listed(na, done, m, d); }
        }
//@tail
        proof {
            if asked(19) {
                assert(wrote_list(o2, self.disk@, meta_file(b), d.dom()));
                lemma_wrote_list(o, o2, self.disk@, b, d);
                if self.disk@.faults == o.faults { assert forall|n: Seq<char>| #[trigger] d.contains_key(n) implies self.disk@.files.contains_key(file_of(b, n)) && stored(self.disk@.files[file_of(b, n)], d[n]) by {
                    lemma_kept(b, n); assert(file_of(b, n) != meta_file(b)); assert(self.disk@.files.contains_key(file_of(b, n)) == o2.files.contains_key(file_of(b, n)));
                } }
            }
        }
//@end
}

// what a file's store is read as: a missing file stands for an empty store
pub open spec fn reads(f: Map<Seq<char>, Seq<u8>>, p: Seq<char>, m: SM) -> bool { if f.contains_key(p) { stored(f[p], m) } else { m == none() } }
pub broadcast proof fn lemma_taken(c: Seq<u8>, r: Seq<u8>, n: nat) requires n <= r.len() ensures #[trigger] (c + r.take(n as int)) + r.skip(n as int) == c + r { assert((c + r.take(n as int)) + r.skip(n as int) =~= c + r); }
pub fn array_part<const N: usize>(a: &[u8; N], i: usize, j: usize) -> (r: &[u8]) requires i <= j <= N ensures r@ == a@.subrange(i as int, j as int) { vstd::slice::slice_subrange(a.as_slice(), i, j) }
//@fn impl SourisState :: fn new | get_store id daemon::get_store
        ensures final(disk)@.like(old(disk)@), final(disk)@.faults >= old(disk)@.faults,
            asked(19) ==> forall|m: SM| #[trigger] reads(old(disk)@.files, location@, m) && final(disk)@.faults == old(disk)@.faults ==> r is Ok && r->Ok_0@ == m,
//@rw `location: PathBuf` => `disk: &mut Disk, location: PathBuf` -- the disk
//@rw? `contents.extend(&tmp[0..n])` => `contents.extend_from_slice(array_part(&tmp, 0, n))` -- what is put in at the end
//@before `let mut contents =`
    let ghost all = file@.rest; let ghost o = disk@;
//@loop 0
        invariant disk@ == o, o == old(disk)@, all == contents@ + file@.rest,
        ensures contents@ == all
        decreases file@.rest.len()
//@into 0
        let ghost c0 = contents@; let ghost r0 = file@.rest; proof { broadcast use lemma_taken; }
//@endof 0
        proof { assert(contents@ =~= c0 + r0.take(r0.len() - file@.rest.len())); }
//@end
pub open spec fn has_list(m: SM) -> bool { m.contains_key(DB_FILE_NAMES_KEY@) && m[DB_FILE_NAMES_KEY@] is Arr }
/// some databases with the names in a; if there were no faults, all whose files hold stores, with these
pub open spec fn loaded(a: Seq<VM>, k: int, f: Map<Seq<char>, Seq<u8>>, b: Seq<char>, h: DB, fine: bool) -> bool {
    &&& forall|n: Seq<char>| #[trigger] h.contains_key(n) ==> exists|i: int| 0 <= i < k && #[trigger] a[i] == VM::Str(n)
    &&& fine ==> forall|n: Seq<char>, m: SM, i: int| 0 <= i < k && #[trigger] a[i] == VM::Str(n) && #[trigger] reads(f, file_of(b, n), m) ==> h.contains_key(n) && h[n] == m
}
pub proof fn lemma_saved(f: Map<Seq<char>, Seq<u8>>, b: Seq<char>, d: DB, m: SM, h: DB)
    requires saved(f, b, d), stored(f[meta_file(b)], m), listed(m, d.dom()), loaded(m[DB_FILE_NAMES_KEY@]->Arr_0, m[DB_FILE_NAMES_KEY@]->Arr_0.len() as int, f, b, h, true)
    ensures h == d
{
    let a = m[DB_FILE_NAMES_KEY@]->Arr_0;
    assert forall|n: Seq<char>| d.contains_key(n) implies h.contains_key(n) && h[n] == d[n] by { assert(d.dom().contains(n)); assert(lists(a, n)); assert(reads(f, file_of(b, n), d[n])); let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == VM::Str(n); }
    assert forall|n: Seq<char>| h.contains_key(n) implies d.contains_key(n) by { assert(lists(a, n)); assert(d.dom().contains(n)); }
    assert(h =~= d);
}
//@always `get_store($x)` => `get_store(disk, $x)` -- the disk
//@always `get_internal_stores($x)` => `get_internal_stores(disk, $x)` -- the disk
//@always `meta.get(DB_FILE_NAMES_KEY)` => `meta.get(&DB_FILE_NAMES_KEY.as_text())` -- texts
//@fn impl SourisState :: fn new | get_internal_stores id daemon::get_internal_stores
        ensures final(disk)@.like(old(disk)@), final(disk)@.faults >= old(disk)@.faults,
            asked(19) ==> r is Some == has_list(meta@) && (r is Some ==> loaded(meta@[DB_FILE_NAMES_KEY@]->Arr_0, meta@[DB_FILE_NAMES_KEY@]->Arr_0.len() as int, old(disk)@.files, base@, dv(r->Some_0@), final(disk)@.faults == old(disk)@.faults)),
//@attr #[verifier::loop_isolation(false)]
//@rw `meta: &Store` => `disk: &mut Disk, meta: &Store` -- the disk
//@before `let mut dbs`
    let ghost o = disk@; let ghost a = meta@[DB_FILE_NAMES_KEY@]->Arr_0; proof { lemma_dvs(); }
//@iter 0 it
//@loop 0
        invariant disk@.like(o), disk@.faults >= o.faults, it.seq().len() == a.len(), forall|i: int| 0 <= i < a.len() ==> vm(*#[trigger] it.seq()[i]) == a[i],
            asked(19) ==> loaded(a, it.index() as int, o.files, base@, dv(dbs@), disk@.faults == o.faults),
//@into 0
        let ghost ix = it.index() as int; proof { assert(vm(*it.seq()[ix]) == a[ix]); }
//@end
/// the daemon s, which was started when the files were as in o, has the databases d if they were saved there
pub open spec fn started(o: Files, s: SourisState, d: DB) -> bool { saved(o.files, s.base_location@, d) && s.disk@.faults == o.faults ==> s.dbs@ == d && (names_ok(d) ==> s.good()) }
#[verifier::external_body]
#[derive(Debug)]
pub struct VarError;
// the environment
#[verifier::external_body]
pub fn var(n: &str) -> (r: Result<String, VarError>) { unimplemented!() }
#[verifier::external_body]
pub fn running_with_superuser() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn data_dir() -> Option<PathBuf> { unimplemented!() }
impl SourisState {
//@always `bail!($x)` => `return Err(Report::of())` -- color_eyre's bail
//@always `Arc::new(Mutex::new($x))` => `Shared::new($x)` -- what is shared
//@fn impl SourisState | new id daemon::new
        ensures asked(19) ==> r is Ok ==> r->Ok_0.disk@.like(disk@),
            asked(19) ==> r is Ok ==> forall|d: DB| #[trigger] started(disk@, r->Ok_0, d),
//@lift fn get_store
//@lift fn get_internal_stores
//@rw `fn new()` => `fn new(disk: Disk)` -- the disk
//@rw? `Self { $x }` => `Self { $x disk: here_ }` -- likewise
//@entry
        let ghost disk0 = disk@; let mut here_ = disk; let disk = &mut here_; proof { lemma_dvs(); }
        let ghost o = disk@;
//@before `let dbs =`
        let ghost mm = meta@;
//@tail
        proof {
            if asked(19) {
                assert(o == disk0);
                if out_ is Ok { assert forall|d: DB| #[trigger] started(o, out_->Ok_0, d) by {
                    let s = out_->Ok_0; let b = s.base_location@;
                    if saved(o.files, b, d) && s.disk@.faults == o.faults {
                        let m = choose|m: SM| #[trigger] stored(o.files[meta_file(b)], m) && listed(m, d.dom());
                        assert(reads(o.files, meta_file(b), m)); assert(mm == m);
                        lemma_saved(o.files, b, d, m, s.dbs@);
                    }
                } }
            }
        }
//@end
}
