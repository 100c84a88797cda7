//! needs core cursor integer bits errors maps huffman rle binary imaginary values
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::bits::*;
use crate::errors::*;
use crate::huffman::*;
use crate::binary::*;
use crate::values::*;
use crate::values::HashMap;
use alloc::vec;
use alloc::vec::Vec;
use alloc::string::String;
use vstd::std_specs::iter::IteratorSpec;

// ---- what is assumed
// a clone of a map has the same keys, and values which stand for the same
#[verifier::external_body]
pub fn clone_map(m: &HashMap<String, Value>) -> (r: HashMap<String, Value>)
    ensures model(Value::Map(r)) == model(Value::Map(*m)), val_wf(Value::Map(*m)) ==> val_wf(Value::Map(r)),
{ unimplemented!() }
// A map is walked through in an order which depends on nothing but the map.
pub uninterp spec fn order(m: HashMap<String, Value>) -> Seq<(String, Value)>;
#[verifier::external_body]
pub broadcast proof fn axiom_order(m: HashMap<String, Value>, i: int)
    requires 0 <= i < order(m).len()
    ensures m@.contains_key((#[trigger] order(m)[i]).0@), order(m)[i].1 == m@[order(m)[i].0@] {}
#[verifier::external_body]
pub fn entries_of<'a>(m: &'a HashMap<String, Value>) -> (r: Vec<(&'a String, &'a Value)>)
    ensures r@.len() == order(*m).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == order(*m)[i].0 && *r@[i].1 == order(*m)[i].1,
{ unimplemented!() }
pub trait PushText<A> { fn push_text(&mut self, a: A); }
impl<'a> PushText<&'a String> for String { #[verifier::external_body] fn push_text(&mut self, a: &'a String) ensures final(self)@ == old(self)@ + a@, { unimplemented!() } }
impl<'a> PushText<&'a str> for String { #[verifier::external_body] fn push_text(&mut self, a: &'a str) ensures final(self)@ == old(self)@ + a@, { unimplemented!() } }
// extending by references to the elements
pub trait ExtendRefs<'a> { fn extend_refs(&mut self, a: &'a Vec<Value>); }
impl<'a> ExtendRefs<'a> for Vec<&'a Value> {
    #[verifier::external_body]
    fn extend_refs(&mut self, a: &'a Vec<Value>) ensures final(self)@.len() == old(self)@.len() + a@.len(),
        forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == old(self)@[i], forall|i: int| 0 <= i < a@.len() ==> *final(self)@[old(self)@.len() + i] == #[trigger] a@[i], { unimplemented!() }
}
pub fn ok_ref<'a, E>(r: &'a Result<Huffman<char>, E>) -> (o: Option<&'a Huffman<char>>)
    ensures o is Some == r is Ok, o is Some ==> *o->0 == r->Ok_0,
{ match r { Ok(x) => Some(x), Err(_) => None } }
pub open spec fn ok_root<E>(r: &Result<Huffman<char>, E>) -> Option<Node<char>> { match *r { Ok(x) => Some(x.root), Err(_) => None } }
/// `b"SOURISDB"`
pub open spec fn magic() -> Seq<u8> { seq![0x53u8, 0x4f, 0x55, 0x52, 0x49, 0x53, 0x44, 0x42] }
pub fn magic_bytes_of() -> (r: [u8; 8]) ensures r@ == magic(), { let r = [0x53u8, 0x4f, 0x55, 0x52, 0x49, 0x53, 0x44, 0x42]; proof { assert(r@ =~= magic()); } r }
// `==` of arrays of bytes
#[verifier::external_body]
pub fn same_bytes<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@), { a == b }
// Cursor::new over what can be seen as bytes: a slice, a vector, and what is left for a cursor
pub trait CursorOver {
    spec fn ready(&self) -> bool;
    spec fn under(&self) -> Seq<u8>;
    fn cursor_over<'b>(&'b self) -> (r: Cursor<'b, u8>) requires self.ready(), ensures r.wf(), r.pos == 0, r.data() == self.under();
}
impl<'a> CursorOver for &'a [u8] {
    open spec fn ready(&self) -> bool { true }
    open spec fn under(&self) -> Seq<u8> { (*self)@ }
    fn cursor_over<'b>(&'b self) -> (r: Cursor<'b, u8>) { proof { assert(vstd::slice::spec_slice_len(*self) <= usize::MAX); } Cursor { backing: *self, pos: 0 } }
}
impl CursorOver for Vec<u8> {
    open spec fn ready(&self) -> bool { true }
    open spec fn under(&self) -> Seq<u8> { self@ }
    fn cursor_over<'b>(&'b self) -> (r: Cursor<'b, u8>) { let s = self.as_slice(); proof { assert(vstd::slice::spec_slice_len(s) <= usize::MAX); } Cursor { backing: s, pos: 0 } }
}
impl<'a> CursorOver for Cursor<'a, u8> {
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn under(&self) -> Seq<u8> { self.rest() }
    fn cursor_over<'b>(&'b self) -> (r: Cursor<'b, u8>) { let s = self.as_ref(); proof { assert(vstd::slice::spec_slice_len(s) <= usize::MAX); } Cursor { backing: s, pos: 0 } }
}
#[verifier::external_body]
pub fn to_map_of(v: Value) -> (r: Option<HashMap<String, Value>>) ensures r == (match v { Value::Map(m) => Some(m), _ => None }), { unimplemented!() }

//@src crates/sourisdb/src/store.rs
//@item - | struct Store
#[derive(Debug)]
//@item - | enum StoreSerError
//@each t=IntegerSerError | t=SJError | t=ValueSerError | t=BinarySerError | t=HuffmanSerError
impl vstd::std_specs::convert::FromSpecImpl<${t}> for StoreSerError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ${t}) -> Self { arbitrary() }
}
impl From<${t}> for StoreSerError {
//@fn impl From<${t}> for StoreSerError | from nopub
//@end
}
//@endeach

// ---- how many values are nested in some
pub open spec fn nodes(v: Value) -> nat decreases v, 0nat via nodes_dec
{
    match v {
        Value::Array(a) => 1 + nodes_arr(a, a@.len()),
        Value::Map(m) => 1 + nodes_map(m, order(m).len()),
        _ => 1,
    }
}
pub open spec fn nodes_arr(a: Vec<Value>, k: nat) -> nat decreases a, k via nodes_arr_dec { if k == 0 || k > a@.len() { 0 } else { nodes_arr(a, (k - 1) as nat) + nodes(a@[k - 1]) } }
pub open spec fn nodes_map(m: HashMap<String, Value>, k: nat) -> nat decreases m, k via nodes_map_dec { if k == 0 || k > order(m).len() { 0 } else { nodes_map(m, (k - 1) as nat) + nodes(order(m)[k - 1].1) } }
#[via_fn] proof fn nodes_dec(v: Value) { }
#[via_fn] proof fn nodes_arr_dec(a: Vec<Value>, k: nat) { }
#[via_fn] proof fn nodes_map_dec(m: HashMap<String, Value>, k: nat) { broadcast use axiom_map_decreases, axiom_order; }
pub open spec fn nodes_all(s: Seq<&Value>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { nodes_all(s.drop_last()) + nodes(*s.last()) } }
pub proof fn lemma_nodes_push(s: Seq<&Value>, v: &Value) ensures nodes_all(s.push(v)) == nodes_all(s) + nodes(*v), nodes(*v) >= 1 { assert(s.push(v).drop_last() =~= s); }
pub proof fn lemma_nodes_arr(s: Seq<&Value>, a: Vec<Value>, t: Seq<&Value>, k: nat)
    requires k <= a@.len(), t.len() == s.len() + k, forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == s[i], forall|i: int| 0 <= i < k ==> *t[s.len() + i] == #[trigger] a@[i]
    ensures nodes_all(t) == nodes_all(s) + nodes_arr(a, k)
    decreases k
{
    if k == 0 { assert(t =~= s); } else {
        let u = t.drop_last(); assert forall|i: int| 0 <= i < k - 1 implies *u[s.len() + i] == #[trigger] a@[i] by { assert(*t[s.len() + i] == a@[i]); }
        lemma_nodes_arr(s, a, u, (k - 1) as nat); assert(*t[s.len() + (k - 1)] == a@[k - 1]); assert(t.last() == t[s.len() + (k - 1)]);
    }
}
pub proof fn lemma_nodes_map(m: HashMap<String, Value>, k: nat) requires k < order(m).len() ensures nodes_map(m, (k + 1) as nat) == nodes_map(m, k) + nodes(order(m)[k as int].1) { }

// ---- the bytes of a store
pub open spec fn tree_part(n: Option<Node<char>>) -> Seq<u8> { match n { Some(x) => node_enc_char(x), None => seq![] } }
pub open spec fn store_enc(out: Seq<u8>, m: M, root: Option<Node<char>>, inner: Seq<u8>, c: BinaryCompression, o: Seq<u8>) -> bool {
    &&& is_enc(inner, m, root) && (root is Some ==> root->0.height() <= MAX_TREE_DEPTH)
    &&& is_binary(c, o, tree_part(root) + inner)
    &&& out == magic() + (seq![if root is Some { 128 + comp_byte(c) } else { comp_byte(c) as int } as u8] + o)
}
pub open spec fn is_store(out: Seq<u8>, m: M) -> bool {
    exists|root: Option<Node<char>>, inner: Seq<u8>, c: BinaryCompression, o: Seq<u8>| #[trigger] store_enc(out, m, root, inner, c, o)
}
pub proof fn lemma_ty(c: BinaryCompression)
    ensures ({ let b = comp_byte(c); (1u8 << 7) | b == 128 + b && (0u8 << 7) | b == b && ((128 + b) as u8) & 0b1000_0000 != 0 && b & 0b1000_0000 == 0 && ((128 + b) as u8) & 0b0111_1111 == b && b & 0b0111_1111 == b && b < 4 })
{
    let b = comp_byte(c);
    assert(b < 4 ==> (1u8 << 7) | b == 128 + b && (0u8 << 7) | b == b && ((128 + b) as u8) & 0b1000_0000 != 0 && b & 0b1000_0000 == 0 && ((128 + b) as u8) & 0b0111_1111 == b && b & 0b0111_1111 == b) by (bit_vector);
}
impl Store {
    /// what a store stands for
    pub open spec fn model(&self) -> M { model(Value::Map(self.0)) }
    pub open spec fn wf(&self) -> bool { val_wf(Value::Map(self.0)) }
//@fn impl Store | ser
        requires self.wf(),
        ensures is_store(r@, self.model()),
//@rw `self.0.clone()` => `clone_map(&self.0)` -- a clone of a map
//@rw `for (k, v) in map {` => `let entries = entries_of(map); for (k, v) in entries {` -- a map is walked through in some order
//@rw `to_be_added.extend(a.iter())` => `to_be_added.extend_refs(a)` -- Vec's extend
//@rw `all_text.push_str(&sjv.to_string())` => `{ let t = sjv.to_string(); all_text.push_text(&t) }` -- String's push_str
//@rw `all_text.push_str(` => `all_text.push_text(` -- String's push_str
//@rw `Huffman::new_str(&all_text)` => `Huffman::new_str(all_text.as_str())` -- a String is its str
//@rw `huffman.as_ref().ok()` => `ok_ref(&huffman)` -- Result's ok
//@rw `res.extend(&map)` => `res.extend_any(map.as_slice())` -- Vec's extend
//@rw `u8::from(huffman_exists)` => `(if huffman_exists { 1u8 } else { 0u8 })` -- std's conversion
//@rw `fin.extend(b"SOURISDB")` => `fin.extend_any(magic_bytes_of())` -- a literal
//@rw `fin.extend(compressed)` => `fin.extend_any(compressed)` -- Vec's extend
//@entry
        hide(is_enc); hide(is_binary); hide(model); hide(val_wf); hide(nodes); hide(nodes_all); hide(node_enc_char);
        proof { lemma_depth(); }
//@after `let raw_map =`
        proof { assert(model(raw_map) == self.model() && val_wf(raw_map)); }
//@after `let mut to_be_added =`
            let ghost mut gs = to_be_added@;
//@attr #[verifier::loop_isolation(false)]
//@loop 0
                invariant gs == to_be_added@,
                decreases nodes_all(gs),
//@into 0
                let ghost s0 = to_be_added@;
                proof { assert(gs =~= s0.push(next_value)); lemma_nodes_push(s0, next_value); }
//@after `let entries =`
                        let ghost es = entries@;
//@iter 1 it
//@loop 1
                            invariant it.seq() == es, es.len() == order(*map).len(), nodes_all(to_be_added@) == nodes_all(s0) + nodes_map(*map, it.index() as nat),
                                forall|i: int| 0 <= i < es.len() ==> *(#[trigger] es[i]).0 == order(*map)[i].0 && *es[i].1 == order(*map)[i].1,
//@into 1
                            let ghost ix = it.index() as int; let ghost t0 = to_be_added@;
                            proof { assert(es[ix] == (k, v)); lemma_nodes_map(*map, ix as nat); }
//@endof 1
                            proof { lemma_nodes_push(t0, v); }
//@after `to_be_added.extend_refs(a)`
                        proof { lemma_nodes_arr(s0, *a, to_be_added@, a@.len()); }
//@endof 0
                proof { reveal(nodes); gs = to_be_added@; }
//@before `let map =`
        let ghost root = ok_root(&huffman);
//@after `res.extend_any(map.as_slice())`
        let ghost inner = map@;
        proof { assert(res@ =~= tree_part(root) + inner); }
//@after `let (compression_type, compressed) =`
        let ghost o = compressed@; proof { lemma_ty(compression_type); }
//@after `fin.extend_any(compressed)`
        proof {
            let ty = if root is Some { (128 + comp_byte(compression_type)) as u8 } else { comp_byte(compression_type) };
            assert(magic_ty == ty);
            assert(fin@ =~= magic() + (seq![ty] + o));
            assert(store_enc(fin@, self.model(), root, inner, compression_type, o));
        }
//@end
//@fn impl Store | deser sig `fn deser(bytes: &[u8], g: Ghost<M>) -> (r: Result<Self, StoreSerError>)`
        ensures r is Ok ==> r->Ok_0.wf(),
            !magic().is_prefix_of(bytes@) ==> r is Err,
            is_store(bytes@, g@) && g@ is Map && fits(g@, 256) ==> r is Ok && r->Ok_0.model() == g@,
//@rw `Cursor::new(&bytes)` => `bytes.cursor_over()` -- a cursor over what can be seen as bytes
//@rw `Value::deser(&mut bytes.cursor_over(), huffman.as_ref())` => `Value::deser(&mut bytes.cursor_over(), huffman.as_ref(), Ghost(gv))` -- a ghost argument (what the bytes may stand for)
//@rw `bytes.read_exact() else` => `bytes.read_exact::<8>() else` -- the length which is inferred
//@rw `magic_bytes != b"SOURISDB"` => `!same_bytes(magic_bytes, &magic_bytes_of())` -- comparing arrays
//@rw `val.to_map()` => `to_map_of(val)` -- the method which strum derives
//@entry
        hide(is_enc); hide(is_binary); hide(model); hide(val_wf); hide(fits); hide(node_enc_char);
        let ghost all = bytes@; let ghost m = g@; let ghost good = is_store(all, m) && m is Map && fits(m, 256);
        let ghost (root, inner, c, o) = choose|root: Option<Node<char>>, inner: Seq<u8>, c: BinaryCompression, o: Seq<u8>| #[trigger] store_enc(all, m, root, inner, c, o);
        let ghost gv = (inner, m);
        proof { lemma_ty(c); if good { assert(all.subrange(0, 8) =~= magic()); assert(all.skip(9) =~= o); } assert(all.len() >= 8 && all.subrange(0, 8) == magic() ==> magic().is_prefix_of(all)); }
//@before `let bytes = BinaryData::deser`
        proof { if good { assert(bytes.rest() =~= o); assert(o.is_prefix_of(bytes.rest())); assert(compression == all[8]); } }
//@after `let bytes = BinaryData::deser`
        proof { if good { assert(bytes@ == tree_part(root) + inner); } }
//@before `let huffman =`
        proof { if good { assert(bytes.rest() =~= tree_part(root) + inner); assert(tree_part(root).is_prefix_of(bytes.rest())); } }
//@before `let val =`
        proof { if good { assert(huffman is Some == root is Some); assert(root is Some ==> huffman->0.root == root->0); assert(bytes.rest() =~= inner); assert(inner.is_prefix_of(bytes.rest())); assert(bytes.rest().skip(0) =~= inner); } }
//@after `let val =`
        proof { if good { assert(model(val) == m); assert(val is Map) by { reveal(model); } } }
//@end
}
