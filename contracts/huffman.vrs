//! needs core cursor integer bits errors maps
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use crate::bits::*;
use crate::errors::*;
use crate::maps::*;
use alloc::vec;
use alloc::vec::Vec;
use alloc::boxed::Box;
use vstd::std_specs::iter::IteratorSpec;
//@src crates/sourisdb/src/utilities/huffman.rs

// Clone of an element gives an equal element, and == of elements and of trees says whether they are the same.
#[verifier::external_body]
pub fn clone_of<T>(t: &T) -> (r: T) ensures r == *t, { unimplemented!() }
#[verifier::external_body]
pub fn opt_cloned<T>(t: Option<&T>) -> (r: Option<T>) ensures r == (match t { Some(x) => Some(*x), None => None }), { unimplemented!() }
#[verifier::external_body]
pub fn node_eq<T>(a: &Node<T>, b: &Node<T>) -> (r: bool) ensures r == (*a == *b), { unimplemented!() }
// `iter().enumerate().min_by_key(|(_, (_, weight))| *weight)`: the index of an entry of least weight
#[verifier::external_body]
pub fn least<T>(list: &Vec<(T, usize)>) -> (r: Option<usize>)
    ensures match r { Some(i) => i < list@.len() && forall|k: int| 0 <= k < list@.len() ==> list@[i as int].1 <= (#[trigger] list@[k]).1, None => list@.len() == 0 },
{ unimplemented!() }

//@item - | enum Node

impl<T> Node<T> {
    pub open spec fn height(self) -> nat decreases self
    { match self { Node::Leaf(_) => 0, Node::Branch { left, right } => 1 + if left.height() >= right.height() { left.height() } else { right.height() } } }
    pub open spec fn size(self) -> nat decreases self
    { match self { Node::Leaf(_) => 1, Node::Branch { left, right } => 1 + left.size() + right.size() } }
    pub open spec fn has(self, t: T) -> bool decreases self
    { match self { Node::Leaf(x) => x == t, Node::Branch { left, right } => left.has(t) || right.has(t) } }
    /// where a path leads to
    pub open spec fn at(self, p: Seq<bool>) -> Option<Node<T>> decreases p.len()
    {
        if p.len() == 0 { Some(self) } else { match self { Node::Leaf(_) => None, Node::Branch { left, right } => (if p[0] { *left } else { *right }).at(p.skip(1)) } }
    }
    pub open spec fn child(self, b: bool) -> Option<Node<T>> { match self { Node::Leaf(_) => None, Node::Branch { left, right } => Some(if b { *left } else { *right }) } }
    pub proof fn lemma_at_push(self, p: Seq<bool>, b: bool)
        requires self.at(p) is Some
        ensures self.at(p.push(b)) == self.at(p)->0.child(b)
        decreases p.len()
    {
        let q = p.push(b);
        if p.len() == 0 {
            assert(q.skip(1) =~= Seq::empty());
            match self { Node::Leaf(_) => {}, Node::Branch { left, right } => { let c = if b { *left } else { *right }; assert(c.at(q.skip(1)) == Some(c)); } }
        } else {
            assert(q.skip(1) =~= p.skip(1).push(b));
            match self { Node::Leaf(_) => {}, Node::Branch { left, right } => { (if p[0] { *left } else { *right }).lemma_at_push(p.skip(1), b); } }
        }
    }
    /// on the way there are branches
    pub proof fn lemma_at_take(self, p: Seq<bool>, k: int)
        requires self.at(p) is Some, 0 <= k < p.len()
        ensures self.at(p.take(k)) is Some, self.at(p.take(k))->0 is Branch
        decreases p.len()
    {
        if k == 0 { assert(self.at(p.take(0)) == Some(self)); }
        else {
            assert(p.take(k).skip(1) =~= p.skip(1).take(k - 1)); assert(p.take(k)[0] == p[0]);
            match self { Node::Leaf(_) => {}, Node::Branch { left, right } => { (if p[0] { *left } else { *right }).lemma_at_take(p.skip(1), k - 1); } }
        }
    }
    pub proof fn lemma_at_size(self, p: Seq<bool>)
        requires self.at(p) is Some
        ensures p.len() > 0 ==> self.at(p)->0.size() < self.size(), p.len() + self.at(p)->0.height() <= self.height()
        decreases p.len()
    { if p.len() > 0 { match self { Node::Leaf(_) => {}, Node::Branch { left, right } => { (if p[0] { *left } else { *right }).lemma_at_size(p.skip(1)); } } } }
}
/// the code of an element in a tree; the only element of a tree still needs a bit
pub open spec fn is_code<T>(root: Node<T>, c: Seq<bool>, t: T) -> bool {
    match root { Node::Leaf(x) => x == t && c == seq![true], Node::Branch { .. } => root.at(c) == Some(Node::Leaf(t)) }
}
/// the elements read from bits, and the path to where the bits after the last element lead
pub open spec fn run<T>(root: Node<T>, s: Seq<bool>) -> Option<(Seq<T>, Seq<bool>)> decreases s.len()
{
    if s.len() == 0 { Some((seq![], seq![])) } else {
        match run(root, s.drop_last()) {
            None => None,
            Some((o, p)) => match root {
                Node::Leaf(t) => if s.last() { Some((o.push(t), seq![])) } else { None },
                Node::Branch { .. } => match root.at(p.push(s.last())) { None => None, Some(Node::Leaf(t)) => Some((o.push(t), seq![])), Some(_) => Some((o, p.push(s.last()))) },
            },
        }
    }
}
pub proof fn lemma_run_inv<T>(root: Node<T>, s: Seq<bool>)
    ensures match run(root, s) { None => root is Leaf, Some((o, p)) => root.at(p) is Some && (p.len() > 0 ==> root is Branch) && (root is Branch ==> root.at(p)->0 is Branch) }
    decreases s.len()
{
    if s.len() > 0 {
        lemma_run_inv(root, s.drop_last());
        match run(root, s.drop_last()) { None => {}, Some((o, p)) => { root.lemma_at_push(p, s.last()); } }
    }
}
pub proof fn lemma_run_none<T>(root: Node<T>, s: Seq<bool>, k: int)
    requires 0 <= k <= s.len(), run(root, s.take(k)) is None
    ensures run(root, s) is None
    decreases s.len()
{
    if k < s.len() { assert(s.drop_last().take(k) =~= s.take(k)); lemma_run_none(root, s.drop_last(), k); } else { assert(s.take(k) =~= s); }
}
pub proof fn lemma_run_step<T>(root: Node<T>, s: Seq<bool>, c: Seq<bool>, o: Seq<T>, k: int)
    requires run(root, s) == Some((o, Seq::<bool>::empty())), root is Branch, root.at(c) is Some, 0 <= k < c.len()
    ensures run(root, s + c.take(k)) == Some((o, c.take(k)))
    decreases k
{
    if k == 0 { assert(s + c.take(0) =~= s); assert(c.take(0) =~= Seq::empty()); }
    else {
        lemma_run_step(root, s, c, o, k - 1);
        let w = s + c.take(k);
        assert(w.drop_last() =~= s + c.take(k - 1)); assert(w.last() == c[k - 1]);
        assert(c.take(k) =~= c.take(k - 1).push(c[k - 1]));
        root.lemma_at_take(c, k);
    }
}
pub proof fn lemma_run_code<T>(root: Node<T>, s: Seq<bool>, c: Seq<bool>, o: Seq<T>, t: T)
    requires run(root, s) == Some((o, Seq::<bool>::empty())), is_code(root, c, t)
    ensures run(root, s + c) == Some((o.push(t), Seq::<bool>::empty()))
{
    let w = s + c;
    match root {
        Node::Leaf(x) => { assert(w.drop_last() =~= s); assert(w.last() == true); }
        Node::Branch { .. } => {
            assert(c.len() > 0) by { if c.len() == 0 { assert(root.at(c) == Some(root)); } }
            let k = c.len() - 1;
            lemma_run_step(root, s, c, o, k);
            assert(w.drop_last() =~= s + c.take(k)); assert(w.last() == c[k]);
            assert(c =~= c.take(k).push(c[k]));
        }
    }
}
/// the bits which a series of elements is encoded as
pub open spec fn codes<T>(m: Map<T, Bits>, ts: Seq<T>) -> Seq<bool> decreases ts.len() { if ts.len() == 0 { seq![] } else { codes(m, ts.drop_last()) + m[ts.last()]@ } }
pub open spec fn is_table<T>(root: Node<T>, m: Map<T, Bits>) -> bool {
    &&& forall|t: T| #[trigger] m.contains_key(t) <==> root.has(t)
    &&& forall|t: T| #[trigger] m.contains_key(t) ==> m[t].wf() && is_code(root, m[t]@, t)
}
pub proof fn lemma_codes_run<T>(root: Node<T>, m: Map<T, Bits>, ts: Seq<T>)
    requires is_table(root, m), forall|k: int| 0 <= k < ts.len() ==> m.contains_key(#[trigger] ts[k])
    ensures run(root, codes(m, ts)) == Some((ts, Seq::<bool>::empty()))
    decreases ts.len()
{
    if ts.len() > 0 {
        let u = ts.drop_last();
        assert forall|k: int| 0 <= k < u.len() implies m.contains_key(#[trigger] u[k]) by { assert(u[k] == ts[k]); }
        lemma_codes_run(root, m, u);
        assert(m.contains_key(ts[ts.len() - 1]));
        lemma_run_code(root, codes(m, u), m[ts.last()]@, u, ts.last());
        assert(u.push(ts.last()) =~= ts);
    } else { assert(ts =~= Seq::empty()); }
}
/// a code is never longer than the tree is high
pub proof fn lemma_code_len<T>(root: Node<T>, c: Seq<bool>, t: T)
    requires is_code(root, c, t) ensures c.len() <= root.height() + 1
{ if root is Branch { root.lemma_at_size(c); } }
pub proof fn lemma_codes_len<T>(root: Node<T>, m: Map<T, Bits>, ts: Seq<T>)
    requires is_table(root, m), forall|k: int| 0 <= k < ts.len() ==> m.contains_key(#[trigger] ts[k]), root.height() <= MAX_TREE_DEPTH
    ensures codes(m, ts).len() <= 1001 * ts.len()
    decreases ts.len()
{
    if ts.len() > 0 {
        let u = ts.drop_last();
        assert forall|k: int| 0 <= k < u.len() implies m.contains_key(#[trigger] u[k]) by { assert(u[k] == ts[k]); }
        lemma_codes_len(root, m, u);
        assert(m.contains_key(ts[ts.len() - 1]));
        lemma_code_len(root, m[ts.last()]@, ts.last());
    }
}

#[verifier::reject_recursive_types(T)]
//@item - | struct Huffman nobounds
impl<T> Huffman<T> {
    pub open spec fn wf(&self) -> bool { is_table(self.root, self.to_bits@) && self.root.height() <= MAX_TREE_DEPTH }
    /// what is encoded is decoded again (by the same table, or by another one for an equal tree)
    pub proof fn lemma_round(&self, other: &Self, ts: Seq<T>)
        requires self.wf(), other.root == self.root, forall|k: int| 0 <= k < ts.len() ==> self.to_bits@.contains_key(#[trigger] ts[k])
        ensures run(other.root, codes(self.to_bits@, ts)) == Some((ts, Seq::<bool>::empty()))
    { lemma_codes_run(self.root, self.to_bits@, ts); }
}
impl<T> Node<T> {
//@fn impl<T: PartialEq> Node<T> | leaf_contents
        ensures r == (match *self { Node::Leaf(t) => Some(&t), Node::Branch { .. } => None }),
//@end
}

// ---- the table of codes
pub open spec fn path_bits(p: Seq<bool>) -> Seq<bool> { if p.len() == 0 { seq![true] } else { p } }
pub open spec fn path_to<T>(node: Node<T>, b: Seq<bool>, c: Seq<bool>, t: T, q: Seq<bool>) -> bool { node.at(q) == Some(Node::Leaf(t)) && c == path_bits(b + q) }
pub open spec fn spelt<T>(node: Node<T>, b: Seq<bool>, c: Seq<bool>, t: T) -> bool { exists|q: Seq<bool>| #[trigger] path_to(node, b, c, t, q) }
pub proof fn lemma_spelt<T>(node: Node<T>, d: bool, b: Seq<bool>, c: Seq<bool>, t: T)
    requires node is Branch, spelt(node.child(d)->0, b.push(d), c, t)
    ensures spelt(node, b, c, t)
{
    let q = choose|q: Seq<bool>| #[trigger] path_to(node.child(d)->0, b.push(d), c, t, q);
    let w = seq![d] + q;
    assert(w.skip(1) =~= q); assert(b + w =~= b.push(d) + q);
    assert(path_to(node, b, c, t, w));
}
pub proof fn lemma_spelt_code<T>(root: Node<T>, c: Seq<bool>, t: T)
    requires spelt(root, Seq::empty(), c, t)
    ensures is_code(root, c, t)
{
    let q = choose|q: Seq<bool>| #[trigger] path_to(root, Seq::empty(), c, t, q);
    assert(Seq::<bool>::empty() + q =~= q);
    if root is Leaf { assert(q.len() == 0); } else { assert(q.len() > 0) by { if q.len() == 0 { assert(root.at(q) == Some(root)); } } }
}
impl<T> Huffman<T> {
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | add_node_to_table
        requires bits_so_far.wf(), bits_so_far@.len() + node.height() < usize::MAX,
        ensures forall|t: U| #[trigger] final(to_bits)@.contains_key(t) <==> old(to_bits)@.contains_key(t) || node.has(t),
            forall|t: U| #[trigger] node.has(t) ==> final(to_bits)@[t].wf() && spelt(*node, bits_so_far@, final(to_bits)@[t]@, t),
            forall|t: U| !(#[trigger] node.has(t)) && old(to_bits)@.contains_key(t) ==> final(to_bits)@[t] == old(to_bits)@[t],
        decreases *node,
//@rw? `fn add_node_to_table<U: Hash + Eq + Clone>` => `fn add_node_to_table<U>` -- the traits stand in the contracts of the map and of clone_of
//@rw `ch.clone()` => `clone_of(ch)` -- Clone of an element
//@after `to_bits.insert(clone_of(ch), bits);`
                proof {
                    assert forall|t: U| !(#[trigger] node.has(t)) && old(to_bits)@.contains_key(t) implies to_bits@[t] == old(to_bits)@[t] by { assert(t != *ch); }
                    assert forall|t: U| #[trigger] node.has(t) implies spelt(*node, bits_so_far@, to_bits@[t]@, t) by {
                        let q = Seq::<bool>::empty(); assert(bits_so_far@ + q =~= bits_so_far@); assert(node.at(q) == Some(*node));
                        assert(to_bits@[t]@ =~= path_bits(bits_so_far@));
                        assert(path_to(*node, bits_so_far@, to_bits@[t]@, t, q));
                    }
                }
//@after `Self::add_node_to_table(left, to_bits, left_bits);`
                let ghost mid = to_bits@;
//@after `Self::add_node_to_table(right, to_bits, right_bits);`
                proof {
                    assert forall|t: U| !(#[trigger] node.has(t)) && old(to_bits)@.contains_key(t) implies to_bits@[t] == old(to_bits)@[t] by { assert(!left.has(t) && !right.has(t)); assert(mid.contains_key(t)); }
                    assert forall|t: U| #[trigger] node.has(t) implies to_bits@[t].wf() && spelt(*node, bits_so_far@, to_bits@[t]@, t) by {
                        if right.has(t) { lemma_spelt(*node, false, bits_so_far@, to_bits@[t]@, t); }
                        else { assert(left.has(t)); lemma_spelt(*node, true, bits_so_far@, to_bits@[t]@, t); }
                    }
                }
//@end
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | encode sig `fn encode(&self, from: Vec<T>) -> (r: Result<Bits, HuffmanSerError>)`
        requires self.wf(), 1001 * from@.len() <= usize::MAX,
        ensures r is Ok == (forall|k: int| 0 <= k < from@.len() ==> self.to_bits@.contains_key(#[trigger] from@[k])),
            r is Ok ==> r->Ok_0.wf() && r->Ok_0@ == codes(self.to_bits@, from@),
//@rw `from.into_iter().map(|x| self.to_bits.get(&x).cloned()).collect::<Option<_>>().ok_or(HuffmanSerError::UnableToCode)` => `let mut all: Vec<Bits> = Vec::new(); let mut found = true; for x in from { match self.to_bits.get(&x) { Some(b) => all.push(b.clone()), None => { found = false; } } } (if found { Some(bits_from_iter_bits(all)) } else { None }).ok_or(HuffmanSerError::UnableToCode)` -- map and collect written as the loop which they are (collect into an Option of Bits uses the FromIterator<Bits> under contract, and is None as soon as an element is)
//@entry
        let ghost ts = from@;
//@iter 0 it
//@loop 0
    invariant it.seq() == ts, self.wf(), found == (forall|k: int| 0 <= k < it.index() ==> self.to_bits@.contains_key(#[trigger] ts[k])),
        found ==> all@.len() == it.index() && forall|k: int| 0 <= k < all@.len() ==> (#[trigger] all@[k]) == self.to_bits@[ts[k]],
//@before `(if found`
        proof { if found { lemma_codes_len(self.root, self.to_bits@, ts); lemma_cat_codes(self.to_bits@, ts, all@); assert forall|k: int| 0 <= k < all@.len() implies (#[trigger] all@[k]).wf() by { assert(self.to_bits@.contains_key(ts[k])); } } }
//@end
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | decode
        requires bits.wf(),
        ensures match run(self.root, bits@) { Some((o, p)) => if p.len() == 0 { r is Ok && r->Ok_0@ == o } else { r is Err }, None => r is Err },
//@rw `for next_direction in bits {` => `for next_direction in bits_into_iter(bits) {` -- for calls the IntoIterator under contract
//@rw `found.leaf_contents().cloned()` => `opt_cloned(found.leaf_contents())` -- Option::cloned
//@rw `t.clone()` => `clone_of(t)` -- Clone of an element
//@rw `current_node != &self.root` => `!node_eq(current_node, &self.root)` -- the derived ==
//@rw `let new_node;` => `let new_node: &Node<T>;`
//@entry
        let ghost s = bits@; let ghost mut p = Seq::<bool>::empty();
        proof { lemma_run_inv(self.root, s); assert(s.take(0) =~= Seq::empty()); assert(s.take(s.len() as int) =~= s); }
//@iter 0 it
//@loop 0
    invariant it.seq() == s, run(self.root, s.take(it.index())) == Some((result@, p)), self.root.at(p) == Some(*current_node), s.take(s.len() as int) == s,
//@into 0
        proof {
            let i = it.index(); assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == next_direction);
            lemma_run_inv(self.root, s.take(i)); lemma_run_inv(self.root, s.take(i + 1)); self.root.lemma_at_push(p, next_direction);
            if run(self.root, s.take(i + 1)) is None { lemma_run_none(self.root, s, i + 1); }
        }
//@endof 0
        proof { p = (run(self.root, s.take(it.index() + 1))->0).1; }
//@before `if !node_eq(`
        proof { self.root.lemma_at_size(p); if p.len() == 0 { assert(self.root.at(p) == Some(self.root)); } }
//@end
}
pub proof fn lemma_cat_codes<T>(m: Map<T, Bits>, ts: Seq<T>, all: Seq<Bits>)
    requires all.len() == ts.len(), forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]) == m[ts[k]]
    ensures cat(all) == codes(m, ts)
    decreases ts.len()
{
    if ts.len() > 0 {
        let a = all.drop_last(); let u = ts.drop_last();
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]) == m[u[k]] by { assert(a[k] == all[k]); }
        lemma_cat_codes(m, u, a); assert(all[ts.len() - 1] == m[ts.last()]);
    }
}

// ---- building the tree
pub open spec fn wsum<T>(s: Seq<(T, usize)>) -> int { vsum(s) }
pub proof fn lemma_vsum_update<T>(s: Seq<(T, usize)>, i: int, x: (T, usize))
    requires 0 <= i < s.len() ensures vsum(s.update(i, x)) == vsum(s) - s[i].1 + x.1 decreases s.len()
{
    let u = s.update(i, x);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); } else { assert(u.drop_last() =~= s.drop_last().update(i, x)); lemma_vsum_update(s.drop_last(), i, x); }
}
pub proof fn lemma_vsum_pos<T>(s: Seq<(T, usize)>) ensures vsum(s) >= 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 <= vsum(s) decreases s.len()
{ if s.len() > 0 { lemma_vsum_pos(s.drop_last()); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 <= vsum(s) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
/// n is s without its i-th entry, the last one having taken its place
pub open spec fn without<T>(s: Seq<T>, i: int) -> Seq<T> { s.update(i, s.last()).drop_last() }
pub proof fn lemma_without<T>(s: Seq<(T, usize)>, i: int)
    requires 0 <= i < s.len()
    ensures vsum(without(s, i)) == vsum(s) - s[i].1, without(s, i).len() == s.len() - 1,
        forall|k: int| 0 <= k < s.len() - 1 ==> (#[trigger] without(s, i)[k]) == s[if k == i { s.len() - 1 } else { k }],
{ lemma_vsum_update(s, i, s.last()); }
pub proof fn lemma_vsum_take<T>(s: Seq<(T, usize)>, k: int)
    requires 0 <= k <= s.len() ensures vsum(s.take(k)) <= vsum(s) decreases s.len()
{ if k < s.len() { lemma_vsum_take(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); } }
pub open spec fn fib(n: nat) -> nat decreases n { if n == 0 { 0 } else if n == 1 { 1 } else { fib((n - 1) as nat) + fib((n - 2) as nat) } }
pub open spec fn fib2(n: nat, a: nat, b: nat) -> nat decreases n { if n == 0 { a } else { fib2((n - 1) as nat, b, a + b) } }
pub proof fn lemma_fib2(n: nat, k: nat) ensures fib2(n, fib(k), fib(k + 1)) == fib(n + k) decreases n { if n > 0 { lemma_fib2((n - 1) as nat, k + 1); } }
pub proof fn lemma_fib_mono(a: nat, b: nat) requires a <= b ensures fib(a) <= fib(b) decreases b { if a < b { lemma_fib_mono(a, (b - 1) as nat); } }
pub proof fn lemma_fib_94() ensures fib(94) > usize::MAX { lemma_fib2(94, 0); assert(fib2(94, 0, 1) > usize::MAX) by (compute); }
pub proof fn lemma_fib_values() ensures fib(0) == 0, fib(1) == 1, fib(2) == 1 { assert(fib(2) == fib(1) + fib(0)); }
/// joining the two lightest trees
pub proof fn lemma_join<T>(a: Node<T>, wa: usize, b: Node<T>, wb: usize, low: int)
    requires 1 <= low <= wa <= wb, fib(a.height() + 1) <= wa, fib(b.height() + 1) <= wb, fib(a.height()) <= low, fib(b.height()) <= low
    ensures ({ let h = 1 + if a.height() >= b.height() { a.height() } else { b.height() }; fib(h) <= wb && fib(h + 1) <= wa + wb })
{
    let k = if a.height() >= b.height() { a.height() } else { b.height() };
    assert(fib(k + 2) == fib(k + 1) + fib(k));
}
pub proof fn lemma_kept<T>(s: Seq<(Node<T>, usize)>, r: Seq<(Node<T>, usize)>, i: int)
    requires 0 <= i < s.len(), r == without(s, i)
    ensures forall|t: T| #[trigger] any_has(s, t) <==> any_has(r, t) || s[i].0.has(t)
{
    lemma_without(s, i);
    assert forall|t: T| #[trigger] any_has(s, t) <==> any_has(r, t) || s[i].0.has(t) by {
        if any_has(s, t) && !s[i].0.has(t) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.has(t); let j = if k == s.len() - 1 { i } else { k }; assert(r[j] == s[k]); assert(r[j].0.has(t)); }
        if any_has(r, t) { let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0.has(t); assert(r[k] == s[if k == i { s.len() - 1 } else { k }]); assert(s[if k == i { s.len() - 1 } else { k }].0.has(t)); }
        if s[i].0.has(t) {}
    }
}
/// what holds of the entries while trees are joined: m is at most every weight, and at least the Fibonacci number of every height
pub open spec fn balanced<T>(l: Seq<(Node<T>, usize)>, m: int) -> bool {
    forall|i: int| 0 <= i < l.len() ==> m <= (#[trigger] l[i]).1 && fib(l[i].0.height() + 1) <= l[i].1 && fib(l[i].0.height()) <= m
}
pub open spec fn any_has<T>(l: Seq<(Node<T>, usize)>, t: T) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.has(t) }

//@item - | const MAX_TREE_DEPTH
/// trees which are built can be deserialised, and the codes stay short
pub proof fn lemma_depth() ensures 92 <= MAX_TREE_DEPTH <= 1000 {}
//@item - | struct MinHeap
impl<T> MinHeap<T> {
//@fn impl<T> MinHeap<T> | new
        ensures r.list == list,
//@end
//@fn impl<T> MinHeap<T> | push
        ensures final(self).list@ == old(self).list@.push((item, weight)),
//@end
//@fn impl<T> Iterator for MinHeap<T> | next as next sig `fn next(&mut self) -> (r: Option<(T, usize)>)`
        ensures match r {
            Some(x) => old(self).list@.len() > 0 && vsum(final(self).list@) == vsum(old(self).list@) - x.1
                && (exists|i: int| 0 <= i < old(self).list@.len() && #[trigger] without(old(self).list@, i) == final(self).list@ && x == old(self).list@[i])
                && forall|k: int| 0 <= k < old(self).list@.len() ==> x.1 <= (#[trigger] old(self).list@[k]).1,
            None => old(self).list@.len() == 0 && final(self).list@ == old(self).list@,
        },
//@rw `self.list.iter().enumerate().min_by_key(|(_i, (_t, weight))| *weight)?.0` => `least(&self.list)?` -- enumerate and min_by_key give the index of an entry of least weight
//@exit
        proof { lemma_without(self.list@, index as int); }
//@end
}
impl<T> Huffman<T> {
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | data_to_node_tree sig `fn data_to_node_tree(data: Vec<T>) -> (r: Result<Node<T>, HuffmanSerError>)`
        ensures r is Ok == (data@.len() > 0),
            r is Ok ==> r->Ok_0.height() <= 92 && forall|t: T| #[trigger] r->Ok_0.has(t) <==> data@.contains(t),
//@rw `*frequency_table.entry(ch).or_default() += 1_usize;` => `frequency_table.add_to(ch, 1_usize);` -- the entry of a map
//@rw `HashMap::new()` => `HashMap::<T, usize>::new()`
//@entry
        let ghost s = data@; proof { assert(data.len() <= usize::MAX); }
//@iter 0 it
//@loop 0
    invariant it.seq() == s, s.len() <= usize::MAX, frequency_table@.dom().finite(), msum(frequency_table@) == it.index(),
        forall|t: T| #[trigger] frequency_table@.contains_key(t) <==> s.take(it.index()).contains(t),
        forall|t: T| #[trigger] frequency_table@.contains_key(t) ==> frequency_table@[t] >= 1,
//@into 0
            let ghost m = frequency_table@; let ghost i = it.index();
            proof { if m.contains_key(ch) { lemma_msum_any(m, ch); } }
//@endof 0
            proof {
                lemma_msum_insert(m, ch, frequency_table@[ch]);
                assert(s.take(i + 1) =~= s.take(i).push(ch));
                assert forall|t: T| #[trigger] frequency_table@.contains_key(t) <==> s.take(i + 1).contains(t) by {
                    if s.take(i).contains(t) { let w = s.take(i); let k = choose|k: int| 0 <= k < w.len() && w[k] == t; assert(s.take(i + 1)[k] == t); }
                    if t == ch { assert(s.take(i + 1)[i] == t); }
                    if s.take(i + 1).contains(t) && t != ch { let w = s.take(i + 1); let k = choose|k: int| 0 <= k < w.len() && w[k] == t; assert(s.take(i)[k] == t); }
                }
            }
//@exit
        proof { assert(s.take(s.len() as int) =~= s);
            if s.len() > 0 { assert(s.contains(s[0])); assert(frequency_table@.contains_key(s[0])); }
            else { assert(frequency_table@ =~= Map::<T, usize>::empty()) by { assert forall|t: T| !frequency_table@.contains_key(t) by { if s.contains(t) {} } } } }
//@end
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | data_with_frequencies_to_node_tree
        requires data@.dom().finite(), msum(data@) <= usize::MAX, forall|t: T| #[trigger] data@.contains_key(t) ==> data@[t] >= 1,
        ensures r is Ok == (data@ != Map::<T, usize>::empty()),
            r is Ok ==> r->Ok_0.height() <= 92 && forall|t: T| #[trigger] r->Ok_0.has(t) <==> data@.contains_key(t),
//@rw `for (ch, freq) in data {` => `let entries = data.into_vec(); for entry in entries { let (ch, freq) = entry;` -- a map is iterated in some order
//@rw `*frequency_table.entry(Node::Leaf(ch)).or_default() += freq;` => `frequency_table.add_to(Node::Leaf(ch), freq);` -- the entry of a map
//@rw `frequency_table.into_iter().collect()` => `frequency_table.into_vec()` -- a map is collected in some order
//@entry
        let ghost d = data@; 
//@iter 0 it
//@before `for entry in`
        let ghost es = entries@; proof { lemma_vsum(es, d); assert(es.take(0) =~= Seq::empty()); assert(es.take(es.len() as int) =~= es); }
//@loop 0
    invariant it.seq() == es, is_entries(es, d), vsum(es) == msum(d), msum(d) <= usize::MAX, forall|t: T| #[trigger] d.contains_key(t) ==> d[t] >= 1,
        frequency_table@.dom().finite(), msum(frequency_table@) == vsum(es.take(it.index())),
        forall|n: Node<T>| #[trigger] frequency_table@.contains_key(n) ==> frequency_table@[n] >= 1 && exists|k: int| 0 <= k < it.index() && n == Node::Leaf((#[trigger] es[k]).0),
        forall|k: int| 0 <= k < it.index() ==> frequency_table@.contains_key(Node::Leaf((#[trigger] es[k]).0)),
//@into 0
            let ghost m = frequency_table@; let ghost i = it.index(); 
            proof {
                lemma_vsum_take(es, i + 1); assert(es.take(i + 1).drop_last() =~= es.take(i)); assert(d.contains_key(es[i].0)); lemma_msum_pos(m);
                let n = Node::Leaf(es[i].0); if m.contains_key(n) { lemma_msum_any(m, n); }
            }
//@endof 0
            proof { lemma_msum_insert(m, Node::Leaf(ch), frequency_table@[Node::Leaf(ch)]); }
//@after `let mut min_heap: MinHeap<Node<T>>`
        let ghost mut low: int = 1;
        proof {
            let l = min_heap.list@; let m = frequency_table@;
            lemma_fib_values(); lemma_vsum(l, m);
            assert forall|i: int| 0 <= i < l.len() implies 1 <= (#[trigger] l[i]).1 && fib(l[i].0.height() + 1) <= l[i].1 && fib(l[i].0.height()) <= 1 by { assert(m.contains_key(l[i].0)); }
            assert forall|t: T| d.contains_key(t) <==> #[trigger] any_has(l, t) by {
                if d.contains_key(t) { assert(m.contains_key(Node::Leaf(t))); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == Node::Leaf(t); assert(l[i].0.has(t)); }
                if any_has(l, t) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.has(t); assert(m.contains_key(l[i].0)); }
            }
            assert(l.len() > 0) by { let t = choose|t: T| d.contains_key(t); assert(d.contains_key(t)) by { if forall|t: T| !d.contains_key(t) { assert(d =~= Map::<T, usize>::empty()); } } assert(any_has(l, t)); }
        }
//@loop 1
    invariant d == data@, min_heap.list@.len() > 0, vsum(min_heap.list@) <= usize::MAX, balanced(min_heap.list@, low), low >= 1, forall|t: T| d.contains_key(t) <==> #[trigger] any_has(min_heap.list@, t), d != Map::<T, usize>::empty(),
    decreases min_heap.list@.len(),
//@into 1
            let ghost l0 = min_heap.list@;
//@before `let Some((next_least_frequent_ch`
            let ghost l1 = min_heap.list@; let ghost a = least_frequent_ch; let ghost wa = least_frequent_weight;
            let ghost i0 = choose|i: int| 0 <= i < l0.len() && #[trigger] without(l0, i) == l1 && l0[i] == (a, wa);
            proof { lemma_without(l0, i0); lemma_vsum_pos(l0); lemma_fib_94(); if a.height() + 1 >= 94 { lemma_fib_mono(94, a.height() + 1); }
                if l0.len() == 1 { assert forall|t: T| #[trigger] a.has(t) <==> d.contains_key(t) by { assert(l0[0] == (a, wa)); if a.has(t) { assert(l0[0].0.has(t)); assert(any_has(l0, t)); } if d.contains_key(t) { assert(any_has(l0, t)); let i = choose|i: int| 0 <= i < l0.len() && (#[trigger] l0[i]).0.has(t); assert(i == 0); } } } }
//@before `let new_node =`
            let ghost l2 = min_heap.list@; let ghost b = next_least_frequent_ch; let ghost wb = next_least_frequent_weight;
            let ghost i1 = choose|i: int| 0 <= i < l1.len() && #[trigger] without(l1, i) == l2 && l1[i] == (b, wb);
            proof { lemma_without(l1, i1); lemma_vsum_pos(l2); lemma_vsum_pos(l1); }
//@endof 1
            proof {
                let l3 = min_heap.list@; let n = new_node_g;
                assert(l3.drop_last() =~= l2);
                lemma_join(a, wa, b, wb, low);
                lemma_kept(l0, l1, i0); lemma_kept(l1, l2, i1);
                assert(l1[i1] == l0[if i1 == i0 { l0.len() - 1 } else { i1 }]);
                assert(balanced(l3, wb as int)) by {
                    assert forall|i: int| 0 <= i < l3.len() implies wb <= (#[trigger] l3[i]).1 && fib(l3[i].0.height() + 1) <= l3[i].1 && fib(l3[i].0.height()) <= wb by {
                        if i < l2.len() { assert(l3[i] == l2[i]); assert(l2[i] == l1[if i == i1 { l1.len() - 1 } else { i }]); }
                    }
                }
                assert forall|t: T| d.contains_key(t) <==> #[trigger] any_has(l3, t) by {
                    assert(any_has(l0, t) <==> any_has(l1, t) || a.has(t)); assert(any_has(l1, t) <==> any_has(l2, t) || b.has(t));
                    if any_has(l2, t) { let i = choose|i: int| 0 <= i < l2.len() && (#[trigger] l2[i]).0.has(t); assert(l3[i].0.has(t)); }
                    if n.has(t) { assert(l3[l3.len() - 1].0.has(t)); }
                    if any_has(l3, t) { let i = choose|i: int| 0 <= i < l3.len() && (#[trigger] l3[i]).0.has(t); if i < l2.len() { assert(l2[i].0.has(t)); } }
                }
                low = wb as int;
            }
//@after `let new_node =`
            let ghost new_node_g = new_node;
//@end
}
#[verifier::external_body]
pub fn clone_vec<T>(t: &Vec<T>) -> (r: Vec<T>) ensures r@ == t@, { unimplemented!() }
impl<T> Huffman<T> {
    pub open spec fn knows(&self, data: Seq<T>) -> bool { forall|t: T| #[trigger] self.to_bits@.contains_key(t) <==> data.contains(t) }
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | new sig `fn new(data: Vec<T>) -> (r: Result<Self, HuffmanSerError>)`
        ensures r is Ok == (data@.len() > 0), r is Ok ==> r->Ok_0.wf() && r->Ok_0.knows(data@),
//@entry
        let ghost s = data@;
//@exit
        proof { lemma_table(root, to_bits@); }
//@end
//@fn impl<T: Eq + Hash + Clone> Huffman<T> | new_and_encode sig `fn new_and_encode(data: Vec<T>) -> (r: Result<(Self, Bits), HuffmanSerError>)`
        requires 1001 * data@.len() <= usize::MAX,
        ensures r is Ok == (data@.len() > 0),
            r is Ok ==> r->Ok_0.0.wf() && r->Ok_0.0.knows(data@) && r->Ok_0.1.wf() && r->Ok_0.1@ == codes(r->Ok_0.0.to_bits@, data@),
//@rw `data.clone()` => `clone_vec(&data)` -- iterating twice over the same elements
//@after `let huffman =`
        proof { assert forall|k: int| 0 <= k < data@.len() implies huffman.to_bits@.contains_key(#[trigger] data@[k]) by { assert(data@.contains(data@[k])); } }
//@end
}
pub proof fn lemma_table<T>(root: Node<T>, m: Map<T, Bits>)
    requires forall|t: T| #[trigger] m.contains_key(t) <==> root.has(t), forall|t: T| #[trigger] root.has(t) ==> m[t].wf() && spelt(root, Seq::<bool>::empty(), m[t]@, t)
    ensures is_table(root, m)
{ assert forall|t: T| #[trigger] m.contains_key(t) implies m[t].wf() && is_code(root, m[t]@, t) by { assert(root.has(t)); lemma_spelt_code(root, m[t]@, t); } }

// ---- the serialised form of a tree
pub open spec fn node_enc_u8(n: Node<u8>) -> Seq<u8> decreases n { match n { Node::Leaf(c) => seq![1u8, c], Node::Branch { left, right } => seq![0u8] + node_enc_u8(*left) + node_enc_u8(*right) } }
pub open spec fn node_enc_char(n: Node<char>) -> Seq<u8> decreases n { match n { Node::Leaf(c) => uenc(c as int + 1), Node::Branch { left, right } => seq![0u8] + node_enc_char(*left) + node_enc_char(*right) } }
// `char::try_from(u32)`
#[verifier::external_body]
pub fn char_of(n: u32) -> (r: Result<char, ()>) ensures r is Ok == (n < 0xd800 || 0xe000 <= n <= 0x10ffff), r is Ok ==> r->Ok_0 as u32 == n, { unimplemented!() }
pub proof fn lemma_char(c: char, n: u32) requires c as u32 == n ensures n < 0xd800 || 0xe000 <= n <= 0x10ffff {}
pub proof fn lemma_char_inj(c: char, d: char) requires c as u32 == d as u32 ensures c == d {}
pub proof fn lemma_prefix(a: Seq<u8>, b: Seq<u8>, rest: Seq<u8>)
    requires (a + b).is_prefix_of(rest) ensures a.is_prefix_of(rest), b.is_prefix_of(rest.skip(a.len() as int))
{ assert((a + b).take(a.len() as int) =~= a); let e = a + b; assert forall|k: int| 0 <= k < b.len() implies b[k] == rest.skip(a.len() as int)[k] by { assert(e[a.len() + k] == rest[a.len() + k]); }
  assert forall|k: int| 0 <= k < a.len() implies a[k] == rest[k] by { assert(e[k] == rest[k]); } 
  assert(rest.take(a.len() as int) =~= a); assert(rest.skip(a.len() as int).take(b.len() as int) =~= b); }
pub proof fn lemma_leaf_u8(rest: Seq<u8>)
    ensures forall|n: Node<u8>| #[trigger] node_enc_u8(n).is_prefix_of(rest) ==> rest.len() > 0 && (match n { Node::Leaf(c) => rest.len() >= 2 && rest[0] == 1 && rest[1] == c, Node::Branch { .. } => rest[0] == 0 })
{
    assert forall|n: Node<u8>| #[trigger] node_enc_u8(n).is_prefix_of(rest) implies rest.len() > 0 && (match n { Node::Leaf(c) => rest.len() >= 2 && rest[0] == 1 && rest[1] == c, Node::Branch { .. } => rest[0] == 0 }) by {
        let e = node_enc_u8(n); assert(e[0] == rest[0]);
        if n is Leaf { assert(e[1] == rest[1]); }
    }
}
pub proof fn lemma_uenc_first(v: int) requires 0 < v < pow256(16) ensures uenc(v).len() > 0, uenc(v)[0] != 0
{
    lemma_uenc_has(v); let i = choose|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned && i.value() == v;
    i.lemma_value(); lemma_pow_values();
    if i.number_of_bytes_used <= 1 && i.content@[0] <= 239 && i.content@[0] == 0 { assert(i.content@ =~= Seq::new(16, |k: int| 0u8)); lemma_le_zero(i.content@); }
}
pub proof fn lemma_le_zero(s: Seq<u8>) requires forall|k: int| 0 <= k < s.len() ==> s[k] == 0 ensures le(s) == 0 decreases s.len() { if s.len() > 0 { lemma_le_zero(s.skip(1)); } }
pub proof fn lemma_leaf_char(rest: Seq<u8>)
    ensures forall|n: Node<char>| #[trigger] node_enc_char(n).is_prefix_of(rest) ==> rest.len() > 0 && (match n { Node::Leaf(c) => rest[0] != 0 && ud_canon(rest) && ud_val(rest) == c as int + 1 && dec_len(rest) == node_enc_char(n).len(), Node::Branch { .. } => rest[0] == 0 })
{
    assert forall|n: Node<char>| #[trigger] node_enc_char(n).is_prefix_of(rest) implies rest.len() > 0 && (match n { Node::Leaf(c) => rest[0] != 0 && ud_canon(rest) && ud_val(rest) == c as int + 1 && dec_len(rest) == node_enc_char(n).len(), Node::Branch { .. } => rest[0] == 0 }) by {
        let e = node_enc_char(n);
        match n {
            Node::Leaf(c) => { lemma_pow_values(); lemma_uenc_first(c as int + 1); assert(e[0] == rest[0]); assert(e + Seq::<u8>::empty() =~= e); lemma_u_prefix(c as int + 1, Seq::empty(), rest); }
            Node::Branch { .. } => { assert(e[0] == rest[0]); }
        }
    }
}
//@each t=u8 | t=char
pub proof fn lemma_branch_${t}(rest: Seq<u8>)
    ensures rest.len() > 0 && rest[0] == 0 ==> forall|n: Node<${t}>| #[trigger] node_enc_${t}(n).is_prefix_of(rest) ==> match n {
        Node::Leaf(_) => false,
        Node::Branch { left, right } => node_enc_${t}(*left).is_prefix_of(rest.skip(1)) && node_enc_${t}(*right).is_prefix_of(rest.skip(1).skip(node_enc_${t}(*left).len() as int)) && node_enc_${t}(n).len() == 1 + node_enc_${t}(*left).len() + node_enc_${t}(*right).len(),
    }
{
    if rest.len() > 0 && rest[0] == 0 {
        assert forall|n: Node<${t}>| #[trigger] node_enc_${t}(n).is_prefix_of(rest) implies match n {
            Node::Leaf(_) => false,
            Node::Branch { left, right } => node_enc_${t}(*left).is_prefix_of(rest.skip(1)) && node_enc_${t}(*right).is_prefix_of(rest.skip(1).skip(node_enc_${t}(*left).len() as int)) && node_enc_${t}(n).len() == 1 + node_enc_${t}(*left).len() + node_enc_${t}(*right).len(),
        } by {
            match n {
                Node::Leaf(_) => { lemma_leaf_${t}(rest); assert(node_enc_${t}(n)[0] == rest[0]); }
                Node::Branch { left, right } => {
                    let (a, b) = (node_enc_${t}(*left), node_enc_${t}(*right));
                    assert(seq![0u8] + a + b =~= seq![0u8] + (a + b));
                    lemma_prefix(seq![0u8], a + b, rest); lemma_prefix(a, b, rest.skip(1));
                }
            }
        }
    }
}
impl Node<${t}> {
//@fn impl Node<${t}> | ser
        ensures r@ == node_enc_${t}(*self),
        decreases *self,
//@rw? `res.extend(` => `res.extend_vec(` -- Vec's extend by a vector
//@entry
        proof { lemma_uenc_all(); }
//@end
//@fn impl Node<${t}> | deser sig `fn deser(cursor: &mut Cursor<u8>) -> (r: Result<Self, HuffmanSerError>)`
        requires old(cursor).wf(),
        ensures final(cursor).wf(), final(cursor).data() == old(cursor).data(), old(cursor).pos <= final(cursor).pos,
            r is Ok ==> r->Ok_0.height() <= MAX_TREE_DEPTH,
            forall|n: Node<${t}>| #[trigger] node_enc_${t}(n).is_prefix_of(old(cursor).rest()) && n.height() <= MAX_TREE_DEPTH ==> r == Ok::<Node<${t}>, HuffmanSerError>(n) && final(cursor).pos == old(cursor).pos + node_enc_${t}(n).len(),
//@end
//@fn impl Node<${t}> | deser_at_depth sig `fn deser_at_depth(cursor: &mut Cursor<u8>, depth: usize) -> (r: Result<Self, HuffmanSerError>)`
        requires old(cursor).wf(), depth <= MAX_TREE_DEPTH + 1,
        ensures final(cursor).wf(), final(cursor).data() == old(cursor).data(), old(cursor).pos <= final(cursor).pos,
            r is Ok ==> depth + r->Ok_0.height() <= MAX_TREE_DEPTH,
            forall|n: Node<${t}>| #[trigger] node_enc_${t}(n).is_prefix_of(old(cursor).rest()) && depth + n.height() <= MAX_TREE_DEPTH ==> r == Ok::<Node<${t}>, HuffmanSerError>(n) && final(cursor).pos == old(cursor).pos + node_enc_${t}(n).len(),
        decreases MAX_TREE_DEPTH + 1 - depth,
//@rw? `char::try_from(ch)` => `char_of(ch)` -- the scalar values are chars
//@entry
        let ghost rest = cursor.rest();
        proof { lemma_branch_${t}(rest); lemma_leaf_${t}(rest); lemma_ud_read_all(rest); }
//@before `let left =`
                proof { assert(cursor.rest() =~= rest.skip(1)); }
//@before `let right =`
                proof { assert(cursor.rest() =~= rest.skip(1).skip(cursor.pos - old(cursor).pos - 1)); }
//@end
}
//@endeach
// the characters of a string, and the string of some characters
#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@, { unimplemented!() }
#[verifier::external_body]
pub fn string_of(s: Vec<char>) -> (r: alloc::string::String) ensures r@ == s@, { unimplemented!() }
//@each t=u8 | t=char
impl Huffman<${t}> {
//@fn impl Huffman<${t}> | ser
        ensures r@ == node_enc_${t}(self.root),
//@end
//@fn impl Huffman<${t}> | deser sig `fn deser(bytes: &mut Cursor<u8>) -> (r: Result<Self, HuffmanSerError>)`
        requires old(bytes).wf(),
        ensures final(bytes).wf(), final(bytes).data() == old(bytes).data(), old(bytes).pos <= final(bytes).pos,
            r is Ok ==> r->Ok_0.wf(),
            forall|n: Node<${t}>| #[trigger] node_enc_${t}(n).is_prefix_of(old(bytes).rest()) && n.height() <= MAX_TREE_DEPTH ==> r is Ok && r->Ok_0.root == n && final(bytes).pos == old(bytes).pos + node_enc_${t}(n).len(),
//@exit
        proof { lemma_table(root, to_bits@); }
//@end
}
//@endeach
impl Huffman<char> {
//@fn impl Huffman<char> | new_str sig `fn new_str(str: &str) -> (r: Result<Self, HuffmanSerError>)`
        ensures r is Ok == (str@.len() > 0), r is Ok ==> r->Ok_0.wf() && r->Ok_0.knows(str@),
//@rw `str.as_ref().chars()` => `chars_of(str)` -- the characters of the string
//@end
//@fn impl Huffman<char> | encode_string sig `fn encode_string(&self, str: &str) -> (r: Result<Bits, HuffmanSerError>)`
        requires self.wf(), 1001 * str@.len() <= usize::MAX,
        ensures r is Ok == (forall|k: int| 0 <= k < str@.len() ==> self.to_bits@.contains_key(#[trigger] str@[k])),
            r is Ok ==> r->Ok_0.wf() && r->Ok_0@ == codes(self.to_bits@, str@),
//@rw `str.as_ref().chars()` => `chars_of(str)` -- the characters of the string
//@end
//@fn impl Huffman<char> | decode_string sig `fn decode_string(&self, bits: Bits) -> (r: Result<alloc::string::String, HuffmanSerError>)`
        requires bits.wf(),
        ensures match run(self.root, bits@) { Some((o, p)) => if p.len() == 0 { r is Ok && r->Ok_0@ == o } else { r is Err }, None => r is Err },
//@rw `self.decode(bits)?.into_iter().collect()` => `string_of(self.decode(bits)?)` -- characters collected into a string
//@end
}
// an array of letters and weights collected into a map
pub trait LetterMap { fn letter_map(self) -> HashMap<char, usize>; }
impl<const N: usize> LetterMap for [(u8, usize); N] {
    #[verifier::external_body]
    fn letter_map(self) -> (r: HashMap<char, usize>)
        ensures r@.dom().finite(), (N > 0) == (r@ != Map::<char, usize>::empty()),
            (forall|i: int| 0 <= i < N ==> 1 <= (#[trigger] self@[i]).1 <= 100_000_000) && N <= 1000 ==> msum(r@) <= 100_000_000_000 && forall|c: char| #[trigger] r@.contains_key(c) ==> r@[c] >= 1,
    { unimplemented!() }
}
impl Huffman<char> {
//@fn impl Huffman<char> | new_with_english_frequencies
        ensures r.wf(), r.root.height() <= 92,
//@rw `.into_iter().map(|(ch, f)| (char::from(ch), f)).collect()` => `.letter_map()` -- the pairs collected into a map
//@exit
        proof { lemma_table(root, chars_to_bits@); }
//@end
}
