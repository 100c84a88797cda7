//! needs core
// The hash maps of hashbrown, of which it is assumed that they are maps: keys which are equal are the same key.
use alloc::vec::Vec;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }, { unimplemented!() }
    // the entries in some order, each once
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<(K, V)>) ensures is_entries(r@, self@), { unimplemented!() }
}
impl<K> HashMap<K, usize> {
    // `*entry(k).or_default() += n`
    #[verifier::external_body]
    pub fn add_to(&mut self, k: K, n: usize)
        requires (if old(self)@.contains_key(k) { old(self)@[k] as int } else { 0 }) + n <= usize::MAX,
        ensures final(self)@ == old(self)@.insert(k, ((if old(self)@.contains_key(k) { old(self)@[k] as int } else { 0 }) + n) as usize),
    { unimplemented!() }
}
pub open spec fn is_entries<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& m.dom().finite() && s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// the sum of the values
pub open spec fn vsum<K>(s: Seq<(K, usize)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { vsum(s.drop_last()) + s.last().1 } }
pub open spec fn msum<K>(m: Map<K, usize>) -> int { msum_n(m, m.dom().len()) }
pub open spec fn msum_n<K>(m: Map<K, usize>, n: nat) -> int decreases n
{ if n == 0 { 0 } else { let k = m.dom().choose(); m[k] + msum_n(m.remove(k), (n - 1) as nat) } }
pub proof fn lemma_msum_any<K>(m: Map<K, usize>, k: K)
    requires m.dom().finite(), m.contains_key(k)
    ensures msum(m) == m[k] + msum(m.remove(k)), msum(m) >= m[k]
    decreases m.dom().len()
{
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::<K>::empty()); } }
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    lemma_msum_pos(m.remove(k));
    if c != k {
        lemma_msum_any(m.remove(c), k);
        lemma_msum_any(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn lemma_msum_pos<K>(m: Map<K, usize>) requires m.dom().finite() ensures msum(m) >= 0 decreases m.dom().len()
{
    if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); lemma_msum_pos(m.remove(k)); }
}
pub proof fn lemma_msum_insert<K>(m: Map<K, usize>, k: K, v: usize)
    requires m.dom().finite()
    ensures msum(m.insert(k, v)) == msum(m) + v - (if m.contains_key(k) { m[k] as int } else { 0 }), m.insert(k, v).dom().finite()
{
    let n = m.insert(k, v);
    assert(n.dom() =~= m.dom().insert(k));
    lemma_msum_any(n, k);
    if m.contains_key(k) { lemma_msum_any(m, k); assert(n.remove(k) =~= m.remove(k)); }
    else { assert(n.remove(k) =~= m); }
}
pub proof fn lemma_vsum<K>(s: Seq<(K, usize)>, m: Map<K, usize>)
    requires is_entries(s, m)
    ensures vsum(s) == msum(m)
    decreases s.len()
{
    if s.len() > 0 {
        let k = s.last().0; let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        let t = s.drop_last();
        assert(is_entries(t, n)) by {
            assert forall|i: int| 0 <= i < t.len() implies n.contains_key((#[trigger] t[i]).0) && n[t[i].0] == t[i].1 by { assert(t[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); }
            assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); }
            assert forall|x: K| #[trigger] n.contains_key(x) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == x by {
                assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x;
                assert(i != s.len() - 1); assert(t[i].0 == x);
            }
        }
        lemma_vsum(t, n); lemma_msum_any(m, k);
    } else { assert(m.dom().len() == 0); }
}
