@@ HashMap and HashSet, as the mathematical map and set of their keys (VxMap, VxSet).
@spec collections
/// What counts as the identity of a key: its value for numbers, its characters for strings.
pub trait VxKey { type KV; spec fn vx_key(&self) -> Self::KV; }
impl VxKey for u32 { type KV = u32; open spec fn vx_key(&self) -> u32 { *self } }
impl VxKey for String { type KV = Seq<char>; open spec fn vx_key(&self) -> Seq<char> { self@ } }
impl VxKey for str { type KV = Seq<char>; open spec fn vx_key(&self) -> Seq<char> { self@ } }

pub mod vx_coll {
use super::*;
/// whether two keys are the same: Eq (and Hash) of the key types decide by what vx_key gives
#[verifier::external_body]
pub fn vx_same_key<A: VxKey + ?Sized, B: VxKey<KV = A::KV> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vx_key() == b.vx_key()) { unimplemented!() }
/// HashSet: its elements, in a vector (an element that is there is not replaced)
#[verifier::reject_recursive_types(T)]
pub struct VxSet<T> { v: Vec<T> }
pub open spec fn vx_keys_of<T: VxKey>(s: Seq<T>) -> Seq<T::KV> { s.map_values(|t: T| t.vx_key()) }
impl<T: VxKey> View for VxSet<T> { type V = Set<T::KV>; closed spec fn view(&self) -> Set<T::KV> { vx_keys_of(self.v@).to_set() } }
/// the place of the last element with the key, from `n` down
fn vx_place<T: VxKey, Q: VxKey<KV = T::KV> + ?Sized>(v: &Vec<T>, n: usize, q: &Q) -> (r: Option<usize>)
    requires n <= v@.len(),
    ensures match r { Some(i) => i < n && v@[i as int].vx_key() == q.vx_key() && forall|j: int| i < j < n ==> (#[trigger] v@[j]).vx_key() != q.vx_key(), None => forall|j: int| 0 <= j < n ==> (#[trigger] v@[j]).vx_key() != q.vx_key() },
{
    let mut i = n;
    while i > 0
        invariant i <= n <= v@.len(), forall|j: int| i <= j < n ==> (#[trigger] v@[j]).vx_key() != q.vx_key(),
        decreases i
    { i = i - 1; if vx_same_key(&v[i], q) { return Some(i); } }
    None
}
proof fn vx_in_keys<T: VxKey>(s: Seq<T>, k: T::KV) ensures vx_keys_of(s).to_set().contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k {
    if vx_keys_of(s).contains(k) { let i = choose|i: int| 0 <= i < vx_keys_of(s).len() && vx_keys_of(s)[i] == k; assert(s[i].vx_key() == k); }
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k; assert(vx_keys_of(s)[i] == k); }
}
proof fn vx_keys_push<T: VxKey>(s: Seq<T>, t: T) ensures vx_keys_of(s.push(t)).to_set() == vx_keys_of(s).to_set().insert(t.vx_key()) {
    assert forall|k: T::KV| vx_keys_of(s.push(t)).to_set().contains(k) <==> vx_keys_of(s).to_set().insert(t.vx_key()).contains(k) by {
        vx_in_keys(s.push(t), k); vx_in_keys(s, k);
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k; assert(s.push(t)[i].vx_key() == k); }
        if t.vx_key() == k { assert(s.push(t)[s.len() as int].vx_key() == k); }
        if exists|i: int| 0 <= i < s.push(t).len() && (#[trigger] s.push(t)[i]).vx_key() == k { let i = choose|i: int| 0 <= i < s.push(t).len() && (#[trigger] s.push(t)[i]).vx_key() == k; if i < s.len() { assert(s[i].vx_key() == k); } }
    }
    assert(vx_keys_of(s.push(t)).to_set() =~= vx_keys_of(s).to_set().insert(t.vx_key()));
}
/// the number of different keys
fn vx_distinct<T: VxKey>(v: &Vec<T>) -> (r: usize) ensures r == vx_keys_of(v@).to_set().len(), {
    let mut n: usize = 0;
    let mut i: usize = 0;
    assert(vx_keys_of(v@.take(0)).to_set() =~= Set::<T::KV>::empty());
    assert(v@.len() == v.len());
    while i < v.len()
        invariant 0 <= i <= v@.len(), n <= i, v@.len() == v.len(), n == vx_keys_of(v@.take(i as int)).to_set().len(),
        decreases v@.len() - i
    {
        let f = vx_place(v, i, &v[i]);
        proof {
            let s = v@.take(i as int);
            assert(v@.take(i as int + 1) =~= s.push(v@[i as int]));
            vx_keys_push(s, v@[i as int]);
            vx_in_keys(s, v@[i as int].vx_key());
            match f { Some(j) => { assert(s[j as int].vx_key() == v@[i as int].vx_key()); assert(vx_keys_of(s).to_set().insert(v@[i as int].vx_key()) =~= vx_keys_of(s).to_set()); } None => { assert(forall|j: int| 0 <= j < i ==> s[j].vx_key() == (#[trigger] v@[j]).vx_key()); assert(forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).vx_key() != v@[i as int].vx_key()); } }
        }
        if f.is_none() { n = n + 1; }
        i = i + 1;
    }
    proof { assert(v@.take(i as int) =~= v@); }
    n
}
impl<T: VxKey> VxSet<T> {
    pub fn new() -> (r: Self) ensures r@ == Set::<T::KV>::empty() { let r = VxSet { v: Vec::new() }; assert(r@ =~= Set::<T::KV>::empty()); r }
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t.vx_key()), r == !old(self)@.contains(t.vx_key()) {
        let f = vx_place(&self.v, self.v.len(), &t);
        proof { vx_in_keys(self.v@, t.vx_key()); vx_keys_push(self.v@, t); }
        match f { Some(i) => { assert(old(self)@.insert(t.vx_key()) =~= old(self)@); false } None => { self.v.push(t); true } }
    }
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { vx_distinct(&self.v) }
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { vx_distinct(&self.v) == 0 }
    pub fn get<Q: VxKey<KV = T::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&T>)
        ensures r is Some <==> self@.contains(q.vx_key()), r is Some ==> r->Some_0.vx_key() == q.vx_key()
    { proof { vx_in_keys(self.v@, q.vx_key()); } match vx_place(&self.v, self.v.len(), q) { Some(i) => Some(&self.v[i]), None => None } }
    pub fn vx_contains<Q: VxKey<KV = T::KV> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains(q.vx_key())
    { proof { vx_in_keys(self.v@, q.vx_key()); } vx_place(&self.v, self.v.len(), q).is_some() }
    pub fn remove<Q: VxKey<KV = T::KV> + ?Sized>(&mut self, q: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(q.vx_key()), r == old(self)@.contains(q.vx_key())
    {
        let ghost s0 = self.v@;
        proof { vx_in_keys(s0, q.vx_key()); }
        let mut found = false;
        loop
            invariant forall|k: T::KV| k != q.vx_key() ==> (vx_keys_of(self.v@).to_set().contains(k) <==> vx_keys_of(s0).to_set().contains(k)),
                found ==> vx_keys_of(s0).to_set().contains(q.vx_key()), !found ==> self.v@ == s0, s0 == old(self).v@,
            ensures !vx_keys_of(self.v@).to_set().contains(q.vx_key()),
            decreases self.v@.len()
        {
            proof { vx_in_keys(self.v@, q.vx_key()); }
            match vx_place(&self.v, self.v.len(), q) {
                None => { break; }
                Some(i) => {
                    let ghost s1 = self.v@;
                    let _x = self.v.remove(i);
                    found = true;
                    proof { assert forall|k: T::KV| k != q.vx_key() implies (vx_keys_of(self.v@).to_set().contains(k) <==> vx_keys_of(s1).to_set().contains(k)) by { vx_key_removed(s1, i as int, k); assert(self.v@ =~= s1.remove(i as int)); } }
                }
            }
        }
        assert(self@ =~= old(self)@.remove(q.vx_key()));
        found
    }
    pub fn clear(&mut self) ensures final(self)@ == Set::<T::KV>::empty() { self.v = Vec::new(); assert(self@ =~= Set::<T::KV>::empty()); }
    /// the elements, each once, in some order
    pub fn vx_iter(&self) -> (r: VxIt<&T>) ensures forall|k: T::KV| self@.contains(k) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).vx_key() == k,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).vx_key() != (#[trigger] r@[j]).vx_key()
    {
        let mut out: Vec<&T> = Vec::new();
        let mut n: usize = 0;
        while n < self.v.len()
            invariant 0 <= n <= self.v@.len(), forall|i: int| 0 <= i < out@.len() ==> exists|j: int| 0 <= j < n && (#[trigger] out@[i]).vx_key() == (#[trigger] self.v@[j]).vx_key(),
                forall|j: int| 0 <= j < n ==> exists|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).vx_key() == (#[trigger] self.v@[j]).vx_key(),
                forall|i: int, j: int| 0 <= i < j < out@.len() ==> (#[trigger] out@[i]).vx_key() != (#[trigger] out@[j]).vx_key(),
            decreases self.v@.len() - n
        {
            let f = vx_place(&self.v, n, &self.v[n]);
            let ghost o = out@;
            if f.is_none() { out.push(&self.v[n]); assert(out@[o.len() as int].vx_key() == self.v@[n as int].vx_key()); }
            proof {
                assert forall|j: int| 0 <= j < n + 1 implies exists|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).vx_key() == (#[trigger] self.v@[j]).vx_key() by {
                    if j < n || f is Some {
                        let j2 = if j < n { j } else { f->Some_0 as int };
                        let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).vx_key() == self.v@[j2].vx_key();
                        assert(out@[i] == o[i]);
                    }
                }
            }
            n = n + 1;
        }
        proof { assert forall|k: T::KV| self@.contains(k) <==> exists|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).vx_key() == k by {
            vx_in_keys(self.v@, k);
            if self@.contains(k) { let j = choose|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).vx_key() == k; assert(self.v@[j].vx_key() == k); }
        } }
        let r = vx_it_of(out);
        r
    }
}
proof fn vx_key_removed<T: VxKey>(s: Seq<T>, i: int, k: T::KV)
    requires 0 <= i < s.len(), k != s[i].vx_key(),
    ensures vx_keys_of(s.remove(i)).to_set().contains(k) <==> vx_keys_of(s).to_set().contains(k),
{
    vx_in_keys(s, k); vx_in_keys(s.remove(i), k);
    if exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).vx_key() == k { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).vx_key() == k; if j < i { assert(s.remove(i)[j].vx_key() == k); } else { assert(s.remove(i)[j - 1].vx_key() == k); } }
    if exists|j: int| 0 <= j < s.remove(i).len() && (#[trigger] s.remove(i)[j]).vx_key() == k { let j = choose|j: int| 0 <= j < s.remove(i).len() && (#[trigger] s.remove(i)[j]).vx_key() == k; if j < i { assert(s[j].vx_key() == k); } else { assert(s[j + 1].vx_key() == k); } }
}
/// HashMap: its entries, in a vector; the last one with a key counts
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<K, V> { v: Vec<(K, V)> }
impl<K: VxKey, V> VxKey for (K, V) { type KV = K::KV; open spec fn vx_key(&self) -> K::KV { self.0.vx_key() } }
pub open spec fn vx_entries<K: VxKey, V>(s: Seq<(K, V)>) -> Map<K::KV, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { vx_entries(s.drop_last()).insert(s.last().0.vx_key(), s.last().1) }
}
/// the last entry with the key is the entry of the map
proof fn vx_last_counts<K: VxKey, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(), forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).vx_key() != s[i].vx_key(),
    ensures vx_entries(s).dom().contains(s[i].vx_key()), vx_entries(s)[s[i].vx_key()] == s[i].1,
    decreases s.len()
{
    if i < s.len() - 1 {
        assert(s.drop_last()[i] == s[i]);
        assert(s[s.len() - 1].vx_key() != s[i].vx_key());
        assert forall|j: int| i < j < s.drop_last().len() implies (#[trigger] s.drop_last()[j]).vx_key() != s.drop_last()[i].vx_key() by { assert(s[j].vx_key() != s[i].vx_key()); }
        vx_last_counts(s.drop_last(), i);
    }
}
proof fn vx_not_there<K: VxKey, V>(s: Seq<(K, V)>, q: K::KV)
    requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).vx_key() != q,
    ensures !vx_entries(s).dom().contains(q),
    decreases s.len()
{ if s.len() > 0 { assert(s[s.len() - 1].vx_key() != q); assert forall|j: int| 0 <= j < s.drop_last().len() implies (#[trigger] s.drop_last()[j]).vx_key() != q by { assert(s[j].vx_key() != q); } vx_not_there(s.drop_last(), q); } }
proof fn vx_entry_removed<K: VxKey, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(),
    ensures vx_entries(s.remove(i)).remove(s[i].vx_key()) =~= vx_entries(s).remove(s[i].vx_key()),
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else {
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
        assert(s.drop_last()[i] == s[i]);
        vx_entry_removed(s.drop_last(), i);
        let a = vx_entries(s.drop_last().remove(i));
        let b = vx_entries(s.drop_last());
        let q = s[i].vx_key();
        let l = s.last().vx_key();
        assert forall|x: K::KV| a.insert(l, s.last().1).remove(q).dom().contains(x) <==> b.insert(l, s.last().1).remove(q).dom().contains(x) by { assert(a.remove(q).dom().contains(x) <==> b.remove(q).dom().contains(x)); }
        assert forall|x: K::KV| a.insert(l, s.last().1).remove(q).dom().contains(x) implies a.insert(l, s.last().1).remove(q)[x] == b.insert(l, s.last().1).remove(q)[x] by { if x != l { assert(a.remove(q).dom().contains(x)); assert(a.remove(q)[x] == b.remove(q)[x]); } }
    }
}
proof fn vx_entries_dom<K: VxKey, V>(s: Seq<(K, V)>)
    ensures vx_entries(s).dom() == vx_keys_of(s).to_set(),
    decreases s.len()
{
    if s.len() == 0 { assert(vx_entries(s).dom() =~= vx_keys_of(s).to_set()); }
    else { vx_entries_dom(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); vx_keys_push(s.drop_last(), s.last()); assert(vx_entries(s).dom() =~= vx_keys_of(s).to_set()); }
}
pub open spec fn vx_is_last<T: VxKey>(s: Seq<T>, i: int) -> bool { 0 <= i < s.len() && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).vx_key() != s[i].vx_key() }
proof fn vx_last_exists<T: VxKey>(s: Seq<T>, i: int) -> (r: int)
    requires 0 <= i < s.len(),
    ensures vx_is_last(s, r), s[r].vx_key() == s[i].vx_key(),
    decreases s.len() - i
{ if vx_is_last(s, i) { i } else { let j = choose|j: int| i < j < s.len() && (#[trigger] s[j]).vx_key() == s[i].vx_key(); vx_last_exists(s, j) } }
/// the last place of every key
fn vx_places<K: VxKey, V>(v: &Vec<(K, V)>) -> (r: Vec<usize>)
    ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) < v@.len() && vx_entries(v@)[v@[r@[i] as int].vx_key()] == v@[r@[i] as int].1,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> v@[(#[trigger] r@[i]) as int].vx_key() != v@[(#[trigger] r@[j]) as int].vx_key(),
        forall|k: K::KV| vx_entries(v@).dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && v@[(#[trigger] r@[i]) as int].vx_key() == k,
{
    let mut out: Vec<usize> = Vec::new();
    let mut n: usize = 0;
    assert(v@.len() == v.len());
    while n < v.len()
        invariant 0 <= n <= v@.len(), v@.len() == v.len(),
            forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]) < n && vx_is_last(v@, out@[i] as int),
            forall|i: int, j: int| 0 <= i < j < out@.len() ==> (#[trigger] out@[i]) < (#[trigger] out@[j]),
            forall|p: int| 0 <= p < n && #[trigger] vx_is_last(v@, p) ==> exists|i: int| 0 <= i < out@.len() && #[trigger] out@[i] == p,
        decreases v@.len() - n
    {
        let ghost o = out@;
        let last = match vx_place(v, v.len(), &v[n]) { Some(l) => { assert(l >= n); l == n } None => false };
        assert(last == vx_is_last(v@, n as int));
        if last { out.push(n); assert(out@[o.len() as int] == n); }
        proof {
            assert forall|p: int| 0 <= p < n + 1 && #[trigger] vx_is_last(v@, p) implies exists|i: int| 0 <= i < out@.len() && #[trigger] out@[i] == p by {
                if p < n { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == p; assert(out@[i] == p); }
            }
        }
        n = n + 1;
    }
    proof {
        vx_entries_dom(v@);
        assert forall|i: int| 0 <= i < out@.len() implies (#[trigger] out@[i]) < v@.len() && vx_entries(v@)[v@[out@[i] as int].vx_key()] == v@[out@[i] as int].1 by { vx_last_counts(v@, out@[i] as int); }
        assert forall|k: K::KV| vx_entries(v@).dom().contains(k) <==> exists|i: int| 0 <= i < out@.len() && v@[(#[trigger] out@[i]) as int].vx_key() == k by {
            vx_in_keys(v@, k);
            if vx_entries(v@).dom().contains(k) { let j = choose|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).vx_key() == k; let l = vx_last_exists(v@, j); let i = choose|i: int| 0 <= i < out@.len() && #[trigger] out@[i] == l; assert(v@[out@[i] as int].vx_key() == k); }
            if exists|i: int| 0 <= i < out@.len() && v@[(#[trigger] out@[i]) as int].vx_key() == k { let i = choose|i: int| 0 <= i < out@.len() && v@[(#[trigger] out@[i]) as int].vx_key() == k; assert(v@[out@[i] as int].vx_key() == k); }
        }
    }
    out
}
impl<K: VxKey, V> View for VxMap<K, V> { type V = Map<K::KV, V>; closed spec fn view(&self) -> Map<K::KV, V> { vx_entries(self.v@) } }
impl<K: VxKey, V> VxMap<K, V> {
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { VxMap { v: Vec::new() } }
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.vx_key(), v),
            r == (if old(self)@.dom().contains(k.vx_key()) { Some(old(self)@[k.vx_key()]) } else { None::<V> })
    {
        let ghost s0 = self.v@;
        match vx_place(&self.v, self.v.len(), &k) {
            Some(i) => {
                proof { vx_last_counts(s0, i as int); vx_entry_removed(s0, i as int); }
                let x = self.v.remove(i);
                assert(self.v@ =~= s0.remove(i as int));
                let ghost s1 = self.v@;
                self.v.push((k, v));
                proof {
                    let q = k.vx_key();
                    assert(self.v@.drop_last() =~= s1);
                    assert(vx_entries(s1).insert(q, v) =~= vx_entries(s1).remove(q).insert(q, v));
                    assert(vx_entries(s0).insert(q, v) =~= vx_entries(s0).remove(q).insert(q, v));
                }
                Some(x.1)
            }
            None => {
                proof { vx_not_there(s0, k.vx_key()); }
                self.v.push((k, v));
                assert(self.v@.drop_last() =~= s0);
                None
            }
        }
    }
    pub fn get<Q: VxKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(q.vx_key()) { Some(&self@[q.vx_key()]) } else { None::<&V> })
    {
        match vx_place(&self.v, self.v.len(), q) {
            Some(i) => { proof { vx_last_counts(self.v@, i as int); } Some(&self.v[i].1) }
            None => { proof { vx_not_there(self.v@, q.vx_key()); } None }
        }
    }
    pub fn contains_key<Q: VxKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.dom().contains(q.vx_key()) { self.get(q).is_some() }
    pub fn remove<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.vx_key()), r == (if old(self)@.dom().contains(q.vx_key()) { Some(old(self)@[q.vx_key()]) } else { None::<V> })
    {
        let ghost s0 = self.v@;
        let mut found: Option<V> = None;
        loop
            invariant vx_entries(self.v@).remove(q.vx_key()) == vx_entries(s0).remove(q.vx_key()), s0 == old(self).v@,
                found is None ==> self.v@ == s0, found is Some ==> vx_entries(s0).dom().contains(q.vx_key()) && found == Some(vx_entries(s0)[q.vx_key()]),
            ensures !vx_entries(self.v@).dom().contains(q.vx_key()),
            decreases self.v@.len()
        {
            match vx_place(&self.v, self.v.len(), q) {
                None => { proof { vx_not_there(self.v@, q.vx_key()); } break; }
                Some(i) => {
                    let ghost s1 = self.v@;
                    proof { vx_last_counts(s1, i as int); vx_entry_removed(s1, i as int); }
                    let x = self.v.remove(i);
                    assert(self.v@ =~= s1.remove(i as int));
                    if found.is_none() { found = Some(x.1); }
                }
            }
        }
        assert(self@ =~= old(self)@.remove(q.vx_key()));
        found
    }
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { proof { vx_entries_dom(self.v@); } vx_distinct(&self.v) }
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.vx_len() == 0 }
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { self.v = Vec::new(); }
    /// the values, one per key, in some order
    pub fn vx_values(&self) -> (r: VxIt<&V>) ensures vx_values_of(self@, r@) {
        let p = vx_places(&self.v);
        let mut out: Vec<&V> = Vec::new();
        let mut n: usize = 0;
        assert(p@.len() == p.len());
        while n < p.len()
            invariant 0 <= n <= p@.len(), p@.len() == p.len(), out@.len() == n, forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]) < self.v@.len(), forall|i: int| 0 <= i < n ==> *(#[trigger] out@[i]) == self.v@[p@[i] as int].1,
            decreases p@.len() - n
        { out.push(&self.v[p[n]].1); n = n + 1; }
        proof {
            let ks = Seq::new(p@.len(), |i: int| self.v@[p@[i] as int].vx_key());
            assert(ks.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by { if i < j { let _ = p@[i]; let _ = p@[j]; assert(self.v@[p@[i] as int].vx_key() != self.v@[p@[j] as int].vx_key()); } else { assert(self.v@[p@[j] as int].vx_key() != self.v@[p@[i] as int].vx_key()); } } }
            assert forall|k: K::KV| self@.dom().contains(k) <==> #[trigger] ks.contains(k) by {
                if self@.dom().contains(k) { let i = choose|i: int| 0 <= i < p@.len() && self.v@[(#[trigger] p@[i]) as int].vx_key() == k; assert(ks[i] == k); }
                if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(self.v@[p@[i] as int].vx_key() == k); }
            }
            assert forall|i: int| 0 <= i < out@.len() implies *(#[trigger] out@[i]) == self@[ks[i]] by { let _ = p@[i]; }
        }
        vx_it_of(out)
    }
    /// the keys, each once, in some order
    pub fn keys(&self) -> (r: VxIt<&K>) ensures vx_lists_keys(self@, r@) {
        let p = vx_places(&self.v);
        let mut out: Vec<&K> = Vec::new();
        let mut n: usize = 0;
        assert(p@.len() == p.len());
        while n < p.len()
            invariant 0 <= n <= p@.len(), p@.len() == p.len(), out@.len() == n, forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]) < self.v@.len(), forall|i: int| 0 <= i < n ==> *(#[trigger] out@[i]) == self.v@[p@[i] as int].0,
            decreases p@.len() - n
        { out.push(&self.v[p[n]].0); n = n + 1; }
        proof {
            assert forall|k: K::KV| self@.dom().contains(k) <==> exists|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).vx_key() == k by {
                if self@.dom().contains(k) { let i = choose|i: int| 0 <= i < p@.len() && self.v@[(#[trigger] p@[i]) as int].vx_key() == k; assert(out@[i].vx_key() == k); }
                if exists|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).vx_key() == k { let i = choose|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).vx_key() == k; assert(self.v@[p@[i] as int].vx_key() == k); }
            }
            assert forall|i: int, j: int| 0 <= i < j < out@.len() implies (#[trigger] out@[i]).vx_key() != (#[trigger] out@[j]).vx_key() by { assert(self.v@[p@[i] as int].vx_key() != self.v@[p@[j] as int].vx_key()); }
        }
        vx_it_of(out)
    }
}
}
pub use vx_coll::*;
/// `s` lists the keys of `m`, each once, in some order
pub open spec fn vx_lists_keys<K: VxKey, V>(m: Map<K::KV, V>, s: Seq<&K>) -> bool {
    (forall|k: K::KV| m.dom().contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k)
        && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).vx_key() != (#[trigger] s[j]).vx_key()
}
/// `s` lists the values of `m`, one per key, in some order
pub open spec fn vx_values_of<KV, V>(m: Map<KV, V>, s: Seq<&V>) -> bool {
    exists|ks: Seq<KV>| #[trigger] ks.no_duplicates() && (forall|k: KV| m.dom().contains(k) <==> #[trigger] ks.contains(k))
        && s.len() == ks.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == m[ks[i]]
}
@end
