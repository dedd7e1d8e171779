@@ The trusted model of the parts of std that the functions under contract use.
@@ Iterators are modelled as finite sequences (VxIt), consumed from the front.
@spec prelude

// ------------------------------------------------------------------ sequences of references
pub open spec fn vx_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub broadcast proof fn vx_refs_len<'a, T>(s: Seq<T>)
    ensures #[trigger] vx_refs::<'a, T>(s).len() == s.len() { }
pub broadcast proof fn vx_refs_index<'a, T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger vx_refs::<'a, T>(s)[i]] #![trigger vx_refs::<'a, T>(s), s[i]] vx_refs::<'a, T>(s)[i] == s[i] { }
pub open spec fn vx_enum<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn vx_rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn vx_derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn vx_derefs_refs<'a, T>(s: Seq<T>)
    ensures #[trigger] vx_derefs(vx_refs::<'a, T>(s)) == s { assert(vx_derefs(vx_refs::<'a, T>(s)) =~= s); }
pub broadcast proof fn vx_enum_len<T>(s: Seq<T>)
    ensures #[trigger] vx_enum(s).len() == s.len() { }
pub broadcast proof fn vx_enum_index<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger vx_enum(s)[i]] #![trigger vx_enum(s), s[i]] vx_enum(s)[i] == (i as usize, s[i]) { }
pub broadcast proof fn vx_rev_len<T>(s: Seq<T>)
    ensures #[trigger] vx_rev(s).len() == s.len() { }
pub broadcast proof fn vx_rev_index<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures #[trigger] vx_rev(s)[i] == s[s.len() - 1 - i] { }
pub broadcast proof fn vx_rev_index2<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger vx_rev(s), s[i]] vx_rev(s)[s.len() - 1 - i] == s[i] { }
pub broadcast group vx_seq_lemmas { vx_refs_len, vx_refs_index, vx_derefs_refs, vx_enum_len, vx_enum_index, vx_rev_len, vx_rev_index, vx_rev_index2 }

// ------------------------------------------------------------------ iterators
#[verifier::reject_recursive_types(T)]
pub struct VxIt<T> { v: Vec<T> }
impl<T> View for VxIt<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
/// a sequence held in memory has fewer than usize::MAX elements
pub broadcast proof fn vx_it_len<T>(it: VxIt<T>)
    ensures #[trigger] it@.len() <= usize::MAX
{ assert(vstd::std_specs::vec::spec_vec_len(&it.v) == it.v@.len()); }

pub fn vx_it_of<T>(v: Vec<T>) -> (r: VxIt<T>) ensures r@ == v@ { VxIt { v } }
impl<T> VxIt<T> {
    pub fn vx_has(&self) -> (r: bool) ensures r == (self@.len() > 0) { self.v.len() > 0 }
    pub fn vx_pop(&mut self) -> (r: T)
        requires old(self)@.len() > 0,
        ensures r == old(self)@[0], final(self)@ == old(self)@.drop_first()
    { let r = self.v.remove(0); assert(self@ =~= old(self)@.drop_first()); r }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first()
    { if self.vx_has() { Some(self.vx_pop()) } else { None } }
    pub fn vx_empty() -> (r: Self) ensures r@ == Seq::<T>::empty() { VxIt { v: Vec::new() } }
    pub fn vx_push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { self.v.push(t); }
    pub fn vx_into_iter(self) -> (r: VxIt<T>) ensures r@ == self@ { self }
    pub fn vx_done(self) -> (r: Vec<T>) ensures r@ == self@ { self.v }
    pub fn peekable(self) -> (r: VxIt<T>) ensures r@ == self@ { self }
    pub fn fuse(self) -> (r: VxIt<T>) ensures r@ == self@ { self }
    pub fn peek(&mut self) -> (r: Option<&T>)
        ensures final(self)@ == old(self)@,
            r == (if old(self)@.len() == 0 { None::<&T> } else { Some(&old(self)@[0]) })
    { if self.v.len() > 0 { Some(&self.v[0]) } else { None } }
    pub fn enumerate(self) -> (r: VxIt<(usize, T)>) ensures r@ == vx_enum(self@)
    {
        let mut me = self;
        let mut out: VxIt<(usize, T)> = VxIt::vx_empty();
        let ghost s0 = me@;
        let mut k: usize = 0;
        proof { vx_it_len(me); }
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), s0.len() <= usize::MAX, me@ == s0.skip(k as int), out@ =~= vx_enum(s0).take(k as int),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k as int]);
            out.vx_push((k, x));
            k = k + 1;
            assert(me@ =~= s0.skip(k as int));
            assert(out@ =~= vx_enum(s0).take(k as int));
        }
        assert(k == s0.len());
        assert(vx_enum(s0).take(k as int) =~= vx_enum(s0));
        out
    }
    pub fn rev(self) -> (r: VxIt<T>) ensures r@ == vx_rev(self@)
    {
        let mut me = self;
        let mut out: VxIt<T> = VxIt::vx_empty();
        let ghost s0 = me@;
        while me.v.len() > 0
            invariant s0 == self@, me@.len() <= s0.len(), me@ =~= s0.take(me@.len() as int), out@ =~= vx_rev(s0).take(s0.len() - me@.len()),
            decreases me@.len()
        {
            let ghost n = me@.len();
            match me.v.pop() { Some(x) => { assert(x == s0[n - 1]); out.vx_push(x); } None => { } }
            assert(out@ =~= vx_rev(s0).take(s0.len() - me@.len()));
        }
        assert(vx_rev(s0).take(s0.len() as int) =~= vx_rev(s0));
        out
    }
    pub fn skip(self, n: usize) -> (r: VxIt<T>)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::<T>::empty() })
    {
        let mut me = self;
        let mut k: usize = 0;
        assert(me@ =~= self@.skip(0));
        while k < n && me.vx_has()
            invariant 0 <= k <= n, k <= self@.len(), me@ == self@.skip(k as int),
            decreases n - k
        {
            let _x = me.vx_pop();
            k = k + 1;
            assert(me@ =~= self@.skip(k as int));
        }
        assert(k < n ==> me@ =~= Seq::<T>::empty());
        me
    }
    pub fn take(self, n: usize) -> (r: VxIt<T>)
        ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ })
    {
        let mut me = self;
        while me.v.len() > n
            invariant me@.len() <= self@.len(), n <= self@.len() ==> n <= me@.len(), n > self@.len() ==> me@.len() == self@.len(), me@ =~= self@.take(me@.len() as int),
            decreases me@.len()
        { let _x = me.v.pop(); }
        assert(n <= self@.len() ==> me@.len() == n);
        assert(self@.take(self@.len() as int) =~= self@);
        me
    }
    pub fn chain(self, other: VxIt<T>) -> (r: VxIt<T>) ensures r@ == self@ + other@
    { let mut me = self; let mut o = other; me.v.append(&mut o.v); me }
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn last(self) -> (r: Option<T>)
        ensures r == (if self@.len() == 0 { None::<T> } else { Some(self@.last()) }) { let mut me = self; me.v.pop() }
    pub fn collect<C: VxFromIter<T>>(self) -> (r: C) ensures C::vx_from_post(self@, r) { C::vx_from_iter(self) }

    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (b: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures b ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
            !b ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
    {
        let mut me = self;
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), me@ == s0.skip(k),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (#[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s0[i],), true),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            if !f(x) { return false; }
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); }
        }
        true
    }
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (b: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures b ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
            !b ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
    {
        let mut me = self;
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), me@ == s0.skip(k),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (#[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s0[i],), false),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            if f(x) { return true; }
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); }
        }
        false
    }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIt<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_ensures(f, (self@[i],), r@[i]),
            forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    {
        let mut me = self;
        let mut out = VxIt::vx_empty();
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), me@ == s0.skip(k), out@.len() == k,
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (#[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (s0[i],), #[trigger] out@[i]),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            let y = f(x);
            out.vx_push(y);
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); }
        }
        assert(k == s0.len());
        out
    }
    /// The elements on which `f` answers true, for a closure that acts as the predicate `p`.
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIt<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (& #[trigger] self@[i],)),
        ensures forall|p: spec_fn(T) -> bool| (forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] call_ensures(f, (&self@[i],), b) ==> b == p(self@[i]))
            ==> r@ == #[trigger] self@.filter(p)
    {
        let mut me = self;
        let mut out: VxIt<T> = VxIt::vx_empty();
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        assert(forall|p: spec_fn(T) -> bool| #[trigger] s0.filter(p) == s0.filter(p)) ;
        assert forall|p: spec_fn(T) -> bool| vx_acts(f, s0, p) implies out@ == #[trigger] s0.take(0).filter(p) by { assert(s0.take(0) =~= Seq::<T>::empty()); reveal(Seq::filter); }
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), me@ == s0.skip(k),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (& #[trigger] s0[i],)),
                forall|p: spec_fn(T) -> bool| vx_acts(f, s0, p) ==> out@ == #[trigger] s0.take(k).filter(p),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            let ghost before = out@;
            let b = f(&x);
            if b { out.vx_push(x); }
            proof {
                assert forall|p: spec_fn(T) -> bool| vx_acts(f, s0, p) implies out@ == #[trigger] s0.take(k + 1).filter(p) by {
                    assert(call_ensures(f, (&s0[k],), b));
                    assert(before == s0.take(k).filter(p));
                    assert(s0.take(k + 1).drop_last() =~= s0.take(k));
                    assert(s0.take(k + 1).last() == s0[k]);
                    reveal(Seq::filter);
                }
                k = k + 1; assert(me@ =~= s0.skip(k));
            }
        }
        assert(k == s0.len());
        assert(s0.take(k) =~= s0);
        assert forall|p: spec_fn(T) -> bool| (forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] call_ensures(f, (&self@[i],), b) ==> b == p(self@[i]))
            implies out@ == #[trigger] self@.filter(p) by { assert(vx_acts(f, s0, p)); assert(out@ == s0.take(k).filter(p)); }
        out
    }
    pub fn vx_find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (& #[trigger] old(self)@[i],)),
        ensures match r {
            None => final(self)@.len() == 0 && forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (& #[trigger] old(self)@[i],), false),
            Some(x) => exists|k: int| 0 <= k < old(self)@.len() && x == #[trigger] old(self)@[k] && call_ensures(f, (&x,), true)
                && final(self)@ == old(self)@.skip(k + 1)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] old(self)@[i],), false),
        }
    {
        let ghost s0 = self@;
        let ghost mut k: int = 0;
        while self.vx_has()
            invariant s0 == old(self)@, 0 <= k <= s0.len(), self@ == s0.skip(k),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (& #[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] s0[i],), false),
            decreases self@.len()
        {
            let x = self.vx_pop();
            assert(x == s0[k]);
            assert(self@ =~= s0.skip(k + 1));
            if f(&x) { assert(x == s0[k] && call_ensures(f, (&x,), true)); return Some(x); }
            proof { k = k + 1; }
        }
        None
    }
    /// Takes elements as long as `f` answers true.
    pub fn vx_take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIt<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (& #[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (& #[trigger] self@[i],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false)
    {
        let mut me = self;
        let mut out: VxIt<T> = VxIt::vx_empty();
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), me@ == s0.skip(k), out@.len() == k, out@ =~= s0.take(k),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (& #[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] s0[i],), true),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            if !f(&x) { return out; }
            out.vx_push(x);
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); assert(out@ =~= s0.take(k)); }
        }
        assert(k == s0.len());
        out
    }
    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures match r {
            None => final(self)@.len() == 0 && forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
            Some(k) => 0 <= k < old(self)@.len() && call_ensures(f, (old(self)@[k as int],), true)
                && final(self)@ == old(self)@.skip(k + 1)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
        }
    {
        let ghost s0 = self@;
        let mut k: usize = 0;
        proof { vx_it_len(*self); }
        while self.vx_has()
            invariant s0 == old(self)@, 0 <= k <= s0.len(), s0.len() <= usize::MAX, self@ == s0.skip(k as int),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (#[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s0[i],), false),
            decreases self@.len()
        {
            let x = self.vx_pop();
            assert(x == s0[k as int]);
            assert(self@ =~= s0.skip(k + 1));
            if f(x) { return Some(k); }
            k = k + 1;
        }
        None
    }
    /// the first answer that is not None
    pub fn find_map<U, F: Fn(T) -> Option<U>>(&mut self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures match r {
            None => final(self)@.len() == 0 && forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), None::<U>),
            Some(u) => exists|k: int| 0 <= k < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[k],), Some(u))
                && final(self)@ == old(self)@.skip(k + 1)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] old(self)@[i],), None::<U>),
        }
    {
        let ghost s0 = self@;
        let ghost mut k: int = 0;
        while self.vx_has()
            invariant s0 == old(self)@, 0 <= k <= s0.len(), self@ == s0.skip(k),
                forall|i: int| 0 <= i < s0.len() ==> call_requires(f, (#[trigger] s0[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s0[i],), None::<U>),
            decreases self@.len()
        {
            let x = self.vx_pop();
            assert(x == s0[k]);
            assert(self@ =~= s0.skip(k + 1));
            match f(x) { Some(u) => { assert(call_ensures(f, (s0[k],), Some(u))); return Some(u); } None => { } }
            proof { k = k + 1; }
        }
        None
    }
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.skip(n + 1),
            n >= old(self)@.len() ==> r is None && final(self)@.len() == 0,
    {
        let ghost s0 = self@;
        let mut k: usize = 0;
        assert(self@ =~= s0.skip(0));
        while k < n && self.vx_has()
            invariant s0 == old(self)@, 0 <= k <= n, k <= s0.len(), self@ == s0.skip(k as int),
            decreases n - k
        { let _x = self.vx_pop(); k = k + 1; assert(self@ =~= s0.skip(k as int)); }
        let r = self.next();
        assert(n < s0.len() ==> self@ =~= s0.skip(n + 1));
        r
    }
    pub fn zip<C: VxIntoIter>(self, other: C) -> (r: VxIt<(T, C::Item)>) ensures r@ == vx_zip(self@, other.vx_seq())
    {
        let mut me = self;
        let mut o = other.vx_into_iter();
        let mut out: VxIt<(T, C::Item)> = VxIt::vx_empty();
        let ghost s0 = me@;
        let ghost s1 = o@;
        let ghost mut k: int = 0;
        while me.vx_has() && o.vx_has()
            invariant s0 == self@, s1 == other.vx_seq(), 0 <= k <= s0.len(), k <= s1.len(), me@ == s0.skip(k), o@ == s1.skip(k), out@ =~= vx_zip(s0, s1).take(k),
            decreases me@.len()
        {
            let x = me.vx_pop();
            let y = o.vx_pop();
            assert(x == s0[k] && y == s1[k]);
            out.vx_push((x, y));
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); assert(o@ =~= s1.skip(k)); assert(out@ =~= vx_zip(s0, s1).take(k)); }
        }
        assert(vx_zip(s0, s1).take(k) =~= vx_zip(s0, s1));
        out
    }
    #[verifier::external_body]
    pub fn sum<S: VxSum<T>>(self) -> (r: S) ensures r == S::vx_sum(self@) { unimplemented!() }
}
pub open spec fn vx_zip<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub trait VxSum<T>: Sized { spec fn vx_sum(s: Seq<T>) -> Self; }
impl<'a, T: Copy> VxIt<&'a T> {
    pub fn cloned(self) -> (r: VxIt<T>) ensures r@ == vx_derefs(self@) { self.copied() }
    pub fn copied(self) -> (r: VxIt<T>) ensures r@ == vx_derefs(self@)
    {
        let mut me = self;
        let mut out: VxIt<T> = VxIt::vx_empty();
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        while me.vx_has()
            invariant s0 == self@, 0 <= k <= s0.len(), me@ == s0.skip(k), out@ =~= vx_derefs(s0).take(k),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            out.vx_push(*x);
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); assert(out@ =~= vx_derefs(s0).take(k)); }
        }
        assert(vx_derefs(s0).take(k) =~= vx_derefs(s0));
        out
    }
}
/// `f` answers as the predicate `p` does, on the elements of `s`
pub open spec fn vx_acts<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, p: spec_fn(T) -> bool) -> bool {
    forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] call_ensures(f, (&s[i],), b) ==> b == p(s[i])
}
pub fn vx_iter_empty<T>() -> (r: VxIt<T>) ensures r@ == Seq::<T>::empty() { VxIt::vx_empty() }
pub fn vx_iter_once<T>(t: T) -> (r: VxIt<T>) ensures r@ == seq![t] { let mut r = VxIt::vx_empty(); r.vx_push(t); assert(r@ =~= seq![t]); r }

/// An iterator of the code itself, given by its `next`: `vx_yields(s)`: run to the end it gives `s`.
pub trait VxIterator: Sized {
    type Item;
    spec fn vx_ok(&self) -> bool;
    spec fn vx_yields(&self, s: Seq<Self::Item>) -> bool;
    /// goes down with every element
    spec fn vx_left(&self) -> nat;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).vx_ok(),
        ensures final(self).vx_ok(),
            r is None ==> old(self).vx_yields(Seq::empty()),
            r is Some ==> final(self).vx_left() < old(self).vx_left(),
            r is Some ==> forall|s: Seq<Self::Item>| #[trigger] final(self).vx_yields(s) ==> old(self).vx_yields(seq![r->Some_0] + s);
}
pub proof fn vx_prepend<I: VxIterator>(a: I, b: I, x: I::Item, s: Seq<I::Item>, t: Seq<I::Item>)
    requires forall|s: Seq<I::Item>| #[trigger] b.vx_yields(s) ==> a.vx_yields(seq![x] + s), b.vx_yields(s), t =~= seq![x] + s,
    ensures a.vx_yields(t) { }
/// running it to the end (proved: this is what collecting, or any adapter that is run to the end, sees)
pub fn vx_run<I: VxIterator>(it: I) -> (r: VxIt<I::Item>)
    requires it.vx_ok(),
    ensures it.vx_yields(r@),
    decreases it.vx_left(),
{
    let mut me = it;
    match me.next() {
        None => { let r = VxIt::vx_empty(); assert(r@ == Seq::<I::Item>::empty()); r }
        Some(x) => { let rest = vx_run(me); let r = vx_cons(x, rest); proof { vx_prepend(it, me, x, rest@, r@); } r }
    }
}
pub fn vx_cons<T>(x: T, s: VxIt<T>) -> (r: VxIt<T>) ensures r@ == seq![x] + s@ { let r = vx_iter_once(x).chain(s); assert(r@ =~= seq![x] + s@); r }
pub trait VxAdapters: VxIterator {
    fn vx_take_while<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: VxIt<Self::Item>)
        requires self.vx_ok(), forall|x: Self::Item| #[trigger] call_requires(f, (&x,)),
        ensures exists|s: Seq<Self::Item>| #[trigger] self.vx_yields(s) && r@.len() <= s.len() && r@ == s.take(r@.len() as int)
            && (forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (& #[trigger] s[i],), true))
            && (r@.len() < s.len() ==> call_ensures(f, (&s[r@.len() as int],), false));
    fn enumerate(self) -> (r: VxIt<(usize, Self::Item)>)
        requires self.vx_ok(),
        ensures exists|s: Seq<Self::Item>| #[trigger] self.vx_yields(s) && r@ == vx_enum(s);
    fn collect<C: VxFromIter<Self::Item>>(self) -> (r: C)
        requires self.vx_ok(),
        ensures exists|s: Seq<Self::Item>| #[trigger] self.vx_yields(s) && C::vx_from_post(s, r);
}
impl<I: VxIterator> VxAdapters for I {
    fn vx_take_while<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: VxIt<Self::Item>) { vx_run(self).vx_take_while(f) }
    fn enumerate(self) -> (r: VxIt<(usize, Self::Item)>) { vx_run(self).enumerate() }
    fn collect<C: VxFromIter<Self::Item>>(self) -> (r: C) { vx_run(self).collect() }
}
pub trait VxIntoIter: Sized {
    type Item;
    spec fn vx_seq(self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: VxIt<Self::Item>) ensures r@ == self.vx_seq();
}
pub fn vx_into_iter<C: VxIntoIter>(c: C) -> (r: VxIt<C::Item>) ensures r@ == c.vx_seq() { c.vx_into_iter() }
impl<T> VxIntoIter for VxIt<T> {
    type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { self@ }
    fn vx_into_iter(self) -> (r: VxIt<T>) { self }
}
impl<T> VxIntoIter for Vec<T> {
    type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { self@ }
    fn vx_into_iter(self) -> (r: VxIt<T>) { VxIt { v: self } }
}
fn vx_refs_of<'a, T>(s: &'a [T]) -> (r: VxIt<&'a T>) ensures r@ == vx_refs(s@)
{
    let mut out: VxIt<&'a T> = VxIt::vx_empty();
    let mut k: usize = 0;
    while k < s.len()
        invariant 0 <= k <= s@.len(), out@ =~= vx_refs::<'a, T>(s@).take(k as int),
        decreases s@.len() - k
    { out.vx_push(&s[k]); k = k + 1; assert(out@ =~= vx_refs::<'a, T>(s@).take(k as int)); }
    assert(vx_refs::<'a, T>(s@).take(k as int) =~= vx_refs(s@));
    out
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vx_seq(self) -> Seq<&'a T> { vx_refs(self@) }
    fn vx_into_iter(self) -> (r: VxIt<&'a T>) { vx_refs_of(self.as_slice()) }
}
impl<'a, T> VxIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn vx_seq(self) -> Seq<&'a T> { vx_refs(self@) }
    fn vx_into_iter(self) -> (r: VxIt<&'a T>) { vx_refs_of(self) }
}
impl VxIntoIter for core::ops::Range<usize> {
    type Item = usize;
    open spec fn vx_seq(self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
    fn vx_into_iter(self) -> (r: VxIt<usize>) {
        let mut out: VxIt<usize> = VxIt::vx_empty();
        if self.start > self.end { assert(out@ =~= self.vx_seq()); return out; }
        let mut k = self.start;
        while k < self.end
            invariant self.start <= k <= self.end, out@ =~= self.vx_seq().take(k - self.start),
            decreases self.end - k
        { out.vx_push(k); k = k + 1; assert(out@ =~= self.vx_seq().take(k - self.start)); }
        assert(out@ =~= self.vx_seq());
        out
    }
}
pub trait VxIter<T> {
    spec fn vx_view(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@ == vx_refs(self.vx_view());
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self.vx_view();
}
impl<T> VxIter<T> for Vec<T> {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: VxIt<&T>) { self.vx_into_iter() }
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { let r = self.vx_into_iter().copied().vx_done(); assert(vx_derefs(vx_refs(self@)) == self@); r }
}
impl<T> VxIter<T> for [T] {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: VxIt<&T>) { self.vx_into_iter() }
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { let r = self.vx_into_iter().copied().vx_done(); assert(vx_derefs(vx_refs(self@)) == self@); r }
}
pub trait VxFromIter<A>: Sized {
    spec fn vx_from_post(s: Seq<A>, r: Self) -> bool;
    fn vx_from_iter<T: VxIntoIter<Item = A>>(iter: T) -> (r: Self) ensures Self::vx_from_post(iter.vx_seq(), r);
}
impl<A> VxFromIter<A> for Vec<A> {
    open spec fn vx_from_post(s: Seq<A>, r: Self) -> bool { r@ == s }
    fn vx_from_iter<T: VxIntoIter<Item = A>>(iter: T) -> (r: Self) { iter.vx_into_iter().vx_done() }
}
/// collecting results: the first error, or all values
impl<A, E> VxFromIter<Result<A, E>> for Result<Vec<A>, E> {
    open spec fn vx_from_post(s: Seq<Result<A, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<A, E>(v@[i]),
            Err(e) => exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == Err::<A, E>(e) && forall|i: int| 0 <= i < k ==> #[trigger] s[i] is Ok,
        }
    }
    fn vx_from_iter<T: VxIntoIter<Item = Result<A, E>>>(iter: T) -> (r: Self) {
        let mut me = iter.vx_into_iter();
        let ghost s0 = me@;
        let ghost mut k: int = 0;
        let mut out: Vec<A> = Vec::new();
        while me.vx_has()
            invariant s0 == iter.vx_seq(), 0 <= k <= s0.len(), me@ == s0.skip(k), out@.len() == k,
                forall|i: int| #![trigger s0[i]] #![trigger out@[i]] 0 <= i < k ==> s0[i] == Ok::<A, E>(out@[i]),
            decreases me@.len()
        {
            let x = me.vx_pop();
            assert(x == s0[k]);
            match x {
                Ok(v) => { out.push(v); }
                Err(e) => { assert(s0[k] == Err::<A, E>(e)); return Err(e); }
            }
            proof { k = k + 1; assert(me@ =~= s0.skip(k)); }
        }
        Ok(out)
    }
}

// ------------------------------------------------------------------ extending, comparing the elements of slices
pub trait VxExtend<T> { spec fn vx_extended(old_s: &Self, s: Seq<T>, new_s: &Self) -> bool; fn vx_extend<C: VxIntoIter<Item = T>>(&mut self, c: C) ensures Self::vx_extended(old(self), c.vx_seq(), final(self)); }
impl<T> VxExtend<T> for Vec<T> {
    open spec fn vx_extended(old_s: &Self, s: Seq<T>, new_s: &Self) -> bool { new_s@ == old_s@ + s }
    fn vx_extend<C: VxIntoIter<Item = T>>(&mut self, c: C) { let mut v = c.vx_into_iter().vx_done(); self.append(&mut v); }
}
fn vx_same_elems<T: PartialEq>(a: &[T], from: usize, b: &[T]) -> (r: bool)
    requires T::obeys_eq_spec(), from + b@.len() <= a@.len(),
    ensures r == (forall|i: int| 0 <= i < b@.len() ==> a@[from + i].eq_spec(& #[trigger] b@[i])),
{
    let mut k: usize = 0;
    assert(a@.len() == a.len());
    while k < b.len()
        invariant 0 <= k <= b@.len(), from + b@.len() <= a@.len(), a@.len() == a.len(), T::obeys_eq_spec(), forall|i: int| 0 <= i < k ==> a@[from + i].eq_spec(& #[trigger] b@[i]),
        decreases b@.len() - k
    { if !(a[from + k] == b[k]) { assert(!a@[from + k].eq_spec(&b@[k as int])); return false; } k = k + 1; }
    true
}
pub trait VxElems<T: PartialEq> {
    spec fn vx_elems(&self) -> Seq<T>;
    fn vx_starts_with(&self, n: &[T]) -> (r: bool) requires T::obeys_eq_spec(), ensures r == (n@.len() <= self.vx_elems().len() && forall|i: int| 0 <= i < n@.len() ==> self.vx_elems()[i].eq_spec(& #[trigger] n@[i]));
    fn vx_ends_with(&self, n: &[T]) -> (r: bool) requires T::obeys_eq_spec(), ensures r == (n@.len() <= self.vx_elems().len() && forall|i: int| 0 <= i < n@.len() ==> self.vx_elems()[self.vx_elems().len() - n@.len() + i].eq_spec(& #[trigger] n@[i]));
    fn vx_contains(&self, x: &T) -> (r: bool) requires T::obeys_eq_spec(), ensures r == exists|i: int| 0 <= i < self.vx_elems().len() && (#[trigger] self.vx_elems()[i]).eq_spec(x);
}
impl<T: PartialEq> VxElems<T> for [T] {
    open spec fn vx_elems(&self) -> Seq<T> { self@ }
    fn vx_starts_with(&self, n: &[T]) -> (r: bool) { n.len() <= self.len() && vx_same_elems(self, 0, n) }
    fn vx_ends_with(&self, n: &[T]) -> (r: bool) { n.len() <= self.len() && vx_same_elems(self, self.len() - n.len(), n) }
    fn vx_contains(&self, x: &T) -> (r: bool) {
        let mut k: usize = 0;
        while k < self.len()
            invariant 0 <= k <= self@.len(), T::obeys_eq_spec(), forall|i: int| 0 <= i < k ==> !(#[trigger] self@[i]).eq_spec(x),
            decreases self@.len() - k
        { if self[k] == *x { assert(self.vx_elems()[k as int].eq_spec(x)); return true; } k = k + 1; }
        false
    }
}
impl<T: PartialEq> VxElems<T> for Vec<T> {
    open spec fn vx_elems(&self) -> Seq<T> { self@ }
    fn vx_starts_with(&self, n: &[T]) -> (r: bool) { self.as_slice().vx_starts_with(n) }
    fn vx_ends_with(&self, n: &[T]) -> (r: bool) { self.as_slice().vx_ends_with(n) }
    fn vx_contains(&self, x: &T) -> (r: bool) { let s = self.as_slice(); assert(s.vx_elems() == self.vx_elems()); s.vx_contains(x) }
}

// ------------------------------------------------------------------ slicing
pub trait VxSlice<R> {
    type Out: ?Sized;
    spec fn vx_slice_req(&self, r: R) -> bool;
    spec fn vx_slice_post(&self, r: R, out: &Self::Out) -> bool;
    fn vx_slice(&self, r: R) -> (out: &Self::Out) requires self.vx_slice_req(r), ensures self.vx_slice_post(r, out);
}
impl<T> VxSlice<core::ops::Range<usize>> for [T] {
    type Out = [T];
    open spec fn vx_slice_req(&self, r: core::ops::Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    open spec fn vx_slice_post(&self, r: core::ops::Range<usize>, out: &[T]) -> bool { out@ == self@.subrange(r.start as int, r.end as int) }
    fn vx_slice(&self, r: core::ops::Range<usize>) -> (out: &[T]) { let out = vstd::slice::slice_subrange(self, r.start, r.end); out }
}
impl<T> VxSlice<core::ops::RangeFrom<usize>> for [T] {
    type Out = [T];
    open spec fn vx_slice_req(&self, r: core::ops::RangeFrom<usize>) -> bool { r.start <= self@.len() }
    open spec fn vx_slice_post(&self, r: core::ops::RangeFrom<usize>, out: &[T]) -> bool { out@ == self@.skip(r.start as int) }
    fn vx_slice(&self, r: core::ops::RangeFrom<usize>) -> (out: &[T]) { let out = vstd::slice::slice_subrange(self, r.start, self.len()); assert(out@ =~= self@.skip(r.start as int)); out }
}
impl<T> VxSlice<core::ops::RangeTo<usize>> for [T] {
    type Out = [T];
    open spec fn vx_slice_req(&self, r: core::ops::RangeTo<usize>) -> bool { r.end <= self@.len() }
    open spec fn vx_slice_post(&self, r: core::ops::RangeTo<usize>, out: &[T]) -> bool { out@ == self@.take(r.end as int) }
    fn vx_slice(&self, r: core::ops::RangeTo<usize>) -> (out: &[T]) { let out = vstd::slice::slice_subrange(self, 0, r.end); assert(out@ =~= self@.take(r.end as int)); out }
}
impl<T> VxSlice<core::ops::Range<usize>> for Vec<T> {
    type Out = [T];
    open spec fn vx_slice_req(&self, r: core::ops::Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    open spec fn vx_slice_post(&self, r: core::ops::Range<usize>, out: &[T]) -> bool { out@ == self@.subrange(r.start as int, r.end as int) }
    fn vx_slice(&self, r: core::ops::Range<usize>) -> (out: &[T]) { let out = vstd::slice::slice_subrange(self.as_slice(), r.start, r.end); out }
}
impl<T> VxSlice<core::ops::RangeFrom<usize>> for Vec<T> {
    type Out = [T];
    open spec fn vx_slice_req(&self, r: core::ops::RangeFrom<usize>) -> bool { r.start <= self@.len() }
    open spec fn vx_slice_post(&self, r: core::ops::RangeFrom<usize>, out: &[T]) -> bool { out@ == self@.skip(r.start as int) }
    fn vx_slice(&self, r: core::ops::RangeFrom<usize>) -> (out: &[T]) { let out = vstd::slice::slice_subrange(self.as_slice(), r.start, self.len()); assert(out@ =~= self@.skip(r.start as int)); out }
}
impl<T> VxSlice<core::ops::RangeTo<usize>> for Vec<T> {
    type Out = [T];
    open spec fn vx_slice_req(&self, r: core::ops::RangeTo<usize>) -> bool { r.end <= self@.len() }
    open spec fn vx_slice_post(&self, r: core::ops::RangeTo<usize>, out: &[T]) -> bool { out@ == self@.take(r.end as int) }
    fn vx_slice(&self, r: core::ops::RangeTo<usize>) -> (out: &[T]) { let out = vstd::slice::slice_subrange(self.as_slice(), 0, r.end); assert(out@ =~= self@.take(r.end as int)); out }
}

// ------------------------------------------------------------------ errors and panics
#[verifier::external_body]
pub fn vx_format_opaque() -> (r: String) { unimplemented!() }
/// The error type is opaque: only that an error is returned matters to the properties, not its text.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub fn vx_assert(c: bool) requires c { }
pub trait VxLen { spec fn vx_size(&self) -> int; fn vx_len(&self) -> (r: usize) ensures r == self.vx_size(), self.vx_size() <= isize::MAX; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_size() == 0); }
impl<T> VxLen for Vec<T> {
    open spec fn vx_size(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VxLen for [T] {
    open spec fn vx_size(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
pub trait VxDeref { type Out: ?Sized; spec fn vx_deref_post(&self, out: &Self::Out) -> bool; fn vx_deref(&self) -> (r: &Self::Out) ensures self.vx_deref_post(r); }
impl<T> VxDeref for Vec<T> {
    type Out = [T];
    open spec fn vx_deref_post(&self, out: &[T]) -> bool { out@ == self@ }
    fn vx_deref(&self) -> (r: &[T]) { self.as_slice() }
}

// ------------------------------------------------------------------ vec!, unwrap_or_default
pub fn vx_vec1<T>(x0: T) -> (r: Vec<T>) ensures r@.len() == 1, r@[0] == x0 { let mut v = Vec::new(); v.push(x0); v }
pub fn vx_vec2<T>(x0: T, x1: T) -> (r: Vec<T>) ensures r@.len() == 2, r@[0] == x0, r@[1] == x1 { let mut v = Vec::new(); v.push(x0); v.push(x1); v }
pub fn vx_vec3<T>(x0: T, x1: T, x2: T) -> (r: Vec<T>) ensures r@.len() == 3, r@[0] == x0, r@[1] == x1, r@[2] == x2 { let mut v = Vec::new(); v.push(x0); v.push(x1); v.push(x2); v }
pub fn vx_vec4<T>(x0: T, x1: T, x2: T, x3: T) -> (r: Vec<T>) ensures r@.len() == 4, r@[0] == x0, r@[1] == x1, r@[2] == x2, r@[3] == x3 { let mut v = Vec::new(); v.push(x0); v.push(x1); v.push(x2); v.push(x3); v }
pub fn vx_vec5<T>(x0: T, x1: T, x2: T, x3: T, x4: T) -> (r: Vec<T>) ensures r@.len() == 5, r@[0] == x0, r@[1] == x1, r@[2] == x2, r@[3] == x3, r@[4] == x4 { let mut v = Vec::new(); v.push(x0); v.push(x1); v.push(x2); v.push(x3); v.push(x4); v }
pub fn vx_vec6<T>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T) -> (r: Vec<T>) ensures r@.len() == 6, r@[0] == x0, r@[1] == x1, r@[2] == x2, r@[3] == x3, r@[4] == x4, r@[5] == x5 { let mut v = Vec::new(); v.push(x0); v.push(x1); v.push(x2); v.push(x3); v.push(x4); v.push(x5); v }
pub trait VxOptDefault<T: Default>: Sized { spec fn vx_opt_self(self) -> Option<T>; fn vx_unwrap_or_default(self) -> (r: T) ensures match self.vx_opt_self() { Some(t) => r == t, None => call_ensures(T::default, (), r) }; }
impl<T: Default> VxOptDefault<T> for Option<T> {
    open spec fn vx_opt_self(self) -> Option<T> { self }
    fn vx_unwrap_or_default(self) -> (r: T) { match self { Some(t) => t, None => T::default() } }
}

// ------------------------------------------------------------------ locks and cells
/// The history of what one function did to locks, cells and counters, in order. A function under contract that
/// takes part in it gets the history as a ghost parameter, so that its contract says which critical sections it
/// goes through, in which order, and what each does to the protected value; between them anything may happen
/// (other threads). The value after a write section is named in advance (it is the value the guard is given up with).
#[verifier::external_body]
pub struct VxEvent { v: () }
pub tracked struct VxW { pub ghost log: Seq<VxEvent> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxLock<T> { v: T }
pub uninterp spec fn vx_ev_write<T>(l: VxLock<T>, before: T, after: T) -> VxEvent;
pub uninterp spec fn vx_ev_read<T>(l: VxLock<T>, v: T) -> VxEvent;
pub uninterp spec fn vx_ev_cell_write<T>(l: VxCell<T>, before: T, after: T) -> VxEvent;
pub uninterp spec fn vx_ev_cell_read<T>(l: VxCell<T>, v: T) -> VxEvent;
/// a guard is given up before the end of the function
pub uninterp spec fn vx_ev_drop() -> VxEvent;
/// the kinds of events are different, and an event tells what it is about
pub uninterp spec fn vx_ev_kind(e: VxEvent) -> int;
pub broadcast axiom fn ax_ev_write<T>(l: VxLock<T>, b: T, a: T) ensures vx_ev_kind(#[trigger] vx_ev_write(l, b, a)) == 1;
pub broadcast axiom fn ax_ev_read<T>(l: VxLock<T>, b: T) ensures vx_ev_kind(#[trigger] vx_ev_read(l, b)) == 2;
pub broadcast axiom fn ax_ev_call<T>(r: T) ensures vx_ev_kind(#[trigger] vx_ev_call(r)) == 3;
pub broadcast axiom fn ax_ev_drop() ensures #[trigger] vx_ev_kind(vx_ev_drop()) == 4;
pub broadcast axiom fn ax_ev_write_is<T>(l: VxLock<T>, b: T, a: T, m: VxLock<T>, c: T, d: T)
    ensures #![trigger vx_ev_write(l, b, a), vx_ev_write(m, c, d)] vx_ev_write(l, b, a) == vx_ev_write(m, c, d) ==> l == m && b == c && a == d;
pub broadcast group ax_ev_kinds { ax_ev_write, ax_ev_read, ax_ev_call, ax_ev_drop, ax_ev_write_is }
/// some lock of this process has been poisoned
pub uninterp spec fn vx_some_lock_poisoned() -> bool;
pub broadcast axiom fn ax_some_poisoned<T>(l: VxLock<T>) ensures #[trigger] l.vx_poisoned() ==> vx_some_lock_poisoned();
impl<T> VxLock<T> {
    pub uninterp spec fn vx_poisoned(&self) -> bool;
    pub uninterp spec fn vx_initial(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.vx_initial() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_read(&self, Tracked(w): Tracked<&mut VxW>) -> (r: Result<&T, VxPoison>)
        ensures r is Err ==> self.vx_poisoned() && final(w).log == old(w).log, r is Ok ==> final(w).log == old(w).log.push(vx_ev_read(*self, *r->Ok_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write(&self, Tracked(w): Tracked<&mut VxW>) -> (r: Result<&mut T, VxPoison>)
        ensures r is Err ==> self.vx_poisoned() && final(w).log == old(w).log, r is Ok ==> final(w).log == old(w).log.push(vx_ev_write(*self, *r->Ok_0, *final(r->Ok_0))) { unimplemented!() }
    /// fails whenever another thread has the lock
    #[verifier::external_body]
    pub fn vx_try_read(&self, Tracked(w): Tracked<&mut VxW>) -> (r: Result<&T, VxWouldBlock>)
        ensures r is Err ==> final(w).log == old(w).log, r is Ok ==> final(w).log == old(w).log.push(vx_ev_read(*self, *r->Ok_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_try_write(&self, Tracked(w): Tracked<&mut VxW>) -> (r: Result<&mut T, VxWouldBlock>)
        ensures r is Err ==> final(w).log == old(w).log, r is Ok ==> final(w).log == old(w).log.push(vx_ev_write(*self, *r->Ok_0, *final(r->Ok_0))) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxWouldBlock { v: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxCell<T> { v: T }
impl<T> VxCell<T> {
    #[verifier::external_body]
    pub fn vx_borrow(&self, Tracked(w): Tracked<&mut VxW>) -> (r: &T) ensures final(w).log == old(w).log.push(vx_ev_cell_read(*self, *r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_borrow_mut(&self, Tracked(w): Tracked<&mut VxW>) -> (r: &mut T) ensures final(w).log == old(w).log.push(vx_ev_cell_write(*self, *r, *final(r))) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxOnce<T> { v: T }
impl<T> VxOnce<T> {
    /// what the cell holds once it is initialised
    pub uninterp spec fn vx_value(&self) -> T;
    /// every initialiser in the code is under contract, and one of them gave the value
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> (r: &T) requires call_requires(f, ()), ensures *r == self.vx_value(), call_ensures(f, (), *r) { unimplemented!() }
}
pub enum VxOrdering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct VxAtomic { v: u32 }
pub uninterp spec fn vx_ev_add(l: VxAtomic, n: u32, before: u32) -> VxEvent;
impl VxAtomic {
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u32, o: VxOrdering, Tracked(w): Tracked<&mut VxW>) -> (r: u32) ensures final(w).log == old(w).log.push(vx_ev_add(*self, n, r)) { unimplemented!() }
}
/// a function given by the caller is called, with this result
pub uninterp spec fn vx_ev_call<T>(r: T) -> VxEvent;
#[verifier::external_body]
pub fn vx_call_once<T, F: FnOnce() -> T>(f: F, Tracked(w): Tracked<&mut VxW>) -> (r: T)
    requires call_requires(f, ()), ensures call_ensures(f, (), r), final(w).log == old(w).log.push(vx_ev_call(r)) { unimplemented!() }
/// a shared pointer, as the identity of the object it points to
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxArc<T> { v: T }
impl<T> VxArc<T> {
    pub uninterp spec fn vx_val(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.vx_val() == t { unimplemented!() }
}
impl<T> Deref for VxArc<T> {
    type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) ensures *r == self.vx_val() { unimplemented!() }
}
impl<T> Clone for VxArc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// giving up a guard after the last event of a function
#[verifier::external_body]
pub fn vx_drop_last<T>(t: T) ensures has_resolved(t) { unimplemented!() }
/// giving up a guard early; the guard cannot be used any more, so the value stays what it is
#[verifier::external_body]
pub fn vx_drop<T>(t: T, Tracked(w): Tracked<&mut VxW>) ensures has_resolved(t), final(w).log == old(w).log.push(vx_ev_drop()) { unimplemented!() }
pub trait VxTryFrom<T>: Sized {
    type Error;
    spec fn vx_try_from_post(value: T, r: Result<Self, Self::Error>) -> bool;
    fn vx_try_from(value: T) -> (r: Result<Self, Self::Error>) ensures Self::vx_try_from_post(value, r);
}
pub trait VxTryInto<T>: Sized {
    type Error;
    spec fn vx_try_into_post(self, r: Result<T, Self::Error>) -> bool;
    fn vx_try_into(self) -> (r: Result<T, Self::Error>) ensures self.vx_try_into_post(r);
}
impl<U, T: VxTryFrom<U>> VxTryInto<T> for U {
    type Error = T::Error;
    open spec fn vx_try_into_post(self, r: Result<T, T::Error>) -> bool { T::vx_try_from_post(self, r) }
    fn vx_try_into(self) -> (r: Result<T, T::Error>) { T::vx_try_from(self) }
}
pub trait VxAsRef { spec fn vx_text(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.vx_text(); }
impl VxAsRef for str {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    fn vx_as_ref(&self) -> (r: &str) { self }
}
impl VxAsRef for String {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    fn vx_as_ref(&self) -> (r: &str) { self.as_str() }
}
impl<X: VxAsRef + ?Sized> VxAsRef for &X {
    open spec fn vx_text(&self) -> Seq<char> { (**self).vx_text() }
    fn vx_as_ref(&self) -> (r: &str) { (**self).vx_as_ref() }
}
pub trait VxOptRef<T> { spec fn vx_opt(&self) -> Option<T>; fn vx_as_ref(&self) -> (r: Option<&T>) ensures r == (match self.vx_opt() { None => None::<&T>, Some(t) => Some(&t) }); }
impl<T> VxOptRef<T> for Option<T> {
    open spec fn vx_opt(&self) -> Option<T> { *self }
    fn vx_as_ref(&self) -> (r: Option<&T>) { match self { None => None, Some(t) => Some(t) } }
}
/// converting it can be an error
pub open spec fn vx_not_into<S: VxTryInto<T>, T>(s: S) -> bool { exists|e: S::Error| #[trigger] s.vx_try_into_post(Err(e)) }
#[verifier::external_body]
pub fn vx_into_error<E: Into<Error>>(e: E) -> (r: Error) { unimplemented!() }
#[verifier::external_body]
pub struct VxPoison { e: () }
#[verifier::external]
impl core::fmt::Debug for VxPoison { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl From<VxPoison> for Error {
    #[verifier::external_body]
    fn from(value: VxPoison) -> Self { unimplemented!() }
}

/// String::from
pub trait VxIntoText { spec fn vx_as_text(&self) -> Seq<char>; }
impl VxIntoText for &str { open spec fn vx_as_text(&self) -> Seq<char> { (*self)@ } }
impl VxIntoText for &String { open spec fn vx_as_text(&self) -> Seq<char> { (*self)@ } }
impl VxIntoText for String { open spec fn vx_as_text(&self) -> Seq<char> { self@ } }
impl VxIntoText for char { open spec fn vx_as_text(&self) -> Seq<char> { seq![*self] } }
#[verifier::external_body]
pub fn vx_string_from<T: VxIntoText>(t: T) -> (r: String) ensures r@ == t.vx_as_text() { unimplemented!() }

// ------------------------------------------------------------------ more of std: what the standard library documents
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match a { Some(_) => a, None => b });
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (a: Option<T>, f: F) -> (r: Option<T>)
    requires a is None ==> call_requires(f, ()),
    ensures a is Some ==> r == a, a is None ==> call_ensures(f, (), r);
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (match a { Some(_) => b, None => None });
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (a: Option<T>, f: P) -> (r: Option<T>)
    requires a is Some ==> call_requires(f, (&a->Some_0,)),
    ensures a is None ==> r is None, a is Some ==> (exists|b: bool| #[trigger] call_ensures(f, (&a->Some_0,), b) && r == (if b { a } else { None }));
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> call_requires(f, (a->Some_0,)),
    ensures a is None ==> r == d, a is Some ==> call_ensures(f, (a->Some_0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (a: Option<T>, d: D, f: F) -> (r: U)
    requires a is Some ==> call_requires(f, (a->Some_0,)), a is None ==> call_requires(d, ()),
    ensures a is None ==> call_ensures(d, (), r), a is Some ==> call_ensures(f, (a->Some_0,), r);
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match a { None => Ok(None), Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e) });
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> call_requires(f, (a->Some_0,)),
    ensures a is None ==> !r, a is Some ==> call_ensures(f, (a->Some_0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> call_requires(f, (a->Some_0,)),
    ensures a is None ==> r, a is Some ==> call_ensures(f, (a->Some_0,), r);
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, t: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(t);
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a is Ok ==> call_requires(f, (a->Ok_0,)),
    ensures a is Ok ==> call_ensures(f, (a->Ok_0,), r), a is Err ==> r == Err::<U, E>(a->Err_0);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(t) => t, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (a: Result<T, E>, f: F) -> (r: T)
    requires a is Err ==> call_requires(f, (a->Err_0,)),
    ensures a is Ok ==> r == a->Ok_0, a is Err ==> call_ensures(f, (a->Err_0,), r);
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (a: Result<T, E>, f: F) -> (r: bool)
    requires a is Ok ==> call_requires(f, (a->Ok_0,)),
    ensures a is Err ==> !r, a is Ok ==> call_ensures(f, (a->Ok_0,), r);
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, t: T) -> (r: T)
    ensures r == *old(a), *final(a) == t;
pub assume_specification<T: Default> [core::mem::take::<T>] (a: &mut T) -> (r: T)
    ensures r == *old(a), call_ensures(T::default, (), *final(a));
pub assume_specification [String::with_capacity] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });

broadcast use vx_seq_lemmas;
broadcast use vx_it_len;
broadcast use ax_some_poisoned;
