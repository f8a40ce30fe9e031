// Stand-ins for the standard-library and third-party types the crate uses, with the
// contracts assumed about them.  Everything marked external_body here is TRUSTED:
// it states what std / float_ord / regex / ciborium / serde_json do and is not proved.
pub mod vp {
use vstd::prelude::*;
use crate::spec::*;
use crate::value::Value;

#[derive(Clone, Copy)]
pub struct FloatOrd<T>(pub T);

// ---------------------------------------------------------------- iterators
// Every `.iter()`, `.into_iter()` and `for` loop in the woven text goes through VpIt:
// a finite sequence and a position.  Adaptors are eager (the closures used are pure).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIt<T> { x: std::collections::VecDeque<T> }

impl<T> VpIt<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(t) => old(self).pos() < old(self).seq().len() && t == old(self).seq()[old(self).pos()]
                    && final(self).pos() == old(self).pos() + 1,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VpIt<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],)),
        ensures r.pos() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> f.ensures((self.seq()[i],), r.seq()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VpIt<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.seq() == self.seq().reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: VpIt<U>) -> (r: VpIt<(T, U)>)
        requires self.pos() == 0, o.pos() == 0,
        ensures r.pos() == 0, r.seq().len() == vstd::math::min(self.seq().len() as int, o.seq().len() as int),
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == (self.seq()[i], o.seq()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VpIt<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == (i as usize, self.seq()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VpIt<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.seq() == self.seq().skip(vstd::math::min(n as int, self.seq().len() as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VpIt<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.seq() == self.seq().take(vstd::math::min(n as int, self.seq().len() as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],)),
        ensures r ==> forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((#[trigger] self.seq()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.seq().len() && f.ensures((#[trigger] self.seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((#[trigger] self.seq()[i],), false),
            r ==> exists|i: int| 0 <= i < self.seq().len() && f.ensures((#[trigger] self.seq()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VpCollect<T>>(self) -> (r: C)
        requires self.pos() == 0,
        ensures C::collected(self.seq(), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: VpIt<T>) ensures r == self { unimplemented!() }
}
impl<'a, T: Clone> VpIt<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VpIt<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == *self.seq()[i],
    { unimplemented!() }
}

pub trait VpCollect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
impl<T> VpCollect<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, r: Vec<T>) -> bool { r@ == s }
}
impl<T> VpCollect<T> for VecDeque<T> {
    open spec fn collected(s: Seq<T>, r: VecDeque<T>) -> bool { r@ == s }
}
// collect() into a Result stops at the first error
impl<T, E> VpCollect<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v@.len() == s.len()
                && forall|i: int| #![trigger v@[i]] #![trigger s[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i]),
            Err(e) => exists|i: int| first_err(s, i, e),
        }
    }
}
pub open spec fn first_err<T, E>(s: Seq<Result<T, E>>, i: int, e: E) -> bool {
    &&& 0 <= i < s.len()
    &&& s[i] == Err::<T, E>(e)
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok
}
impl<V> VpCollect<(String, V)> for HashMap<String, V> {
    // insertion in order: the last pair with a given key wins
    open spec fn collected(s: Seq<(String, V)>, r: HashMap<String, V>) -> bool { r@ == assoc(s) }
}
impl<V> VpCollect<(String, V)> for BTreeMap<String, V> {
    open spec fn collected(s: Seq<(String, V)>, r: BTreeMap<String, V>) -> bool { r.smap() == assoc(s) }
}
impl<V, E> VpCollect<Result<(String, V), E>> for Result<BTreeMap<String, V>, E> {
    open spec fn collected(s: Seq<Result<(String, V), E>>, r: Result<BTreeMap<String, V>, E>) -> bool {
        match r {
            Ok(m) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok)
                && m.smap() == assoc(s.map_values(|x: Result<(String, V), E>| x->Ok_0)),
            Err(e) => exists|i: int| first_err(s, i, e),
        }
    }
}
impl<E> VpCollect<Result<(Value, Value), E>> for Result<BTreeMap<Value, Value>, E> {
    open spec fn collected(s: Seq<Result<(Value, Value), E>>, r: Result<BTreeMap<Value, Value>, E>) -> bool {
        match r {
            Ok(m) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok)
                && m.vmap() == tomap(ok_pairs(s)),
            Err(e) => exists|i: int| first_err(s, i, e),
        }
    }
}
pub open spec fn assoc<V>(s: Seq<(String, V)>) -> Map<Seq<char>, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { assoc(s.drop_last()).insert(s.last().0@, s.last().1) }
}
pub trait VpIter: Sized {
    type Item;
    spec fn vseq(self, r: Seq<Self::Item>) -> bool;
    fn vp_into_iter(self) -> (r: VpIt<Self::Item>) ensures self.vseq(r.seq()), r.pos() == 0;
}
impl<'a, T> VpIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vseq(self, r: Seq<&'a T>) -> bool { r.len() == self@.len() && forall|i: int| #![trigger r[i]] #![trigger self@[i]] 0 <= i < r.len() ==> *r[i] == self@[i] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
impl<'a, T> VpIter for &'a [T] {
    type Item = &'a T;
    open spec fn vseq(self, r: Seq<&'a T>) -> bool { r.len() == self@.len() && forall|i: int| #![trigger r[i]] #![trigger self@[i]] 0 <= i < r.len() ==> *r[i] == self@[i] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
impl<T> VpIter for Vec<T> {
    type Item = T;
    open spec fn vseq(self, r: Seq<T>) -> bool { r == self@ }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl VpIter for std::ops::Range<usize> {
    type Item = usize;
    open spec fn vseq(self, r: Seq<usize>) -> bool {
        r.len() == (if self.start <= self.end { self.end - self.start } else { 0 })
            && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == self.start + i
    }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<usize>) { unimplemented!() }
}
impl<'a> VpIter for &'a BTreeMap<Value, Value> {
    type Item = (&'a Value, &'a Value);
    // entries come out in ascending key order
    open spec fn vseq(self, r: Seq<(&'a Value, &'a Value)>) -> bool { iter_of(self.vmap(), r) }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<(&'a Value, &'a Value)>) { unimplemented!() }
}
pub open spec fn iter_of(m: Map<SV, SV>, r: Seq<(&Value, &Value)>) -> bool {
    let ks = key_order(m.dom());
    r.len() == ks.len() && forall|i: int| 0 <= i < r.len() ==> sv(*(#[trigger] r[i]).0) == ks[i] && sv(*r[i].1) == m[ks[i]]
}
impl<'a, T> VpIter for &'a VecDeque<T> {
    type Item = &'a T;
    open spec fn vseq(self, r: Seq<&'a T>) -> bool { r.len() == self@.len() && forall|i: int| #![trigger r[i]] #![trigger self@[i]] 0 <= i < r.len() ==> *r[i] == self@[i] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
pub trait VpIterRef {
    type E;
    spec fn vrseq(&self) -> Seq<Self::E>;
    fn vp_iter<'a>(&'a self) -> (r: VpIt<&'a Self::E>)
        ensures r.pos() == 0, r.seq().len() == self.vrseq().len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger self.vrseq()[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == self.vrseq()[i];
}
impl<T> VpIterRef for [T] {
    type E = T;
    open spec fn vrseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter<'a>(&'a self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
impl<T> VpIterRef for VecDeque<T> {
    type E = T;
    open spec fn vrseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter<'a>(&'a self) -> (r: VpIt<&'a T>) { unimplemented!() }
}

// ---------------------------------------------------------------- VecDeque
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { x: std::collections::VecDeque<T> }

impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(_n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(t) => old(self)@.len() > 0 && t == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures match r { None => self@.len() == 0, Some(t) => self@.len() > 0 && *t == self@[0] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>)
        ensures match r { None => self@.len() == 0, Some(t) => self@.len() > 0 && *t == self@.last() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { None => self@.len() <= i, Some(t) => self@.len() > i && *t == self@[i as int] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn back_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(m) => old(self)@.len() > 0 && *m == old(self)@.last() && final(self)@ == old(self)@.drop_last().push(*final(m)),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn front_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(m) => old(self)@.len() > 0 && *m == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(m)),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: Self)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.take(n as int), r@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Self)
        ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I: VpIter<Item = T>>(&mut self, it: I)
        ensures exists|s: Seq<T>| #[trigger] it.vseq(s) && final(self)@ == old(self)@ + s,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain<R: VpFull>(&mut self, _r: R) -> (r: VpIt<T>)
        ensures r.pos() == 0, r.seq() == old(self)@, final(self)@ == Seq::<T>::empty()
    { unimplemented!() }
}
impl<T> VpIter for VecDeque<T> {
    type Item = T;
    open spec fn vseq(self, r: Seq<T>) -> bool { r == self@ }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl<T> VpIter for VpIt<T> {
    type Item = T;
    open spec fn vseq(self, r: Seq<T>) -> bool { self.pos() == 0 ==> r == self.seq() }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
pub trait VpFull {}
impl VpFull for std::ops::RangeFull {}

// ---------------------------------------------------------------- BTreeMap / HashMap
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<T> Default for VecDeque<T> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() } }
impl<T> From<Vec<T>> for VecDeque<T> { #[verifier::external_body] fn from(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() } }
impl<V> Default for HashMap<String, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() } }
impl<V> Default for BTreeMap<String, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r.smap() == Map::<Seq<char>, V>::empty() { unimplemented!() } }
impl Default for BTreeMap<Value, Value> { #[verifier::external_body] fn default() -> (r: Self) ensures r.vmap() == Map::<SV, SV>::empty() { unimplemented!() } }
impl<K, V> Clone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for VecDeque<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<V> BTreeMap<String, V> {
    pub uninterp spec fn smap(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.smap() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { None => !self.smap().contains_key(k@), Some(v) => self.smap().contains_key(k@) && *v == self.smap()[k@] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).smap() == old(self).smap().insert(k@, v), r is Some <==> old(self).smap().contains_key(k@), r is Some ==> r->Some_0 == old(self).smap()[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.smap().contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.smap() == Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self.smap().dom().finite(), r == self.smap().dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self).smap() == old(self).smap().remove(k@),
            match r { None => !old(self).smap().contains_key(k@), Some(v) => old(self).smap().contains_key(k@) && v == old(self).smap()[k@] }
    { unimplemented!() }
}
impl BTreeMap<Value, Value> {
    // the entries, seen through `sv` (two keys are the same key iff their `sv` agree)
    pub uninterp spec fn vmap(&self) -> Map<SV, SV>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.vmap() == Map::<SV, SV>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Value) -> (r: Option<&Value>)
        ensures match r { None => !self.vmap().contains_key(sv(*k)), Some(v) => self.vmap().contains_key(sv(*k)) && sv(*v) == self.vmap()[sv(*k)] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Value) -> (r: bool)
        ensures r == self.vmap().contains_key(sv(*k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Value) -> (r: Option<Value>)
        ensures final(self).vmap() == old(self).vmap().remove(sv(*k)),
            match r { None => !old(self).vmap().contains_key(sv(*k)), Some(v) => old(self).vmap().contains_key(sv(*k)) && sv(v) == old(self).vmap()[sv(*k)] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Value, v: Value) -> (r: Option<Value>)
        ensures final(self).vmap() == old(self).vmap().insert(sv(k), sv(v)),
            match r { None => !old(self).vmap().contains_key(sv(k)), Some(x) => old(self).vmap().contains_key(sv(k)) && sv(x) == old(self).vmap()[sv(k)] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &Value) -> (r: Option<(Value, Value)>)
        ensures final(self).vmap() == old(self).vmap().remove(sv(*k)),
            match r { None => !old(self).vmap().contains_key(sv(*k)),
                Some((a, v)) => old(self).vmap().contains_key(sv(*k)) && sv(a) == sv(*k) && sv(v) == old(self).vmap()[sv(*k)] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value(&self, k: &Value) -> (r: Option<(&Value, &Value)>)
        ensures match r { None => !self.vmap().contains_key(sv(*k)),
            Some((a, v)) => self.vmap().contains_key(sv(*k)) && sv(*a) == sv(*k) && sv(*v) == self.vmap()[sv(*k)] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).vmap() == Map::<SV, SV>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Self)
        ensures final(self).vmap() == old(self).vmap().union_prefer_right(old(o).vmap()), final(o).vmap() == Map::<SV, SV>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.vmap() == Map::<SV, SV>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.vmap().dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I: VpIter<Item = (Value, Value)>>(&mut self, it: I)
        ensures exists|s: Seq<(Value, Value)>| #[trigger] it.vseq(s) && final(self).vmap() == old(self).vmap().union_prefer_right(vassoc(s)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter<'a>(&'a self) -> (r: VpIt<(&'a Value, &'a Value)>)
        ensures r.pos() == 0, iter_of(self.vmap(), r.seq())
    { unimplemented!() }
}
// a map that exists in memory has finitely many entries
#[verifier::external_body]
pub broadcast proof fn axiom_vmap_finite(m: BTreeMap<Value, Value>)
    ensures #[trigger] m.vmap().dom().finite()
{ }

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<V> HashMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { None => !self@.contains_key(k@), Some(v) => self@.contains_key(k@) && *v == self@[k@] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r is Some <==> old(self)@.contains_key(k@), r is Some ==> r->Some_0 == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(_n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@),
            match r { None => !old(self)@.contains_key(k@), Some(v) => old(self)@.contains_key(k@) && v == old(self)@[k@] }
    { unimplemented!() }
}

// ---------------------------------------------------------------- misc std
#[verifier::external_body]
pub fn discriminant(l: &crate::ivt::Literal) -> (r: u8)
    ensures r == lit_tag(*l)
{ unimplemented!() }

pub assume_specification [ u128::leading_zeros ] (x: u128) -> (r: u32)
    ensures lz_is(x as int, r as int);

pub assume_specification [ u64::div_ceil ] (a: u64, b: u64) -> (r: u64)
    requires b > 0,
    ensures r == (a + b - 1) / (b as int);

pub assume_specification [ <i128 as From<u64>>::from ] (x: u64) -> (r: i128) ensures r == x;
pub assume_specification [ <i128 as From<u32>>::from ] (x: u32) -> (r: i128) ensures r == x;

// Box::as_ref, Option::as_ref (renamed because their std signatures cannot carry a contract here)
pub trait VpAsRefBox<T> { fn vp_as_ref(&self) -> (r: &T) ensures *r == self.vp_box(); spec fn vp_box(&self) -> T; }
impl<T> VpAsRefBox<T> for Box<T> {
    open spec fn vp_box(&self) -> T { **self }
    fn vp_as_ref(&self) -> (r: &T) { &**self }
}
pub trait VpAsRefOpt<T> { fn vp_as_ref<'a>(&'a self) -> (r: Option<&'a T>) ensures r == self.vp_opt(); spec fn vp_opt<'a>(&'a self) -> Option<&'a T>; }
impl<T> VpAsRefOpt<T> for Option<T> {
    open spec fn vp_opt<'a>(&'a self) -> Option<&'a T> { match *self { None => None, Some(t) => Some(&t) } }
    fn vp_as_ref<'a>(&'a self) -> (r: Option<&'a T>) { match self { None => None, Some(t) => Some(t) } }
}
pub assume_specification [ String::len ] (s: &String) -> (r: usize)
    ensures r == utf8_len(s@);

pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ] (r: Result<T, E>, d: T) -> (o: T)
    ensures o == (match r { Ok(t) => t, Err(_) => d });

// Combinators of std the crate may be rewritten with.
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_some_and ] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { None => !r, Some(t) => f.ensures((t,), r) };
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_none_or ] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { None => r, Some(t) => f.ensures((t,), r) };
pub assume_specification<T, U, F: FnOnce(T) -> U> [ Option::<T>::map_or ] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { None => r == d, Some(t) => f.ensures((t,), r) };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [ Option::<T>::map_or_else ] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)), o is None ==> d.requires(()),
    ensures match o { None => d.ensures((), r), Some(t) => f.ensures((t,), r) };
pub assume_specification<T> [ Option::<T>::or ] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, F: FnOnce() -> Option<T>> [ Option::<T>::or_else ] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures match o { None => f.ensures((), r), Some(t) => r == o };
pub assume_specification<T, F: FnOnce(&T) -> bool> [ Option::<T>::filter ] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->Some_0,)),
    ensures match o { None => r is None, Some(t) => match r { None => f.ensures((&t,), false), Some(u) => u == t && f.ensures((&t,), true) } };
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { None => None, Some(t) => Some(*t) });
pub assume_specification<T, U> [ Option::<T>::zip ] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None });
pub assume_specification<T, E, U> [ Result::<T, E>::and ] (o: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
    ensures r == (match o { Ok(_) => p, Err(e) => Err(e) });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [ Result::<T, E>::and_then ] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(t) => f.ensures((t,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, G> [ Result::<T, E>::or ] (o: Result<T, E>, p: Result<T, G>) -> (r: Result<T, G>)
    ensures r == (match o { Ok(t) => Ok(t), Err(_) => p });
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>> [ Result::<T, E>::or_else ] (o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Err(t) => f.ensures((t,), r), Ok(e) => r == Ok::<T, G>(e) };
pub assume_specification<T, E, F: FnOnce(E) -> T> [ Result::<T, E>::unwrap_or_else ] (o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Err(t) => f.ensures((t,), r), Ok(e) => r == e };
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [ Result::<T, E>::map_or ] (o: Result<T, E>, d: U, f: F) -> (r: U)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(t) => f.ensures((t,), r), Err(e) => r == d };
pub assume_specification<T, E, F: FnOnce(T) -> bool> [ Result::<T, E>::is_ok_and ] (o: Result<T, E>, f: F) -> (r: bool)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(t) => f.ensures((t,), r), Err(e) => !r };
pub assume_specification<T> [ std::mem::replace ] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
pub assume_specification [ i128::is_negative ] (x: i128) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i128::is_positive ] (x: i128) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i64::is_negative ] (x: i64) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i64::is_positive ] (x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i64::checked_neg ] (x: i64) -> (r: Option<i64>) ensures r == (if x == i64::MIN { None } else { Some((-x) as i64) });
pub assume_specification [ i128::checked_neg ] (x: i128) -> (r: Option<i128>) ensures r == (if x == i128::MIN { None } else { Some((-x) as i128) });
pub assume_specification [ i64::unsigned_abs ] (x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i128::unsigned_abs ] (x: i128) -> (r: u128) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (x: &[T]) -> (r: Vec<T>)
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned(#[trigger] x@[i], r@[i]);
pub assume_specification<T> [ bool::then_some::<T> ] (b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });

// More of std, for code that may be written otherwise. What has no definition here is an uninterpreted function of its arguments.
pub assume_specification<T> [ <[T]>::split_last ] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some((x, f)) => s@.len() > 0 && *x == s@.last() && f@ == s@.drop_last() };
pub assume_specification<T> [ <[T]>::swap ] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification [ i128::abs ] (x: i128) -> (r: i128)
    requires x > i128::MIN, ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i64::abs ] (x: i64) -> (r: i64)
    requires x > i64::MIN, ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i128::signum ] (x: i128) -> (r: i128)
    ensures r == (if x < 0 { -1int } else if x > 0 { 1 } else { 0 });
pub assume_specification [ i128::saturating_add ] (x: i128, y: i128) -> (r: i128)
    ensures r == (if x + y > i128::MAX { i128::MAX as int } else if x + y < i128::MIN { i128::MIN as int } else { x + y });
pub assume_specification [ i128::saturating_sub ] (x: i128, y: i128) -> (r: i128)
    ensures r == (if x - y > i128::MAX { i128::MAX as int } else if x - y < i128::MIN { i128::MIN as int } else { x - y });
pub assume_specification [ i128::pow ] (x: i128, n: u32) -> (r: i128)
    requires i128::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= i128::MAX,
    ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification [ u64::pow ] (x: u64, n: u32) -> (r: u64)
    requires vstd::arithmetic::power::pow(x as int, n as nat) <= u64::MAX,
    ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification [ i128::leading_zeros ] (x: i128) -> (r: u32)
    ensures x >= 0 ==> lz_is(x as int, r as int);
pub uninterp spec fn std_f64(op: Seq<char>, x: f64) -> f64;
pub uninterp spec fn std_f64_is(op: Seq<char>, x: f64) -> bool;
pub uninterp spec fn std_f64_bits(x: f64) -> u64;
pub assume_specification [ f64::abs ] (x: f64) -> (r: f64) ensures r == std_f64("abs"@, x);
pub assume_specification [ f64::fract ] (x: f64) -> (r: f64) ensures r == std_f64("fract"@, x);
pub assume_specification [ f64::trunc ] (x: f64) -> (r: f64) ensures r == std_f64("trunc"@, x);
pub assume_specification [ f64::floor ] (x: f64) -> (r: f64) ensures r == std_f64("floor"@, x);
pub assume_specification [ f64::ceil ] (x: f64) -> (r: f64) ensures r == std_f64("ceil"@, x);
pub assume_specification [ f64::round ] (x: f64) -> (r: f64) ensures r == std_f64("round"@, x);
pub assume_specification [ f64::is_nan ] (x: f64) -> (r: bool) ensures r == std_f64_is("nan"@, x);
pub assume_specification [ f64::is_finite ] (x: f64) -> (r: bool) ensures r == std_f64_is("finite"@, x);
pub assume_specification [ f64::is_infinite ] (x: f64) -> (r: bool) ensures r == std_f64_is("infinite"@, x);
pub assume_specification [ f64::is_sign_negative ] (x: f64) -> (r: bool) ensures r == std_f64_is("negative"@, x);
pub assume_specification [ f64::to_bits ] (x: f64) -> (r: u64) ensures r == std_f64_bits(x);
pub uninterp spec fn std_char_is(op: Seq<char>, c: char) -> bool;
pub assume_specification [ char::is_alphabetic ] (c: char) -> (r: bool) ensures r == std_char_is("alphabetic"@, c);
pub assume_specification [ char::is_alphanumeric ] (c: char) -> (r: bool) ensures r == std_char_is("alphanumeric"@, c);
pub assume_specification [ char::is_numeric ] (c: char) -> (r: bool) ensures r == std_char_is("numeric"@, c);
pub assume_specification [ char::is_control ] (c: char) -> (r: bool) ensures r == std_char_is("control"@, c);
pub assume_specification [ char::is_ascii ] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 0x80);
pub assume_specification [ char::is_ascii_hexdigit ] (c: &char) -> (r: bool)
    ensures r == ('0' <= *c <= '9' || 'a' <= *c <= 'f' || 'A' <= *c <= 'F');
pub assume_specification [ char::is_ascii_uppercase ] (c: &char) -> (r: bool) ensures r == ('A' <= *c <= 'Z');
pub assume_specification [ char::is_ascii_lowercase ] (c: &char) -> (r: bool) ensures r == ('a' <= *c <= 'z');
pub assume_specification [ char::is_ascii_graphic ] (c: &char) -> (r: bool) ensures r == ('!' <= *c <= '~');
pub assume_specification [ char::is_ascii_control ] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 0x20 || (*c as u32) == 0x7f);
pub assume_specification [ char::is_ascii_punctuation ] (c: &char) -> (r: bool)
    ensures r == ('!' <= *c <= '/' || ':' <= *c <= '@' || '[' <= *c <= '`' || '{' <= *c <= '~');
pub assume_specification [ char::is_digit ] (c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36,
    ensures radix == 10 ==> r == ('0' <= c <= '9'), radix == 2 ==> r == (c == '0' || c == '1'), radix == 8 ==> r == ('0' <= c <= '7'),
        radix == 16 ==> r == ('0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F');
pub uninterp spec fn std_str(op: Seq<char>, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn std_str_eqi(s: Seq<char>, t: Seq<char>) -> bool;
pub assume_specification [ str::trim ] (s: &str) -> (r: &str) ensures r@ == std_str("trim"@, s@);
pub assume_specification [ str::trim_start ] (s: &str) -> (r: &str) ensures r@ == std_str("trim_start"@, s@);
pub assume_specification [ str::trim_end ] (s: &str) -> (r: &str) ensures r@ == std_str("trim_end"@, s@);
pub assume_specification [ str::to_lowercase ] (s: &str) -> (r: String) ensures r@ == std_str("lower"@, s@);
pub assume_specification [ str::to_uppercase ] (s: &str) -> (r: String) ensures r@ == std_str("upper"@, s@);
pub assume_specification [ str::to_ascii_lowercase ] (s: &str) -> (r: String) ensures r@ == std_str("ascii_lower"@, s@);
pub assume_specification [ str::to_ascii_uppercase ] (s: &str) -> (r: String) ensures r@ == std_str("ascii_upper"@, s@);
pub assume_specification [ str::eq_ignore_ascii_case ] (s: &str, t: &str) -> (r: bool) ensures r == std_str_eqi(s@, t@);
pub assume_specification<T> [ Option::<T>::replace ] (o: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(t);
pub assume_specification<T> [ Option::<T>::xor ] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T, U> [ Option::<T>::and ] (o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None });
pub assume_specification<T> [ Option::<Option<T>>::flatten ] (o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<T, E, F: FnOnce(E) -> bool> [ Result::<T, E>::is_err_and ] (o: Result<T, E>, f: F) -> (r: bool)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Ok(_) => !r, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [ Result::<T, E>::map_or_else ] (o: Result<T, E>, d: D, f: F) -> (r: U)
    requires o is Ok ==> f.requires((o->Ok_0,)), o is Err ==> d.requires((o->Err_0,)),
    ensures match o { Ok(t) => f.ensures((t,), r), Err(e) => d.ensures((e,), r) };
pub assume_specification<T, E> [ Option::<Result<T, E>>::transpose ] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e) });
pub assume_specification [ std::cmp::Ordering::is_le ] (o: std::cmp::Ordering) -> (r: bool) ensures r == !(o is Greater);
pub assume_specification [ std::cmp::Ordering::is_lt ] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o is Less);
pub assume_specification [ std::cmp::Ordering::is_ge ] (o: std::cmp::Ordering) -> (r: bool) ensures r == !(o is Less);
pub assume_specification [ std::cmp::Ordering::is_gt ] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o is Greater);
pub assume_specification [ std::cmp::Ordering::is_eq ] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o is Equal);
pub assume_specification [ std::cmp::Ordering::is_ne ] (o: std::cmp::Ordering) -> (r: bool) ensures r == !(o is Equal);

/// format!(..): the text of messages is not modelled.
#[verifier::external_body]
pub fn vp_fmt<T>(_args: T) -> (r: String) { unimplemented!() }

// ---------------------------------------------------------------- regex
pub mod regex {
    use vstd::prelude::*;
    /// Is this text a regular expression that compiles within the size limit?
    pub uninterp spec fn re_ok(p: Seq<char>) -> bool;
    /// Does the expression match somewhere in the text?
    pub uninterp spec fn re_matches(p: Seq<char>, s: Seq<char>) -> bool;
    #[verifier::external_body]
    pub struct Regex { x: u8 }
    impl Regex {
        pub uninterp spec fn pat(&self) -> Seq<char>;
        pub open spec fn matches(&self, s: Seq<char>) -> bool { re_matches(self.pat(), s) }
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &str) ensures r@ == self.pat() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.matches(s@) { unimplemented!() }
    }
    pub struct Error { pub x: u8 }
    #[verifier::external_body]
    pub struct RegexBuilder { x: u8 }
    impl RegexBuilder {
        pub uninterp spec fn pat(&self) -> Seq<char>;
        pub uninterp spec fn limit(&self) -> int;
        #[verifier::external_body]
        pub fn new(p: &str) -> (r: RegexBuilder) ensures r.pat() == p@, r.limit() == 10 * 0x100000 { unimplemented!() }
        #[verifier::external_body]
        pub fn size_limit(self, n: usize) -> (r: RegexBuilder) ensures r.pat() == self.pat(), r.limit() == n { unimplemented!() }
        #[verifier::external_body]
        pub fn build(&self) -> (r: Result<Regex, Error>)
            ensures self.limit() == 0x100000 ==> match r { Ok(x) => x.pat() == self.pat() && re_ok(self.pat()), Err(_) => !re_ok(self.pat()) }
        { unimplemented!() }
    }
}

// ---------------------------------------------------------------- ciborium
pub mod ciborium {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct Integer { pub i: i128 }
    impl From<Integer> for i128 { #[verifier::external_body] fn from(x: Integer) -> i128 { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<Integer> for i128 {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(x: Integer) -> i128 { x.i }
    }
    pub enum Value {
        Integer(Integer), Bytes(Vec<u8>), Float(f64), Text(String), Bool(bool), Null,
        Tag(u64, Box<Value>), Array(Vec<Value>), Map(Vec<(Value, Value)>),
    }
    pub struct Error { pub x: u8 }
    #[verifier::external]
    impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    /// The CBOR item at the start of the bytes, and how many bytes it takes.
    pub uninterp spec fn first_item(b: Seq<u8>) -> Option<(Value, nat)>;
    #[verifier::external_body]
    pub fn from_reader(r: &mut &[u8]) -> (o: Result<Value, Error>)
        ensures match o {
            Ok(v) => first_item(old(r)@) is Some && first_item(old(r)@)->Some_0.0 == v
                && first_item(old(r)@)->Some_0.1 <= old(r)@.len()
                && final(r)@ == old(r)@.skip(first_item(old(r)@)->Some_0.1 as int),
            Err(_) => first_item(old(r)@) is None,
        }
    { unimplemented!() }
}

// ---------------------------------------------------------------- serde_json
pub mod serde_json {
    use vstd::prelude::*;
    use super::*;
    pub ghost enum Num { Pos(u64), Neg(i64), Float(f64) }
    #[verifier::external_body]
    pub struct Number { x: u8 }
    impl Number {
        /// serde_json keeps a number in one of three forms; Neg is always negative.
        pub uninterp spec fn num(&self) -> Num;
        #[verifier::external_body]
        pub fn as_u64(&self) -> (r: Option<u64>)
            ensures r == (match self.num() { Num::Pos(u) => Some(u), _ => None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_i64(&self) -> (r: Option<i64>)
            ensures r == (match self.num() { Num::Pos(u) => if u <= i64::MAX { Some(u as i64) } else { None }, Num::Neg(i) => Some(i), _ => None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_f64(&self) -> (r: Option<f64>)
            ensures match self.num() { Num::Float(f) => r == Some(f), _ => r is Some } { unimplemented!() }
        #[verifier::external_body]
        pub fn is_u64(&self) -> (r: bool) ensures r == (self.num() is Pos) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_i64(&self) -> (r: bool)
            ensures r == (match self.num() { Num::Pos(u) => u <= i64::MAX, Num::Neg(i) => true, _ => false }) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_f64(&self) -> (r: bool) ensures r == (self.num() is Float) { unimplemented!() }
    }
    /// An object: its entries in iteration order, keys distinct.
    #[verifier::accept_recursive_types(V)]
    pub struct Map<K, V> { pub v: Vec<(K, V)> }
    impl<V> Map<String, V> {
        #[verifier::external_body]
        pub fn vp_iter<'a>(&'a self) -> (r: VpIt<(&'a String, &'a V)>)
            ensures r.pos() == 0, r.seq().len() == self.v@.len(),
                forall|i: int| #![trigger r.seq()[i]] #![trigger self.v@[i]] 0 <= i < r.seq().len() ==> *r.seq()[i].0 == self.v@[i].0 && *r.seq()[i].1 == self.v@[i].1,
        { unimplemented!() }
    }
    impl<'a, V> VpIter for &'a Map<String, V> {
        type Item = (&'a String, &'a V);
        open spec fn vseq(self, r: Seq<(&'a String, &'a V)>) -> bool {
            r.len() == self.v@.len() && forall|i: int| #![trigger r[i]] #![trigger self.v@[i]] 0 <= i < r.len() ==> *r[i].0 == self.v@[i].0 && *r[i].1 == self.v@[i].1
        }
        #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<(&'a String, &'a V)>) { unimplemented!() }
    }
    pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map<String, Value>) }
    pub struct Error { pub x: u8 }
    #[verifier::external]
    impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    /// The JSON document a text is, if it is one.
    pub uninterp spec fn parse(s: Seq<char>) -> Option<Value>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Value, Error>)
        ensures match r { Ok(v) => parse(s@) == Some(v), Err(_) => parse(s@) is None }
    { unimplemented!() }
}

pub trait TryFrom<T>: Sized {
    type Error;
    spec fn vp_from(t: T, r: Result<Self, Self::Error>) -> bool;
    fn try_from(t: T) -> (r: Result<Self, Self::Error>) ensures Self::vp_from(t, r);
}
}
