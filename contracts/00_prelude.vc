## Ghost vocabulary and the trusted interface of everything outside /repo (std, once_cell, regex).
## Every external_body / assume_specification here is listed in DESIGN.md ("Trusted base").
@module root
global size_of usize == 8;
pub uninterp spec fn vf_vac(i: int) -> bool;

pub type Bytes = Seq<u8>;

// ---------------------------------------------------------------- generic helpers
#[verifier::external_body]
pub fn vf_panic<T>() -> (r: T) requires false { panic!() }
pub fn vf_assert(b: bool) requires b {}
// a documented abort of the library (misuse by its user): only ever reached under the stated condition
#[verifier::external_body]
pub fn vf_abort<T>(c: Ghost<bool>) -> (r: T) requires c@ ensures false { panic!() }

pub trait VfClone: Sized { fn vf_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VfClone for T {
    #[verifier::external_body]
    fn vf_clone(&self) -> (r: Self) { unimplemented!() }
}

pub trait VfOrd: Sized { spec fn lt(a: Self, b: Self) -> bool; }
impl VfOrd for u8 { open spec fn lt(a: u8, b: u8) -> bool { a < b } }
impl VfOrd for usize { open spec fn lt(a: usize, b: usize) -> bool { a < b } }
impl VfOrd for i32 { open spec fn lt(a: i32, b: i32) -> bool { a < b } }

#[verifier::external_body]
pub fn vf_max<T: VfOrd>(a: T, b: T) -> (r: T) ensures r == (if T::lt(a, b) { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn vf_min<T: VfOrd>(a: T, b: T) -> (r: T) ensures r == (if T::lt(b, a) { b } else { a }) { unimplemented!() }

pub open spec fn sorted_by<T, K: VfOrd>(v: Seq<T>, kf: spec_fn(&T) -> K) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> K::lt(kf(&#[trigger] v[i]), kf(&#[trigger] v[j]))
}
pub open spec fn wsorted_by<T, K: VfOrd>(v: Seq<T>, kf: spec_fn(&T) -> K) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> !K::lt(kf(&#[trigger] v[j]), kf(&#[trigger] v[i]))
}
// slice::binary_search_by_key: documented behaviour, for any slice `Ok` points at an equal key; the ordering part needs a sorted slice
#[verifier::external_body]
pub fn vf_bsearch<T, K: VfOrd>(v: &[T], key: &K, kf: Ghost<spec_fn(&T) -> K>) -> (r: Result<usize, usize>)
    ensures v@.len() <= isize::MAX, match r {
        Ok(i) => i < v@.len() && kf@(&v@[i as int]) == *key,
        Err(i) => i <= v@.len() && (sorted_by(v@, kf@) || wsorted_by(v@, kf@) ==>
            (forall|j: int| 0 <= j < i ==> K::lt(kf@(&#[trigger] v@[j]), *key)) &&
            (forall|j: int| i <= j < v@.len() ==> K::lt(*key, kf@(&#[trigger] v@[j])))),
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_bsearch_plain<T: VfOrd>(v: &[T], key: &T) -> (r: Result<usize, usize>)
    ensures v@.len() <= isize::MAX, match r {
        Ok(i) => i < v@.len() && v@[i as int] == *key,
        Err(i) => i <= v@.len() && (sorted_by(v@, |t: &T| *t) ==>
            (forall|j: int| 0 <= j < i ==> T::lt(#[trigger] v@[j], *key)) &&
            (forall|j: int| i <= j < v@.len() ==> T::lt(*key, #[trigger] v@[j]))),
    }
{ unimplemented!() }
/// b is a rearrangement of a
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>| #![trigger p.len()] p.len() == a.len()
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j])
}
// slice::sort_by_key: stable sort
#[verifier::external_body]
pub fn vf_sort_by_key<T, K: VfOrd>(v: &mut Vec<T>, kf: Ghost<spec_fn(&T) -> K>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        wsorted_by(final(v)@, kf@), permuted(old(v)@, final(v)@),
        forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i]),
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
{ unimplemented!() }

#[verifier::external_body]
pub fn vf_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@
{ unimplemented!() }

// ---------------------------------------------------------------- sequences iterated by /repo's loops
pub trait VfSeq { type E; spec fn sv(&self) -> Seq<Self::E>; fn vf_slice(&self) -> (r: &[Self::E]) ensures r@ == self.sv(); }
impl<T> VfSeq for Vec<T> {
    type E = T;
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_slice(&self) -> (r: &[T]) { &self[..] }
}
impl<'a, T> VfSeq for &'a Vec<T> {
    type E = T;
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_slice(&self) -> (r: &[T]) { &self[..] }
}
impl<'a, T> VfSeq for &'a [T] {
    type E = T;
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn vf_slice(&self) -> (r: &[T]) { self }
}
// no allocation is larger than isize::MAX bytes; no element type in /repo is zero-sized
#[verifier::external_body]
pub fn vf_seq<S: VfSeq>(s: &S) -> (r: &[S::E]) ensures r@ == s.sv(), r@.len() <= isize::MAX { s.vf_slice() }
#[verifier::external_body]
pub fn vf_part<T>(s: &[T]) -> (r: &[T]) ensures r@ == s@, r@.len() <= isize::MAX { s }

// ---------------------------------------------------------------- strings are byte sequences
#[verifier::external_body]
pub fn vf_str(b: &[u8]) -> (r: &[u8]) ensures r@ == b@, r@.len() <= isize::MAX { b }
/// well-formed UTF-8
pub uninterp spec fn utf8_ok(b: Seq<u8>) -> bool;
// from_utf8_unchecked
#[verifier::external_body]
pub fn vf_utf8(b: &[u8]) -> (r: &[u8]) requires utf8_ok(b@) ensures r@ == b@, r@.len() <= isize::MAX { b }
// String::from_utf8_lossy
#[verifier::external_body]
pub fn vf_lossy(b: &[u8]) -> (r: String) { String::from_utf8_lossy(b).to_string() }
#[verifier::external_body]
pub fn vf_fmt() -> (r: String) { String::new() }
#[derive(Debug)]
pub struct VfFmtErr;
#[verifier::external_body]
pub fn vf_writeln(w: &mut String) -> (r: Result<(), VfFmtErr>) ensures r is Ok { Ok(()) }

pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut std::option::Option<T>, t: T) -> (r: std::option::Option<T>)
    ensures r == *old(o), *final(o) == Some(t);

// moving element `i` out of a consumed vector
#[verifier::external_body]
pub fn vf_take<T>(v: &[T], i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }

// ---------------------------------------------------------------- once_cell::unsync::OnceCell
// `ok` is the predicate every stored value satisfies (chosen when the cell is created); a cell is written at most
// once: `fin` is the value it holds once written and `filled` says that it has been written.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VfCell<T> { x: core::cell::OnceCell<T> }
impl<T> VfCell<T> {
    pub uninterp spec fn ok(&self, v: T) -> bool;
    pub uninterp spec fn fin(&self) -> T;
    pub uninterp spec fn filled(&self) -> bool;
    /// written by the user of the library only: never given a default value
    pub uninterp spec fn strict(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: VfCell<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_new(p: Ghost<spec_fn(T) -> bool>) -> (r: VfCell<T>)
        ensures !r.strict(), forall|v: T| #![trigger r.ok(v)] r.ok(v) == p@(v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_user(p: Ghost<spec_fn(T) -> bool>) -> (r: VfCell<T>)
        ensures r.strict(), forall|v: T| #![trigger r.ok(v)] r.ok(v) == p@(v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: Option<&T>)
        ensures match r { Some(v) => *v == self.fin() && self.ok(*v) && (self.strict() ==> self.filled()), None => !self.filled() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> (r: &T)
        requires self.strict() ==> self.filled(), !self.filled() ==> f.requires(()) && forall|v: T| #[trigger] f.ensures((), v) ==> self.ok(v),
        ensures self.ok(*r), *r == self.fin()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: T) -> (r: Result<(), T>)
        requires self.ok(v)
        ensures match r { Ok(_) => v == self.fin() && self.ok(v) && (self.strict() ==> self.filled()), Err(w) => w == v }
    { unimplemented!() }
    #[verifier::external_body]
    pub proof fn vf_holds(&self) ensures self.filled() ==> self.ok(self.fin()) {}
}

// Result::expect / unwrap where the grammar validation excludes the error (C16, checked with a bound): panics otherwise
pub trait VfExpect<T>: Sized { spec fn holds(self, v: T) -> bool; fn vf_expect(self) -> (r: T) ensures self.holds(r); }
impl<T, E> VfExpect<T> for Result<T, E> {
    open spec fn holds(self, v: T) -> bool { self is Ok && v == self->Ok_0 }
    #[verifier::external_body]
    fn vf_expect(self) -> (r: T) { unimplemented!() }
}

// the borrowed form of a key: &K, or &str for &str keys
pub trait VfKey<K>: Sized { spec fn key(self) -> K; }
impl<'a, K> VfKey<K> for &'a K { open spec fn key(self) -> K { *self } }
impl<'a, 'b> VfKey<&'b str> for &'a str { open spec fn key(self) -> &'b str { self } }
// ---------------------------------------------------------------- std::collections (lawful Eq/Hash assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VfMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K, V> VfMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: VfMap<K, V>) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.map().dom() == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VfKey<K>>(&self, k: Q) -> (r: bool) ensures r == self.map().contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k, v),
            r == (if old(self).map().contains_key(k) { Some(old(self).map()[k]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_clone(&self) -> (r: VfMap<K, V>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_get_mut(&mut self, k: &K) -> (r: &mut V)
        requires old(self).map().contains_key(*k),
        ensures *r == old(self).map()[*k], final(self).map() == old(self).map().insert(*k, *final(r))
    { unimplemented!() }
    // entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vf_entry(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self).map().contains_key(k) { old(self).map()[k] } else { v }), final(self).map() == old(self).map().insert(k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_keys(&self) -> (r: Vec<K>)
        ensures r@.no_duplicates(), forall|k: K| #[trigger] self.map().contains_key(k) <==> r@.contains(k),
    { unimplemented!() }
    /// entries in the order in which iteration visits them
    pub uninterp spec fn items(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub proof fn vf_items(&self)
        ensures
            forall|i: int| 0 <= i < self.items().len() ==> self.map().contains_key((#[trigger] self.items()[i]).0) && self.map()[self.items()[i].0] == self.items()[i].1,
            forall|i: int, j: int| 0 <= i < j < self.items().len() ==> (#[trigger] self.items()[i]).0 != (#[trigger] self.items()[j]).0,
            forall|k: K| #[trigger] self.map().contains_key(k) ==> exists|i: int| 0 <= i < self.items().len() && (#[trigger] self.items()[i]).0 == k,
    {}
}
// HashMap<Vec<u8>, V> looked up with byte slices
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VfBMap<V> { x: std::collections::HashMap<Vec<u8>, V> }
impl<V> VfBMap<V> {
    pub uninterp spec fn map(&self) -> Map<Bytes, V>;
    #[verifier::external_body]
    pub fn new() -> (r: VfBMap<V>) ensures r.map() == Map::<Bytes, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &[u8]) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().contains_key(k@) && *v == self.map()[k@], None => !self.map().contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k@, v),
            r == (if old(self).map().contains_key(k@) { Some(old(self).map()[k@]) } else { None::<V> }),
    { unimplemented!() }
}
impl<K, V> VfSeq for VfMap<K, V> {
    type E = (K, V);
    open spec fn sv(&self) -> Seq<(K, V)> { self.items() }
    #[verifier::external_body]
    fn vf_slice(&self) -> (r: &[(K, V)]) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VfSet<K> { x: std::collections::HashSet<K> }
impl<K> VfSet<K> {
    pub uninterp spec fn set(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: VfSet<K>) ensures r.set() == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VfKey<K>>(&self, k: Q) -> (r: bool) ensures r == self.set().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self).set() == old(self).set().insert(k), r == !old(self).set().contains(k),
    { unimplemented!() }
}
impl<K> VfSet<K> {
    /// elements in the order in which iteration visits them
    pub uninterp spec fn items(&self) -> Seq<K>;
    #[verifier::external_body]
    pub proof fn vf_items(&self) ensures self.items().no_duplicates(), forall|k: K| #[trigger] self.set().contains(k) <==> self.items().contains(k) {}
}
impl<K> VfSeq for VfSet<K> {
    type E = K;
    open spec fn sv(&self) -> Seq<K> { self.items() }
    #[verifier::external_body]
    fn vf_slice(&self) -> (r: &[K]) { unimplemented!() }
}
// HashSet::extend, one element at a time
#[verifier::external_body]
pub fn vf_extend_one<K>(s: &mut VfSet<K>, k: &K) ensures final(s).set() == old(s).set().insert(*k) { unimplemented!() }
#[verifier::external_body]
pub fn vf_nobytes<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { &[] }
// slice::starts_with, str::starts_with
#[verifier::external_body]
pub fn vf_starts_with(s: &[u8], w: &[u8]) -> (r: bool) ensures r == (w@.len() <= s@.len() && s@.subrange(0, w@.len() as int) == w@) { unimplemented!() }
#[verifier::external_body]
pub fn vf_bytes_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
// str::as_bytes / str::to_string on text held as bytes
pub trait VfText { type O; fn vf_as_bytes(&self) -> (r: &[u8]); fn vf_to_string(&self) -> (r: Self::O); }
impl VfText for str {
    type O = String;
    #[verifier::external_body]
    fn vf_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vf_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VfText for [u8] {
    type O = Vec<u8>;
    #[verifier::external_body]
    fn vf_as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn vf_to_string(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}

// ---------------------------------------------------------------- regex::bytes::Regex
// Assumption on the grammar: expressions are anchored, so a match found in the text starts at its beginning.
#[verifier::external_body]
pub struct VfRegex { x: usize }
#[verifier::external_body]
pub struct VfMatch { x: usize }
#[verifier::external_body]
pub struct VfRxErr { x: usize }
impl VfMatch {
    pub uninterp spec fn e(&self) -> int;
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.e() { unimplemented!() }
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == 0 { unimplemented!() }
}
pub uninterp spec fn rx_raw(r: VfRegex, s: Bytes) -> Option<int>;
impl VfRegex {
    /// length of the match at the beginning of the text
    pub open spec fn rx(&self, s: Bytes) -> Option<int> {
        match rx_raw(*self, s) { Some(n) => if 0 <= n <= s.len() { Some(n) } else { None }, None => None }
    }
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<VfRegex, VfRxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, s: &[u8]) -> (r: Option<VfMatch>)
        ensures match r { Some(m) => self.rx(s@) == Some(m.e()) && 0 <= m.e() <= s@.len() <= isize::MAX, None => self.rx(s@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &[u8]) -> (r: bool) ensures r == self.rx(s@) is Some { unimplemented!() }
}
