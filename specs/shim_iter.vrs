// ---- iterators: a finite sequence of items; adapters with their documented meaning (assumed contracts) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { _p: core::marker::PhantomData<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// the items of s whose flag in k is set, in order
pub open spec fn select<T>(s: Seq<T>, k: Seq<bool>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 || k.len() == 0 { Seq::empty() } else if k.last() { select(s.drop_last(), k.drop_last()).push(s.last()) } else { select(s.drop_last(), k.drop_last()) } }
/// the values of the Some items, in order
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } } }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r@[i]) == (i as usize, self@[i]) && i <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|q: Seq<Option<U>>| q.len() == self@.len() && (forall|i: int| #![trigger self@[i]] #![trigger q[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), q[i])) && r@ == #[trigger] somes(q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_any<F: Fn(T) -> bool>(self, f: F) -> (b: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures b ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
            !b ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_all<F: Fn(T) -> bool>(self, f: F) -> (b: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !b ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
            b ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && call_ensures(f, (&self@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self@[j],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), false) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), r@[i]),
            forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures exists|k: Seq<bool>| k.len() == self@.len() && (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), k[i])) && r@ == #[trigger] select(self@, k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_chain<O: VIntoIter<T>>(self, o: O) -> (r: VIter<T>) ensures r@ == self@ + o.items() { unimplemented!() }
}
/// derived Clone: an equal value
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for String { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VClone> VClone for Option<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VClone> VClone for Vec<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
impl<'a, T: VClone> VIter<&'a T> {
    #[verifier::external_body]
    pub fn v_cloned(self) -> (r: VIter<T>) ensures r@ == derefs(self@) { unimplemented!() }
}
pub trait VIntoIter<T> { spec fn items(&self) -> Seq<T>; fn v_into_iter(self) -> (r: VIter<T>) where Self: Sized ensures r@ == self.items(); }
impl<T> VIntoIter<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> VIntoIter<&'a T> for &'a Vec<T> { open spec fn items(&self) -> Seq<&'a T> { refs((*self)@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VIntoIter<&'a T> for &'a [T] { open spec fn items(&self) -> Seq<&'a T> { refs((*self)@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<T> VIntoIter<T> for VIter<T> { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VSliceIter<T> { spec fn sitems(&self) -> Seq<T>; fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r@.len() == self.sitems().len(), forall|i: int| 0 <= i < self.sitems().len() ==> *r@[i] == #[trigger] self.sitems()[i], forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.sitems()[i]; }
impl<T> VSliceIter<T> for Vec<T> { open spec fn sitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<T> VSliceIter<T> for [T] { open spec fn sitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() } }
// a for-loop over a finite sequence, written as a loop
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VFor<T> { _p: core::marker::PhantomData<T> }
impl<T> VFor<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn v_next(&mut self) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(),
            match r { Some(x) => old(self).pos() < old(self).all().len() && x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1, None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos() },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_for<T, I: VIntoIter<T>>(i: I) -> (r: VFor<T>) ensures r.all() == i.items(), r.pos() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn v_incl(a: usize, b: usize) -> (r: VFor<usize>) ensures r.all() == Seq::new(if a <= b { (b - a + 1) as nat } else { 0 }, |i: int| (a + i) as usize), r.pos() == 0 { unimplemented!() }
pub trait VRetain<T> { spec fn all(&self) -> Seq<T>;
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).all().len() ==> call_requires(f, (&#[trigger] old(self).all()[i],)),
        ensures exists|k: Seq<bool>| k.len() == old(self).all().len() && (forall|i: int| 0 <= i < old(self).all().len() ==> call_ensures(f, (&#[trigger] old(self).all()[i],), k[i])) && final(self).all() == #[trigger] select(old(self).all(), k);
}
impl<T> VRetain<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() } }
//%methods retain=v_retain
// Option combinators (assumed: their documented meaning)
pub trait VOptX<T>: Sized { spec fn oo_opt(self) -> Option<T>;
    fn v_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.oo_opt() matches Some(x) ==> call_requires(f, (x,)),
        ensures match self.oo_opt() { Some(x) => call_ensures(f, (x,), r), None => r == d };
    fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.oo_opt() matches Some(x) ==> call_requires(f, (x,)),
        ensures match self.oo_opt() { Some(x) => call_ensures(f, (x,), r), None => !r };
    fn v_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.oo_opt() matches Some(x) ==> call_requires(f, (x,)),
        ensures match self.oo_opt() { Some(x) => call_ensures(f, (x,), r), None => r };
}
impl<T> VOptX<T> for Option<T> { open spec fn oo_opt(self) -> Option<T> { self }
    fn v_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(x) => f(x), None => d } }
    fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => false } }
    fn v_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => true } }
}
//%methods map_or=v_map_or is_some_and=v_is_some_and is_none_or=v_is_none_or
//%methods enumerate=v_enumerate filter_map=v_filter_map any=v_any all=v_all find=v_find map=v_map filter=v_filter collect=v_collect collect_vec=v_collect count=v_count chain=v_chain cloned=v_cloned into_iter=v_into_iter iter=v_iter
// ---- end of iterators ----
