use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
verus! {
//%include shim_core.vrs
//%include shim_iter.vrs
//%type shard.rs Shard derive(Clone, Copy)
/// str::parse::<usize>
pub uninterp spec fn s_usize(s: Seq<char>) -> Option<usize>;
pub enum PErr { E }
pub trait VParse { spec fn chars(&self) -> Seq<char>; fn v_parse(&self) -> (r: core::result::Result<usize, PErr>) ensures r is Ok <==> s_usize(self.chars()) is Some, r matches Ok(v) ==> s_usize(self.chars()) == Some(v); }
impl VParse for str { open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_parse(&self) -> (r: core::result::Result<usize, PErr>) { unimplemented!() } }
pub trait VResS<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T> VResS<T> for core::result::Result<T, PErr> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
impl<T> VResS<T> for Option<T> { open spec fn val(self) -> Option<T> { self }
    fn v_ctx(self) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(v_err()) } } }
/// where the first c is
pub open spec fn first_at(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != c }
pub open spec fn s_split(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> { if s.contains(c) { let i = choose|i: int| first_at(s, c, i); Some((s.take(i), s.skip(i + 1))) } else { None } }
/// str::split_once: at the first occurrence
pub trait VSplit { spec fn chars2(&self) -> Seq<char>; fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
    ensures r is Some <==> s_split(self.chars2(), c) is Some, r matches Some(p) ==> s_split(self.chars2(), c) == Some((p.0@, p.1@)); }
impl VSplit for str { open spec fn chars2(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() } }
//%methods parse=v_parse split_once=v_split_once
// ---- what a shard selects ----
/// the items of s at positions i with i % n == k, in order
pub open spec fn shard_of<T>(s: Seq<T>, k: int, n: int) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if (s.len() - 1) % n == k { shard_of(s.drop_last(), k, n).push(s.last()) } else { shard_of(s.drop_last(), k, n) } }
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub proof fn lemma_somes<T>(s: Seq<T>, q: Seq<Option<T>>, k: int, n: int)
    requires n > 0, q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]) == (if i % n == k { Some(s[i]) } else { None::<T> }),
    ensures somes(q) == shard_of(s, k, n),
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] q.drop_last()[i]) == (if i % n == k { Some(s.drop_last()[i]) } else { None::<T> }) by { assert(q[i] == q.drop_last()[i]); }
        lemma_somes(s.drop_last(), q.drop_last(), k, n);
        assert(q.last() == q[s.len() - 1]);
    }
}
pub proof fn lemma_all_somes<T>(s: Seq<T>, k: int, n: int)
    requires n > 0
    ensures forall|q: Seq<Option<T>>| q.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]) == (if i % n == k { Some(s[i]) } else { None::<T> })) ==> #[trigger] somes(q) == shard_of(s, k, n),
{
    assert forall|q: Seq<Option<T>>| q.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]) == (if i % n == k { Some(s[i]) } else { None::<T> })) implies #[trigger] somes(q) == shard_of(s, k, n) by { lemma_somes(s, q, k, n); }
}
//%fn shard.rs Shard::select
//%gen <M, I: VIntoIter<M>>
//%spec
    requires self.n > 0, self.k < self.n,
    ensures r@ == shard_of(mutants.items(), self.k as int, self.n as int),
//%entry
    proof { lemma_all_somes(mutants.items(), self.k as int, self.n as int); }
//%closure 0
    |$0: (usize, M)| -> (o: Option<M>) requires self.n > 0, ensures o == (if $0.0 as int % self.n as int == self.k as int { Some($0.1) } else { None::<M> })
//%end
/// k/n with k < n
pub open spec fn shard_arg(s: Seq<char>) -> Option<(usize, usize)> {
    match s_split(s, '/') { Some(p) => match (s_usize(p.0), s_usize(p.1)) { (Some(k), Some(n)) => if k < n { Some((k, n)) } else { None }, _ => None }, None => None }
}
//%fn shard.rs <Shard as FromStr>::from_str
//%rettype Result<Shard>
//%ghost none
//%free
//%as shard_from_str
//%spec
    ensures r is Ok <==> shard_arg(s@) is Some, r matches Ok(sh) ==> shard_arg(s@) == Some((sh.k, sh.n)) && sh.k < sh.n,
//%end
// ---- C09 as lemmas over that contract ----
/// every item is in exactly the shard given by its position
pub proof fn shards_partition<T>(s: Seq<T>, n: int)
    requires n > 0
    ensures forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] (i % n) < n,
        union_of(s, n, n) == s.to_multiset(),
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] (i % n) < n by { lemma_mod_bound(i, n); }
    lemma_union(s, n);
}
/// the first m shards put together
pub open spec fn union_of<T>(s: Seq<T>, n: int, m: int) -> vstd::multiset::Multiset<T>
    decreases m
{ if m <= 0 { vstd::multiset::Multiset::empty() } else { union_of(s, n, m - 1).add(shard_of(s, m - 1, n).to_multiset()) } }
pub proof fn lemma_union_step<T>(s: Seq<T>, n: int, m: int)
    requires n > 0, s.len() > 0, 0 <= m <= n,
    ensures union_of(s, n, m) =~= (if (s.len() - 1) % n < m { union_of(s.drop_last(), n, m).insert(s.last()) } else { union_of(s.drop_last(), n, m) }),
    decreases m
{
    lemma_mod_bound(s.len() - 1, n);
    if m > 0 {
        lemma_union_step(s, n, m - 1);
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(shard_of(s, m - 1, n).to_multiset() =~= (if (s.len() - 1) % n == m - 1 { shard_of(s.drop_last(), m - 1, n).to_multiset().insert(s.last()) } else { shard_of(s.drop_last(), m - 1, n).to_multiset() }));
    }
}
pub proof fn lemma_empty_union<T>(n: int, m: int)
    requires n > 0, 0 <= m <= n
    ensures union_of(Seq::<T>::empty(), n, m) =~= vstd::multiset::Multiset::<T>::empty()
    decreases m
{ if m > 0 { lemma_empty_union::<T>(n, m - 1); broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(shard_of(Seq::<T>::empty(), m - 1, n).to_multiset() =~= vstd::multiset::Multiset::<T>::empty()); } }
pub proof fn lemma_union<T>(s: Seq<T>, n: int)
    requires n > 0
    ensures union_of(s, n, n) =~= s.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 { assert(s =~= Seq::empty()); lemma_empty_union::<T>(n, n); }
    else {
        lemma_union(s.drop_last(), n); lemma_union_step(s, n, n); lemma_mod_bound(s.len() - 1, n);
        assert(s =~= s.drop_last().push(s.last()));
    }
}
/// shard sizes differ by at most one
pub proof fn lemma_len<T>(s: Seq<T>, k: int, n: int)
    requires 0 <= k < n
    ensures shard_of(s, k, n).len() == s.len() / (n as nat) + (if k < s.len() % (n as nat) { 1int } else { 0 }),
    decreases s.len()
{
    if s.len() == 0 { assert(0int / n == 0 && 0int % n == 0) by (nonlinear_arith) requires n > 0; }
    else {
        lemma_len(s.drop_last(), k, n);
        let l = s.len() - 1;
        lemma_mod_bound(l, n);
        lemma_fundamental_div_mod(l, n);
        if l % n == n - 1 {
            assert(l + 1 == (l / n + 1) * n + 0) by (nonlinear_arith) requires l == n * (l / n) + l % n, l % n == n - 1;
            lemma_fundamental_div_mod_converse(l + 1, n, l / n + 1, 0);
        } else {
            assert(l + 1 == (l / n) * n + (l % n + 1)) by (nonlinear_arith) requires l == n * (l / n) + l % n;
            lemma_fundamental_div_mod_converse(l + 1, n, l / n, l % n + 1);
        }
    }
}
pub proof fn shard_sizes<T>(s: Seq<T>, a: int, b: int, n: int)
    requires 0 <= a < n, 0 <= b < n
    ensures shard_of(s, a, n).len() - shard_of(s, b, n).len() <= 1
{ lemma_len(s, a, n); lemma_len(s, b, n); }
} // verus!
fn main() {}
