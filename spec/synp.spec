#opts {"ren": {"into": "tr_into", "from": "tr_from", "extend": "tr_extend", "from_iter": "tr_from_iter", "get": "vx_get1", "get_mut": "vx_get1_mut", "iter": "vx_slice_iter", "as_deref": "vx_as_deref", "as_deref_mut": "vx_as_deref_mut", "iter_mut": "vx_slice_iter_mut"}}
#spec SynP
// ---------------------------------------------------------------- std, beyond vstd (assumed)
pub trait VecGet<T>: Sized {
    spec fn seq_of(self) -> Seq<T>;
    fn vx_get1(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.seq_of().len() && *x == self.seq_of()[i as int], None => i >= self.seq_of().len() };
    fn vx_get1_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r { Some(x) => i < old(self).seq_of().len() && *x == old(self).seq_of()[i as int] && final(self).seq_of() == old(self).seq_of().update(i as int, *final(x)), None => i >= old(self).seq_of().len() && *final(self) == *old(self) };
}
impl<T> VecGet<T> for Vec<T> {
    open spec fn seq_of(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_get1(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_get1_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}
pub trait OptDeref<T>: Sized {
    spec fn boxed_of(self) -> Option<Box<T>>;
    fn vx_as_deref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.boxed_of() is Some && *x == *(self.boxed_of()->0), None => self.boxed_of() is None };
    fn vx_as_deref_mut(&mut self) -> (r: Option<&mut T>) ensures match r { Some(x) => old(self).boxed_of() is Some && *x == *(old(self).boxed_of()->0) && final(self).boxed_of() is Some && *(final(self).boxed_of()->0) == *final(x), None => *final(self) == *old(self) && old(self).boxed_of() is None };
}
impl<T> OptDeref<T> for Option<Box<T>> {
    open spec fn boxed_of(self) -> Option<Box<T>> { self }
    fn vx_as_deref(&self) -> (r: Option<&T>) { match self { Some(b) => Some(&**b), None => None } }
    fn vx_as_deref_mut(&mut self) -> (r: Option<&mut T>) { match self { Some(b) => Some(&mut **b), None => None } }
}
impl<T> Iterator for OptIntoIter<T> {
    type Item = T;
    open spec fn rest(self) -> Seq<T> { opt_seq(self.rest) }
    fn next(&mut self) -> (r: Option<T>) { let r = self.rest.take(); r }
}
impl<I: Iterator> IntoIterator for I { type Item = I::Item; type IntoIter = I; open spec fn items(self) -> Seq<I::Item> { self.rest() } fn vx_iter(self) -> (r: I) { self } }
// ---------------------------------------------------------------- building from items and pairs
pub broadcast proof fn appended_none<T, P: Default>(a: Pun<T, P>) ensures #[trigger] appended(a, Seq::<T>::empty(), a) {
    assert(a.vals =~= a.vals + Seq::<T>::empty()); assert(a.puncts.subrange(0, a.puncts.len() as int) =~= a.puncts);
}
pub broadcast proof fn appended_step<T, P: Default>(a: Pun<T, P>, s: Seq<T>, k: nat, b: Pun<T, P>, c: Pun<T, P>)
    requires #[trigger] appended(a, s.take(k as int), b), #[trigger] appended(b, seq![s[k as int]], c), k < s.len(), pun_ok(a)
    ensures appended(a, s.take(k as int + 1), c)
{
    assert(a.vals + s.take(k as int + 1) =~= (a.vals + s.take(k as int)) + seq![s[k as int]]);
    assert(c.puncts.subrange(0, a.puncts.len() as int) =~= a.puncts) by {
        assert forall|i: int| 0 <= i < a.puncts.len() implies c.puncts[i] == a.puncts[i] by { assert(c.puncts.subrange(0, b.puncts.len() as int)[i] == b.puncts[i]); assert(b.puncts.subrange(0, a.puncts.len() as int)[i] == a.puncts[i]); }
    }
    assert forall|i: int| a.puncts.len() <= i < c.puncts.len() implies P::is_default(#[trigger] c.puncts[i]) by { if i < b.puncts.len() { assert(c.puncts.subrange(0, b.puncts.len() as int)[i] == b.puncts[i]); } }
}
/// the pairs up to k have been added to o
#[verifier::opaque]
pub open spec fn added<T, P>(o: Pun<T, P>, s: Seq<Pair<T, P>>, k: nat, n: Pun<T, P>) -> bool { n.vals == o.vals + vals_of(s.take(k as int)) && n.puncts == o.puncts + puncts_of(s.take(k as int)) }
pub broadcast proof fn added_none<T, P>(o: Pun<T, P>, s: Seq<Pair<T, P>>) ensures #[trigger] added(o, s, 0, o) {
    reveal(added); assert(o.vals + vals_of(s.take(0)) =~= o.vals); assert(o.puncts + puncts_of(s.take(0)) =~= o.puncts);
}
pub broadcast proof fn added_step<T, P>(o: Pun<T, P>, s: Seq<Pair<T, P>>, k: nat, n: Pun<T, P>, m: Pun<T, P>)
    requires #[trigger] added(o, s, k, n), k < s.len(), pairs_ok(s), m.vals == n.vals.push(pair_val(s[k as int])), m.puncts == (match s[k as int] { Pair::End(_) => n.puncts, Pair::Punctuated(_, p) => n.puncts.push(p) })
    ensures #[trigger] added(o, s, k + 1, m)
{
    reveal(added);
    let a = s.take(k as int); let b = s.take(k as int + 1);
    assert(b =~= a.push(s[k as int]));
    if k > 0 { assert(s[k - 1] is Punctuated); }
    assert(o.vals + vals_of(b) =~= (o.vals + vals_of(a)).push(pair_val(s[k as int])));
    match s[k as int] { Pair::End(_) => { assert(puncts_of(b) =~= puncts_of(a)); }, Pair::Punctuated(_, p) => { assert(puncts_of(b) =~= puncts_of(a).push(p)); assert(o.puncts + puncts_of(b) =~= (o.puncts + puncts_of(a)).push(p)); } }
}
pub broadcast proof fn added_all<T, P>(o: Pun<T, P>, s: Seq<Pair<T, P>>, n: Pun<T, P>)
    ensures #[trigger] added(o, s, s.len(), n) ==> n.vals == o.vals + vals_of(s) && n.puncts == o.puncts + puncts_of(s), added(pun_none::<T, P>(), s, s.len(), n) ==> n == (Pun { vals: vals_of(s), puncts: puncts_of(s) })
{ reveal(added); assert(s.take(s.len() as int) =~= s); assert(Seq::<T>::empty() + vals_of(s) =~= vals_of(s)); assert(Seq::<P>::empty() + puncts_of(s) =~= puncts_of(s)); }
/// where an iterator over s stands
pub broadcast proof fn stand<A>(s: Seq<A>, k: int) requires 0 <= k <= s.len()
    ensures #![trigger s.skip(k)] k < s.len() ==> s.skip(k).drop_first() == s.skip(k + 1) && s.skip(k)[0] == s[k], s.skip(0) == s
{ if k < s.len() { assert(s.skip(k).drop_first() =~= s.skip(k + 1)); } assert(s.skip(0) =~= s); }
pub broadcast proof fn took<A>(s: Seq<A>) ensures #![trigger s.take(0)] s.take(0) == Seq::<A>::empty() { assert(s.take(0) =~= Seq::<A>::empty()); }
pub broadcast proof fn took_all<A>(s: Seq<A>, k: int) requires k == s.len() ensures #[trigger] s.take(k) == s { assert(s.take(k) =~= s); }
pub broadcast group iter_all { appended_none, appended_step, added_none, added_step, added_all, stand, took, took_all }
//@each NAME in new;push_value;push_punct;push;insert;len;is_empty;empty_or_trailing;trailing_punct;get;get_mut;pop;pop_punct;clear;into_pairs
#fn Punctuated::NAME
from: impl<T, P> SynPunctuated<T, P>
prologue:
    broadcast use reps_all, punct_ok;
//@end
#fn Iterator for IntoPairs::next
extra:
    open spec fn rest(self) -> Seq<Pair<T, P>> { paired(self.inner.rest()) + ended(opt_seq(self.last.rest)) }
prologue:
    broadcast use reps_all, pairs_next;
#fn Default for Punctuated::default
from: impl<T, P> Default for SynPunctuated<T, P>
#fn FromIterator<T> for Punctuated::from_iter
from: impl<T, P: Default> FromIterator<T> for SynPunctuated<T, P>
#fn FromIterator<Pair<T,P>> for Punctuated::from_iter
from: impl<T, P> FromIterator<Pair<T, P>> for SynPunctuated<T, P>
prologue:
    broadcast use reps_all, iter_all;
#fn Extend<T> for Punctuated::extend
from: impl<T, P: Default> Extend<T> for SynPunctuated<T, P>
prologue:
    broadcast use punct_ok, appended_none, appended_step, stand, took, took_all;
loop 0:
    invariant
        {it}.rest().len() <= {1}.items().len(), {it}.rest() == {1}.items().skip({1}.items().len() - {it}.rest().len()),
        appended(old(self)@, {1}.items().take({1}.items().len() - {it}.rest().len()), self@),
    ensures {it}.rest().len() == 0
    decreases {it}.rest().len()
#fn Extend<Pair<T,P>> for Punctuated::extend
from: impl<T, P: Default> Extend<Pair<T, P>> for SynPunctuated<T, P>
prologue:
    broadcast use punct_ok;
#fn punctuated::do_extend
contract:
    requires pun_full(old({0})@), pairs_ok({1}.rest())
    ensures final({0})@.vals == old({0})@.vals + vals_of({1}.rest()), final({0})@.puncts == old({0})@.puncts + puncts_of({1}.rest())
prologue:
    broadcast use reps_all, punct_ok, added_none, added_step, added_all, stand, took, took_all;
loop 0:
    invariant
        pairs_ok({1}.rest()),
        {it}.rest().len() <= {1}.rest().len(), {it}.rest() == {1}.rest().skip({1}.rest().len() - {it}.rest().len()),
        added(old({0})@, {1}.rest(), ({1}.rest().len() - {it}.rest().len()) as nat, {0}@),
        {nomore} ==> {it}.rest().len() == 0, !{nomore} ==> pun_full({0}@),
    ensures {it}.rest().len() == 0
    decreases {it}.rest().len()
#fn IntoIterator for Punctuated::into_iter
name: vx_iter
from: impl<T, P> IntoIterator for SynPunctuated<T, P>
prologue:
    broadcast use reps_all, stand, took, took_all;
loop 0:
    invariant
        {it}.rest().len() <= self.inner@.len(), {it}.rest() == self.inner@.skip(self.inner@.len() - {it}.rest().len()),
        {elements}@ == firsts(self.inner@.take(self.inner@.len() - {it}.rest().len())),
    ensures {it}.rest().len() == 0
    decreases {it}.rest().len()
#fn Iterator for IntoIter::next
extra:
    open spec fn rest(self) -> Seq<T> { self.inner.rest() }
