#opts {"ren": {"iter": "vx_slice_iter"}, "paths": {"Box::as_ref": "vx_box_ref"}, "lift": ["do_append_all"]}
#spec SynG
pub broadcast proof fn punct_ok<T, P>(a: SynPunctuated<T, P>) ensures pun_ok(#[trigger] a@) {}
pub type VecIntoIter<T> = VecIter<T>;
impl<T, P> IntoPairs<T, P> { pub open spec fn view(&self) -> Seq<Pair<T, P>> { paired(self.inner@) + ended(opt_seq(self.last.rest)) } }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
pub trait Iterator: Sized {
    type Item;
    spec fn rest(self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() };
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(self) -> Seq<Self::Item>;
    fn vx_iter(self) -> (r: Self::IntoIter) ensures r.rest() == self.items();
}
impl<I: Iterator> IntoIterator for I { type Item = I::Item; type IntoIter = I; open spec fn items(self) -> Seq<I::Item> { self.rest() } fn vx_iter(self) -> (r: I) { self } }
impl<T> Iterator for VecIter<T> { type Item = T; open spec fn rest(self) -> Seq<T> { self@ } #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = VecIter<T>; open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(self) -> (r: VecIter<T>) { unimplemented!() } }
pub fn vx_box_ref<T>(b: &Box<T>) -> (r: &T) ensures *r == **b { &**b }
pub struct OptIntoIter<T> { pub rest: Option<T> }
impl<T> Iterator for OptIntoIter<T> {
    type Item = T;
    open spec fn rest(self) -> Seq<T> { opt_seq(self.rest) }
    fn next(&mut self) -> (r: Option<T>) { let r = self.rest.take(); r }
}
impl<T> VxIntoIter for Option<T> { type It = OptIntoIter<T>; open spec fn it_ok(self, it: OptIntoIter<T>) -> bool { it.rest == self } fn vx_into(self) -> (r: OptIntoIter<T>) { OptIntoIter { rest: self } } }
impl<I: IntoIterator> VxIntoIter for I { type It = I::IntoIter; open spec fn it_ok(self, it: I::IntoIter) -> bool { it.rest() == self.items() } fn vx_into(self) -> (r: I::IntoIter) { self.vx_iter() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SliceIter<'a, T> { _x: &'a Vec<T> }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    uninterp spec fn rest(self) -> Seq<&'a T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>) { unimplemented!() }
}
pub trait VecMore<T> {
    spec fn all(self) -> Seq<T>;
    fn vx_slice_iter(&self) -> (r: SliceIter<'_, T>) ensures r.rest() == refs(self.all());
}
impl<T> VecMore<T> for Vec<T> {
    open spec fn all(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_slice_iter(&self) -> (r: SliceIter<'_, T>) { unimplemented!() }
}
pub open spec fn paired_refs<'a, T, P>(s: Seq<&'a (T, P)>) -> Seq<Pair<&'a T, &'a P>> { Seq::new(s.len(), |i: int| Pair::Punctuated(&s[i].0, &s[i].1)) }
pub broadcast proof fn refs_rep<'a, T, P>(a: SynPunctuated<T, P>)
    ensures #[trigger] pair_refs(a@) == paired_refs(refs(a.inner@)) + ended::<&T, &P>(refs(boxed(a.last)))
{ assert(pair_refs(a@) =~= paired_refs(refs(a.inner@)) + ended::<&T, &P>(refs(boxed(a.last)))); }
pub broadcast proof fn refs_next<'a, T, P>(s: Seq<&'a (T, P)>, t: Seq<Pair<&'a T, &'a P>>)
    ensures s.len() > 0 ==> (#[trigger] (paired_refs(s) + t)).drop_first() == paired_refs(s.drop_first()) + t && (paired_refs(s) + t)[0] == Pair::Punctuated(&s[0].0, &s[0].1), s.len() == 0 ==> paired_refs(s) + t == t
{ if s.len() > 0 { assert((paired_refs(s) + t).drop_first() =~= paired_refs(s.drop_first()) + t); } else { assert(paired_refs(s) + t =~= t); } }
pub broadcast proof fn cat_first<T: Print>(s: Seq<T>, k: int) requires 0 <= k < s.len()
    ensures #[trigger] cat(s.take(k + 1)) == cat(s.take(k)) + s[k].toks()
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
//@each NAME in new;push_value;push_punct;len;into_pairs;pairs
#fn Punctuated::NAME
from: impl<T, P> SynPunctuated<T, P>
prologue:
    broadcast use reps_all, punct_ok, refs_rep;
//@end
#fn Punctuated::empty_or_trailing
contract:
    ensures r == (self@.vals.len() == self@.puncts.len())
prologue:
    broadcast use reps_all;
#fn Iterator for IntoPairs::next
extra:
    open spec fn rest(self) -> Seq<Pair<T, P>> { self@ }
prologue:
    broadcast use reps_all, pairs_next;
#fn Iterator for Pairs::next
extra:
    open spec fn rest(self) -> Seq<Pair<&'a T, &'a P>> { paired_refs(self.inner.rest()) + ended(opt_seq(self.last.rest)) }
prologue:
    broadcast use reps_all, refs_next;
#fn Punctuated::parse_terminated
from: impl<T: Parse, P: Parse> SynPunctuated<T, P>
#fn Punctuated::parse_terminated_with
bound: T: Gram
contract:
    requires
        P::wf(), prog::<T>() || prog::<P>(), old({0})@.cur.ok(),
        forall|b: &mut ParseBuffer| (*b)@.cur.ok() ==> {1}.requires((b,)),
        forall|b: &mut ParseBuffer, x: Result<T>| #[trigger] {1}.ensures((b,), x) && (*b)@.cur.ok() ==> (*b)@.cur.to((*final(b))@.cur) && parsed(x, (*b)@, (*final(b))@, T::gram((*b)@.cur))
            //@if ERR
            && (x is Err ==> T::fails((*b)@.cur, x->Err_0@))
            //@end
            ,
    ensures old({0})@.cur.to(final({0})@.cur),
        match (r, pun_all::<T, P>(pun_none(), old({0})@.cur, false)) {
            (Ok(v), Some((w, n, l))) => v@ == w && final({0})@ == (St { cur: n, left: old({0})@.left || l }),
            (Err(_), None) => true,
            _ => false,
        },
        //@if ERR
        r is Err ==> pun_all_fails::<T, P>(old({0})@.cur, r->Err_0@),
        //@end
prologue:
    broadcast use rep_none;
    proof { assert(pun_none::<T, P>().vals =~= Seq::<T>::empty()); }
loop 0:
    invariant_except_break
        P::wf(), prog::<T>() || prog::<P>(), old({0})@.cur.to({0}@.cur), {punctuated}@.vals.len() == {punctuated}@.puncts.len(),
        forall|b: &mut ParseBuffer| (*b)@.cur.ok() ==> {1}.requires((b,)),
        forall|b: &mut ParseBuffer, x: Result<T>| #[trigger] {1}.ensures((b,), x) && (*b)@.cur.ok() ==> (*b)@.cur.to((*final(b))@.cur) && parsed(x, (*b)@, (*final(b))@, T::gram((*b)@.cur))
            //@if ERR
            && (x is Err ==> T::fails((*b)@.cur, x->Err_0@))
            //@end
            ,
        pun_inv::<T, P>(old({0})@, {punctuated}@, {0}@, false) || pun_inv::<T, P>(old({0})@, {punctuated}@, {0}@, true),
        //@if ERR
        forall|e: ErrV| #[trigger] pun_all_fails::<T, P>({0}@.cur, e) ==> pun_all_fails::<T, P>(old({0})@.cur, e),
        //@end
    ensures
        old({0})@.cur.to({0}@.cur),
        pun_done::<T, P>(old({0})@, {punctuated}@, {0}@, false) || pun_done::<T, P>(old({0})@, {punctuated}@, {0}@, true),
    decreases {0}@.cur.toks.len() - {0}@.cur.pos
//@if ERR
body 0:
    proof { fails_on::<T, P>({0}@.cur); }
//@end
#fn ToTokens for Punctuated::to_tokens
from: impl<T: ToTokens, P: ToTokens> ToTokens for SynPunctuated<T, P>
prologue:
    broadcast use cat_pairs;
#fn ToTokens for Pair::to_tokens
prologue:
    broadcast use cat_add;
#fn ToTokens for &T::to_tokens
from: impl<T: ToTokens> ToTokens for &T
drop: Sized
#fn ToTokens for Box::to_tokens
from: impl<T: ToTokens> ToTokens for Box<T>
drop: Sized
#fn TokenStreamExt for TokenStream::append_all
mode: inherent
from: impl TokenStream
#fn ext::do_append_all
contract:
    ensures final({0})@ == old({0})@ + cat({1}.rest())
prologue:
    broadcast use cat_none;
loop 0:
    invariant
        {it}.rest().len() <= {1}.rest().len(), {it}.rest() == {1}.rest().skip({1}.rest().len() - {it}.rest().len()),
        {0}@ == old({0})@ + cat({1}.rest().take({1}.rest().len() - {it}.rest().len())),
    ensures {it}.rest().len() == 0
    decreases {it}.rest().len()
body 0:
    broadcast use cat_add, cat_first, walk, walked, walked_all;
#spec SynGInv
pub broadcast proof fn walk<A>(s: Seq<A>, k: int) requires 0 <= k < s.len()
    ensures (#[trigger] s.skip(k).drop_first()) == s.skip(k + 1) && s.skip(k)[0] == s[k]
{ assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
pub broadcast proof fn walked<A>(s: Seq<A>) ensures #[trigger] s.take(0) == Seq::<A>::empty() && s.skip(0) == s { assert(s.take(0) =~= Seq::<A>::empty()); assert(s.skip(0) =~= s); }
pub broadcast proof fn walked_all<A>(s: Seq<A>, k: int) requires k == s.len() ensures #[trigger] s.take(k) == s { assert(s.take(k) =~= s); }
//@if ERR
pub proof fn fails_on<T: Gram, P: Gram>(c: Cur)
    ensures !at_end(c) ==> match T::gram(c) {
        None => forall|e: ErrV| #[trigger] T::fails(c, e) ==> pun_all_fails::<T, P>(c, e),
        Some((t, c1, l1)) => !at_end(c1) ==> match P::gram(c1) {
            None => forall|e: ErrV| #[trigger] P::fails(c1, e) ==> pun_all_fails::<T, P>(c, e),
            Some((p, c2, l2)) => c.to(c2) && c2.pos > c.pos ==> forall|e: ErrV| #[trigger] pun_all_fails::<T, P>(c2, e) ==> pun_all_fails::<T, P>(c, e),
        },
    }
{}
//@end
pub open spec fn pun_inv<T: Gram, P: Gram>(o: St, acc: Pun<T, P>, s: St, l: bool) -> bool {
    s.left == (o.left || l) && pun_all::<T, P>(pun_none(), o.cur, false) == pun_all::<T, P>(acc, s.cur, l)
}
pub open spec fn pun_done<T: Gram, P: Gram>(o: St, acc: Pun<T, P>, s: St, l: bool) -> bool {
    s.left == (o.left || l) && pun_all::<T, P>(pun_none(), o.cur, false) == Some((acc, s.cur, l))
}
