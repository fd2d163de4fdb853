#spec SynRep
// ---------------------------------------------------------------- what the representation stands for
pub open spec fn firsts<T, P>(s: Seq<(T, P)>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn seconds<T, P>(s: Seq<(T, P)>) -> Seq<P> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn boxed<T>(o: Option<Box<T>>) -> Seq<T> { match o { Some(b) => seq![*b], None => Seq::empty() } }
impl<T, P> SynPunctuated<T, P> {
    pub open spec fn view(&self) -> Pun<T, P> { Pun { vals: firsts(self.inner@) + boxed(self.last), puncts: seconds(self.inner@) } }
}
pub broadcast proof fn reps<T, P>(s: Seq<(T, P)>, x: (T, P))
    ensures #![trigger s.push(x)] firsts(s.push(x)) == firsts(s).push(x.0), seconds(s.push(x)) == seconds(s).push(x.1)
{ assert(firsts(s.push(x)) =~= firsts(s).push(x.0)); assert(seconds(s.push(x)) =~= seconds(s).push(x.1)); }
pub broadcast proof fn rep_one<T>(a: Seq<T>, x: T) ensures #[trigger] (a + seq![x]) == a.push(x), a.push(x).drop_last() == a, a.push(x).last() == x { assert(a + seq![x] =~= a.push(x)); assert(a.push(x).drop_last() =~= a); }
pub broadcast proof fn rep_none<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a { assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn rep_no<T, P>() ensures #![trigger firsts(Seq::<(T, P)>::empty())] firsts(Seq::<(T, P)>::empty()) == Seq::<T>::empty(), seconds(Seq::<(T, P)>::empty()) == Seq::<P>::empty() { assert(firsts(Seq::<(T, P)>::empty()) =~= Seq::<T>::empty()); assert(seconds(Seq::<(T, P)>::empty()) =~= Seq::<P>::empty()); }
pub broadcast proof fn rep_pop<T, P>(s: Seq<(T, P)>) requires s.len() > 0
    ensures #![trigger s.drop_last()] firsts(s.drop_last()) == firsts(s).drop_last(), seconds(s.drop_last()) == seconds(s).drop_last(), firsts(s) == firsts(s.drop_last()).push(s.last().0), seconds(s) == seconds(s.drop_last()).push(s.last().1)
{ assert(firsts(s.drop_last()) =~= firsts(s).drop_last()); assert(seconds(s.drop_last()) =~= seconds(s).drop_last()); assert(firsts(s) =~= firsts(s.drop_last()).push(s.last().0)); assert(seconds(s) =~= seconds(s.drop_last()).push(s.last().1)); }
pub broadcast proof fn rep_insert<T, P>(s: Seq<(T, P)>, i: int, x: (T, P), t: Seq<T>) requires 0 <= i <= s.len()
    ensures #![trigger s.insert(i, x), firsts(s) + t] firsts(s.insert(i, x)) + t == (firsts(s) + t).insert(i, x.0), seconds(s.insert(i, x)) == seconds(s).insert(i, x.1)
{ assert(firsts(s.insert(i, x)) + t =~= (firsts(s) + t).insert(i, x.0)); assert(seconds(s.insert(i, x)) =~= seconds(s).insert(i, x.1)); }
pub broadcast proof fn rep_update<T, P>(s: Seq<(T, P)>, i: int, x: (T, P), t: Seq<T>) requires 0 <= i < s.len(), x.1 == s[i].1
    ensures #![trigger s.update(i, x), firsts(s) + t] firsts(s.update(i, x)) + t == (firsts(s) + t).update(i, x.0), seconds(s.update(i, x)) == seconds(s)
{ assert(firsts(s.update(i, x)) + t =~= (firsts(s) + t).update(i, x.0)); assert(seconds(s.update(i, x)) =~= seconds(s)); }
pub broadcast proof fn rep_last<T>(a: Seq<T>, x: T, y: T) ensures #![trigger a.push(x), a.push(y)] a.push(x).update(a.len() as int, y) == a.push(y) { assert(a.push(x).update(a.len() as int, y) =~= a.push(y)); }
pub broadcast proof fn rep_front<T>(s: Seq<T>, n: int) requires n == s.len() - 1, s.len() > 0 ensures #[trigger] s.subrange(0, n) == s.drop_last() { assert(s.subrange(0, n) =~= s.drop_last()); }
/// no vector fills the address space (assumed: with items of size zero it could)
pub broadcast axiom fn vec_room<T>(v: Vec<T>) ensures #[trigger] v@.len() < usize::MAX;
/// the pairs of the representation
pub open spec fn paired<T, P>(s: Seq<(T, P)>) -> Seq<Pair<T, P>> { Seq::new(s.len(), |i: int| Pair::Punctuated(s[i].0, s[i].1)) }
pub open spec fn ended<T, P>(s: Seq<T>) -> Seq<Pair<T, P>> { Seq::new(s.len(), |i: int| Pair::End(s[i])) }
pub broadcast proof fn pairs_rep<T, P>(a: SynPunctuated<T, P>)
    ensures #[trigger] pairs_of(a@) == paired(a.inner@) + ended(boxed(a.last))
{ assert(pairs_of(a@) =~= paired(a.inner@) + ended(boxed(a.last))); }
pub broadcast proof fn pairs_next<T, P>(s: Seq<(T, P)>, t: Seq<Pair<T, P>>)
    ensures s.len() > 0 ==> (#[trigger] (paired(s) + t)).drop_first() == paired(s.drop_first()) + t && (paired(s) + t)[0] == Pair::Punctuated(s[0].0, s[0].1), s.len() == 0 ==> paired(s) + t == t
{ if s.len() > 0 { assert((paired(s) + t).drop_first() =~= paired(s.drop_first()) + t); } else { assert(paired(s) + t =~= t); } }
pub broadcast group reps_all { reps, rep_one, rep_none, rep_no, rep_pop, rep_insert, rep_update, rep_last, rep_front, vec_room, pairs_rep }
