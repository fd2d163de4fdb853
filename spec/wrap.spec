#opts {"ren": {"into": "tr_into", "from": "tr_from", "extend": "tr_extend", "from_iter": "tr_from_iter"}}
// ---------------------------------------------------------------- Maybe
#fn Maybe::new
contract:
    ensures r.inner is None
#fn Default for Maybe::default
extra:
    open spec fn is_default(r: Self) -> bool { r.inner is None }
#fn Maybe::as_prefix
contract:
    ensures match (self.inner, r) { (Some((p, _)), Some(x)) => *x == p, (None, None) => true, _ => false }
#fn Maybe::as_prefix_mut
contract:
    ensures match (old(self).inner, r) { (Some((p, t)), Some(x)) => *x == p && final(self).inner == Some((*final(x), t)), (None, None) => final(self).inner is None, _ => false }
#fn Maybe::into_prefix
contract:
    ensures r == match self.inner { Some((p, _)) => Some(p), None => None }
#fn Maybe::as_ref
contract:
    ensures match (self.inner, r) { (Some((_, t)), Some(x)) => *x == t, (None, None) => true, _ => false }
#fn Maybe::as_mut
contract:
    ensures match (old(self).inner, r) { (Some((p, t)), Some(x)) => *x == t && final(self).inner == Some((p, *final(x))), (None, None) => final(self).inner is None, _ => false }
#fn Maybe::into_inner
contract:
    ensures r == match self.inner { Some((_, t)) => Some(t), None => None }
#fn Maybe::as_parts
contract:
    ensures match (self.inner, r) { (Some(q), Some(x)) => *x == q, (None, None) => true, _ => false }
#fn Maybe::as_parts_mut
contract:
    ensures match (old(self).inner, r) { (Some(q), Some(x)) => *x == q && final(self).inner == Some(*final(x)), (None, None) => final(self).inner is None, _ => false }
#fn Maybe::into_parts
contract:
    ensures r == self.inner
#fn Maybe::into_prefix_iter
contract:
    ensures r.rest == match self.inner { Some((p, _)) => Some(p), None => None }
#fn Maybe::prefix_iter
contract:
    ensures match (self.inner, r.rest) { (Some((p, _)), Some(x)) => *x == p, (None, None) => true, _ => false }
#fn Maybe::prefix_iter_mut
contract:
    ensures match (old(self).inner, r.rest) { (Some((p, t)), Some(x)) => *x == p && final(self).inner == Some((*final(x), t)), (None, None) => final(self).inner is None, _ => false }
#fn Maybe::iter
contract:
    ensures match (self.inner, r.rest) { (Some((_, t)), Some(x)) => *x == t, (None, None) => true, _ => false }
#fn Maybe::iter_mut
contract:
    ensures match (old(self).inner, r.rest) { (Some((p, t)), Some(x)) => *x == t && final(self).inner == Some((p, *final(x))), (None, None) => final(self).inner is None, _ => false }
#fn Maybe::into_parts_iter
contract:
    ensures r.rest == self.inner
#fn Maybe::parts_iter
opts: {"ren": {"iter": "vx_opt_iter"}}
contract:
    ensures match (self.inner, r.rest) { (Some(q), Some(x)) => *x == q, (None, None) => true, _ => false }
#fn Maybe::parts_iter_mut
opts: {"ren": {"iter_mut": "vx_opt_iter_mut"}}
contract:
    ensures match (old(self).inner, r.rest) { (Some(q), Some(x)) => *x == q && final(self).inner == Some(*final(x)), (None, None) => final(self).inner is None, _ => false }
#fn From<Option<(P,T)>> for Maybe::from
extra:
    open spec fn from_rel(x: Option<(P, T)>, r: Self) -> bool { r.inner == x }
#fn From<Option<T>> for Maybe::from
extra:
    open spec fn from_rel(x: Option<T>, r: Self) -> bool { match (x, r.inner) { (Some(t), Some((p, u))) => u == t && P::is_default(p), (None, None) => true, _ => false } }
#fn From<(P,T)> for Maybe::from
extra:
    open spec fn from_rel(x: (P, T), r: Self) -> bool { r.inner == Some(x) }
#fn From<T> for Maybe::from
extra:
    open spec fn from_rel(x: T, r: Self) -> bool { match r.inner { Some((p, u)) => u == x && P::is_default(p), None => false } }
#fn IntoIterator for Maybe::into_iter
mode: free maybe_into_iter
contract:
    ensures r.rest == match self_.inner { Some((_, t)) => Some(t), None => None }
#fn IntoIterator for &Maybe::into_iter
mode: free maybe_ref_into_iter
contract:
    ensures match (self_.inner, r.rest) { (Some((_, t)), Some(x)) => *x == t, (None, None) => true, _ => false }
#fn IntoIterator for &mut Maybe::into_iter
mode: free maybe_mut_into_iter
contract:
    ensures match (old(self_).inner, r.rest) { (Some((p, t)), Some(x)) => *x == t && final(self_).inner == Some((p, *final(x))), (None, None) => final(self_).inner is None, _ => false }
#fn Deref for Maybe::deref
mode: free maybe_deref
contract:
    ensures *r == self_.inner
#fn DerefMut for Maybe::deref_mut
mode: free maybe_deref_mut
assoc: type Target = Option<(P, T)>;
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r)
// ---------------------------------------------------------------- Paren, Bracket, Brace
//@each NAME,name in Paren,parens;Bracket,brackets;Brace,braces
#fn Default for NAME::default
extra:
    open spec fn is_default(r: Self) -> bool { TokNAME::is_default(r.name) && T::is_default(r.inner) }
#fn NAME::new
contract:
    ensures r.inner == {0}, r.name == tok_NAME({1})
#fn NAME::into_inner
contract:
    ensures r == self.inner
#fn NAME::as_name
contract:
    ensures *r == self.name
#fn NAME::into_name
contract:
    ensures r == self.name
#fn NAME::as_parts
contract:
    ensures *r.0 == self.name, *r.1 == self.inner
#fn NAME::into_parts
contract:
    ensures r.0 == self.name, r.1 == self.inner
#fn From<T> for NAME::from
extra:
    open spec fn from_rel(x: T, r: Self) -> bool { r.inner == x && r.name == tok_NAME(x.span_v()) }
#fn From<(NAME,T)> for NAME::from
extra:
    open spec fn from_rel(x: (TokNAME, T), r: Self) -> bool { r.inner == x.1 && r.name == x.0 }
#fn Deref for NAME::deref
mode: free NAME_deref
contract:
    ensures *r == self_.inner
#fn AsRef<T> for NAME::as_ref
mode: free NAME_as_ref
contract:
    ensures *r == self_.inner
#fn DerefMut for NAME::deref_mut
mode: free NAME_deref_mut
assoc: type Target = T;
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r), final(self_).name == old(self_).name
#fn AsMut<T> for NAME::as_mut
mode: free NAME_as_mut
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r), final(self_).name == old(self_).name
//@end
// ---------------------------------------------------------------- Punctuated and Separated
#spec SeparatedInv
impl<T, P> Separated<T, P> {
    /// at least one item, one separator between neighbours, none at the end
    pub open spec fn inv(self) -> bool { self.inner@.vals.len() >= 1 && self.inner@.puncts.len() + 1 == self.inner@.vals.len() }
}
impl<T, P> Punctuated<T, P> { pub open spec fn inv(self) -> bool { true } }
//@each NAME in Punctuated;Separated
#fn NAME::into_inner
contract:
    ensures r == self.inner
#fn NAME::iter
contract:
    ensures r@ == self.inner@.vals
#fn NAME::iter_mut
contract:
    ensures r@ == old(self).inner@.vals, r.fin().len() == r@.len(), final(self).inner@ == (Pun { vals: r.fin(), puncts: old(self).inner@.puncts }), old(self).inv() ==> final(self).inv()
#fn NAME::into_pairs
contract:
    ensures r.rest() == pairs_of(self.inner@)
#fn NAME::pairs
contract:
    ensures r@ == self.inner@
#fn NAME::pairs_mut
contract:
    ensures r@ == old(self).inner@, final(self).inner@ == r.fin(), r.fin().vals.len() == r@.vals.len(), r.fin().puncts.len() == r@.puncts.len(), old(self).inv() ==> final(self).inv()
#fn From<NAME<T,P>> for syn::Punctuated::from
extra:
    open spec fn from_rel(x: NAME<T, P>, r: Self) -> bool { r == x.inner }
#fn Deref for NAME::deref
mode: free NAME_deref
contract:
    ensures *r == self_.inner
#fn AsRef<syn::Punctuated<T,P>> for NAME::as_ref
mode: free NAME_as_ref
contract:
    ensures *r == self_.inner
#fn Borrow<syn::Punctuated<T,P>> for NAME::borrow
mode: free NAME_borrow
contract:
    ensures *r == self_.inner
#fn IntoIterator for NAME::into_iter
mode: free NAME_into_iter
contract:
    ensures r.rest() == self_.inner@.vals
#fn IntoIterator for &NAME::into_iter
mode: free NAME_ref_into_iter
contract:
    ensures r@ == self_.inner@.vals
#fn IntoIterator for &mut NAME::into_iter
mode: free NAME_mut_into_iter
contract:
    ensures r@ == old(self_).inner@.vals, r.fin().len() == r@.len(), final(self_).inner@ == (Pun { vals: r.fin(), puncts: old(self_).inner@.puncts }), old(self_).inv() ==> final(self_).inv()
#fn Index<usize> for NAME::index
mode: free NAME_index
contract:
    requires {1} < self_.inner@.vals.len()
    ensures *r == self_.inner@.vals[{1} as int]
#fn IndexMut<usize> for NAME::index_mut
mode: free NAME_index_mut
assoc: type Output = T;
contract:
    requires {1} < old(self_).inner@.vals.len()
    ensures val_written(old(self_).inner@, {1} as int, r, final(self_).inner@), old(self_).inv() ==> final(self_).inv()
//@end
#fn Punctuated::new
contract:
    ensures r.inner@ == pun_none::<T, P>()
#fn Default for Punctuated::default
extra:
    open spec fn is_default(r: Self) -> bool { r.inner@ == pun_none::<T, P>() }
#fn Punctuated::is_empty
contract:
    ensures r == (self.inner@.vals.len() == 0)
#fn Punctuated::len
contract:
    ensures r == self.inner@.vals.len()
#fn From<syn::Punctuated<T,P>> for Punctuated::from
extra:
    open spec fn from_rel(x: SynPunctuated<T, P>, r: Self) -> bool { r.inner == x }
#fn DerefMut for Punctuated::deref_mut
mode: free Punctuated_deref_mut
assoc: type Target = SynPunctuated<T, P>;
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r)
#fn AsMut<syn::Punctuated<T,P>> for Punctuated::as_mut
mode: free Punctuated_as_mut
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r)
#fn BorrowMut<syn::Punctuated<T,P>> for Punctuated::borrow_mut
mode: free Punctuated_borrow_mut
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r)
#fn FromIterator<T> for Punctuated::from_iter
mode: free Punctuated_from_iter
contract:
    ensures appended(pun_none::<T, P>(), {0}.items(), r.inner@)
#fn FromIterator<Pair<T,P>> for Punctuated::from_iter
mode: free Punctuated_from_pairs
contract:
    requires pairs_ok({0}.items())
    ensures r.inner@ == (Pun { vals: vals_of({0}.items()), puncts: puncts_of({0}.items()) })
#fn Extend<T> for Punctuated::extend
mode: free Punctuated_extend
contract:
    ensures appended(old(self_).inner@, {1}.items(), final(self_).inner@)
#fn Extend<Pair<T,P>> for Punctuated::extend
mode: free Punctuated_extend_pairs
contract:
    requires pairs_ok({1}.items())
    ensures pair_appended(old(self_).inner@, {1}.items(), final(self_).inner@)
#fn Separated::len
contract:
    requires self.inv()
    ensures r@ == self.inner@.vals.len()
#fn Separated::first
contract:
    requires self.inv()
    ensures *r == self.inner@.vals[0]
#fn Separated::last
contract:
    requires self.inv()
    ensures *r == self.inner@.vals.last()
#fn Separated::first_mut
contract:
    requires old(self).inv()
    ensures val_written(old(self).inner@, 0, r, final(self).inner@), final(self).inv()
#fn Separated::last_mut
contract:
    requires old(self).inv()
    ensures val_written(old(self).inner@, old(self).inner@.vals.len() - 1, r, final(self).inner@), final(self).inv()
#fn Separated::insert
contract:
    requires old(self).inv(), {1} <= old(self).inner@.vals.len()
    ensures inserted(old(self).inner@, {1} as int, {2}, final(self).inner@), final(self).inv()
#fn Separated::push
contract:
    requires old(self).inv()
    ensures final(self).inner@ == (Pun { vals: old(self).inner@.vals.push({2}), puncts: old(self).inner@.puncts.push({1}) }), final(self).inv()
#fn Separated::push_value
contract:
    requires old(self).inv()
    ensures appended(old(self).inner@, seq![{1}], final(self).inner@), final(self).inv()
#fn TryFrom<syn::Punctuated<T,P>> for Separated::try_from
mode: free Separated_try_from
drop: ToTokens
prologue:
    broadcast use punct_ok;
contract:
    ensures match r { Ok(s) => s.inner == {0} && s.inv(), Err(_) => pun_full({0}@) }
#fn Extend<T> for Separated::extend
mode: free Separated_extend
contract:
    requires old(self_).inv()
    ensures appended(old(self_).inner@, {1}.items(), final(self_).inner@), final(self_).inv()
#fn Extend<(P,T)> for Separated::extend
mode: free Separated_extend_pairs
contract:
    requires old(self_).inv()
    ensures final(self_).inv(),
        final(self_).inner@.vals =~= old(self_).inner@.vals + Seq::new({1}.items().len(), |i: int| {1}.items()[i].1),
        final(self_).inner@.puncts =~= old(self_).inner@.puncts + Seq::new({1}.items().len(), |i: int| {1}.items()[i].0)
loop 0:
    invariant_except_break
        ext_done(old(self_).inner@, {1}.items(), {it}.rest(), self_.inner@), self_.inv(), {it}.rest().len() <= {1}.items().len()
    ensures ext_done(old(self_).inner@, {1}.items(), Seq::<(P, T)>::empty(), self_.inner@), self_.inv()
    decreases {it}.rest().len()
#spec ExtDone
/// all but the rest has been appended to a
pub open spec fn ext_done<T, P>(a: Pun<T, P>, all: Seq<(P, T)>, rest: Seq<(P, T)>, b: Pun<T, P>) -> bool {
    let n = (all.len() - rest.len()) as int;
    rest.len() <= all.len() && rest =~= all.subrange(n, all.len() as int)
    && b.vals =~= a.vals + Seq::new(n as nat, |i: int| all[i].1) && b.puncts =~= a.puncts + Seq::new(n as nat, |i: int| all[i].0)
}
// ---------------------------------------------------------------- Any
#fn Any::new
contract:
    ensures r.inner@.len() == 0
#fn Default for Any::default
extra:
    open spec fn is_default(r: Self) -> bool { r.inner@.len() == 0 }
#fn Any::into_inner
contract:
    ensures r == self.inner
#fn Any::len
contract:
    ensures r == self.inner@.len()
#fn Any::is_empty
contract:
    ensures r == (self.inner@.len() == 0)
#fn Any::get
opts: {"ren": {"get": "vx_get"}}
contract:
    ensures match r { Some(x) => in_range(self.inner@, {1}) && at(self.inner@, {1}, x), None => !in_range(self.inner@, {1}) }
#fn Any::get_mut
opts: {"ren": {"get_mut": "vx_get_mut"}}
contract:
    ensures match r { Some(x) => in_range(old(self).inner@, {1}) && at_mut(old(self).inner@, {1}, x, final(self).inner@), None => !in_range(old(self).inner@, {1}) && final(self).inner@ == old(self).inner@ }
#fn Any::iter
opts: {"ren": {"iter": "vx_slice_iter"}}
contract:
    ensures r@ == self.inner@
#fn Any::iter_mut
opts: {"ren": {"iter_mut": "vx_slice_iter_mut"}}
contract:
    ensures r@ == old(self).inner@, final(self).inner@ == r.fin(), r.fin().len() == r@.len()
#fn From<Vec<T>> for Any::from
extra:
    open spec fn from_rel(x: Vec<T>, r: Self) -> bool { r.inner == x }
#fn From<Any<T>> for Vec::from
extra:
    open spec fn from_rel(x: Any<T>, r: Self) -> bool { r == x.inner }
//@each TRAIT,fun in Deref,deref;AsRef<Vec<T>>,as_ref;Borrow<Vec<T>>,borrow
#fn TRAIT for Any::fun
mode: free any_fun
contract:
    ensures *r == self_.inner
//@end
//@each TRAIT,fun in DerefMut,deref_mut;AsMut<Vec<T>>,as_mut;BorrowMut<Vec<T>>,borrow_mut
#fn TRAIT for Any::fun
mode: free any_fun
assoc: type Target = Vec<T>;
contract:
    ensures *r == old(self_).inner, final(self_).inner == *final(r)
//@end
//@each TRAIT,fun in AsRef<[T]>,as_ref;Borrow<[T]>,borrow
#fn TRAIT for Any::fun
mode: free any_slice_fun
contract:
    ensures r@ == self_.inner@
//@end
//@each TRAIT,fun in AsMut<[T]>,as_mut;BorrowMut<[T]>,borrow_mut
#fn TRAIT for Any::fun
mode: free any_slice_fun
contract:
    ensures r@ == old(self_).inner@, final(self_).inner@ == final(r)@
//@end
#fn FromIterator<T> for Any::from_iter
mode: free any_from_iter
contract:
    ensures r.inner@ == {0}.items()
#fn Extend<T> for Any::extend
mode: free any_extend
contract:
    ensures final(self_).inner@ == old(self_).inner@ + {1}.items()
#fn IntoIterator for Any::into_iter
mode: free any_into_iter
contract:
    ensures r.rest() == self_.inner@
#fn IntoIterator for &Any::into_iter
opts: {"ren": {"iter": "vx_slice_iter"}}
mode: free any_ref_into_iter
contract:
    ensures r@ == self_.inner@
#fn IntoIterator for &mut Any::into_iter
opts: {"ren": {"iter_mut": "vx_slice_iter_mut"}}
mode: free any_mut_into_iter
contract:
    ensures r@ == old(self_).inner@, final(self_).inner@ == r.fin(), r.fin().len() == r@.len()
#fn Index<I> for Any::index
opts: {"index": true}
mode: free any_index
contract:
    requires in_range(self_.inner@, {1})
    ensures at(self_.inner@, {1}, r)
#fn IndexMut<I> for Any::index_mut
opts: {"index": true}
mode: free any_index_mut
assoc: type Output = <I as SliceIndex<[T]>>::Output;
contract:
    requires in_range(old(self_).inner@, {1})
    ensures at_mut(old(self_).inner@, {1}, r, final(self_).inner@)
