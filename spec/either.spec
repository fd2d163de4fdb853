#fn Either::left
contract:
    ensures r == match self { Either::Left(x) => Some(x), Either::Right(_) => None }
#fn Either::right
contract:
    ensures r == match self { Either::Right(x) => Some(x), Either::Left(_) => None }
#fn Either::is_left
contract:
    ensures r == (self is Left)
#fn Either::is_right
contract:
    ensures r == (self is Right)
#fn Either::flip
contract:
    ensures r == match self { Either::Left(x) => Either::<R, L>::Right(x), Either::Right(x) => Either::<R, L>::Left(x) }
#fn Either::as_ref
contract:
    ensures match *self { Either::Left(x) => r is Left && *(r->Left_0) == x, Either::Right(x) => r is Right && *(r->Right_0) == x }
#fn Either::as_mut
contract:
    ensures match *old(self) {
        Either::Left(x) => r is Left && *(r->Left_0) == x && *final(self) == Either::<L, R>::Left(*final(r->Left_0)),
        Either::Right(x) => r is Right && *(r->Right_0) == x && *final(self) == Either::<L, R>::Right(*final(r->Right_0)) }
#fn Either::map
contract:
    requires self is Left ==> {1}.requires((self->Left_0,)), self is Right ==> {2}.requires((self->Right_0,))
    ensures match self { Either::Left(x) => r is Left && {1}.ensures((x,), r->Left_0), Either::Right(x) => r is Right && {2}.ensures((x,), r->Right_0) }
#fn Either::into_iter
contract:
    ensures match self { Either::Left(x) => r is Left && L::into_rel(x, r->Left_0), Either::Right(x) => r is Right && R::into_rel(x, r->Right_0) }
#fn Either<Option<L>,Option<R>>::transpose
contract:
    ensures r == match self {
        Either::Left(Some(x)) => Some(Either::<L, R>::Left(x)), Either::Right(Some(x)) => Some(Either::<L, R>::Right(x)), _ => None }
#fn Either<Result<L>,Result<R>>::transpose
opts: {"kinds": {"map": "Result"}}
contract:
    ensures match self {
        Either::Left(Ok(x)) => r == Ok::<Either<L, R>, Error>(Either::Left(x)), Either::Right(Ok(x)) => r == Ok::<Either<L, R>, Error>(Either::Right(x)),
        Either::Left(Err(e)) => r == Err::<Either<L, R>, Error>(e), Either::Right(Err(e)) => r == Err::<Either<L, R>, Error>(e) }
#fn Either::into_inner
contract:
    ensures r == match self { Either::Left(x) => x, Either::Right(x) => x }
#fn AsRef<T> for Either::as_ref
mode: free either_asref
contract:
    ensures *r == match *self_ { Either::Left(x) => x, Either::Right(x) => x }
#fn Deref for Either::deref
mode: free either_deref
contract:
    ensures *r == match *self_ { Either::Left(x) => x, Either::Right(x) => x }
#fn AsMut<T> for Either::as_mut
mode: free either_asmut
contract:
    ensures match *old(self_) { Either::Left(x) => *r == x && *final(self_) == Either::<T, T>::Left(*final(r)), Either::Right(x) => *r == x && *final(self_) == Either::<T, T>::Right(*final(r)) }
#fn DerefMut for Either::deref_mut
mode: free either_derefmut
assoc: type Target = T;
contract:
    ensures match *old(self_) { Either::Left(x) => *r == x && *final(self_) == Either::<T, T>::Left(*final(r)), Either::Right(x) => *r == x && *final(self_) == Either::<T, T>::Right(*final(r)) }
#spec Steps
pub open spec fn sided<A, B>(r: Option<Either<A, B>>, left: bool) -> bool { match r { Some(x) => (x is Left) == left, None => true } }
pub open spec fn opt_left<A, B>(r: Option<Either<A, B>>) -> Option<A> { match r { Some(Either::Left(x)) => Some(x), _ => None } }
pub open spec fn opt_right<A, B>(r: Option<Either<A, B>>) -> Option<B> { match r { Some(Either::Right(x)) => Some(x), _ => None } }
#fn Iterator for Either::next
mode: free either_next
contract:
    ensures match (*old(self_), *final(self_)) {
        (Either::Left(a), Either::Left(b)) => sided(r, true) && L::next_rel(a, b, opt_left(r)),
        (Either::Right(a), Either::Right(b)) => sided(r, false) && R::next_rel(a, b, opt_right(r)),
        _ => false }
#fn Iterator for Either::nth
mode: free either_nth
contract:
    ensures match (*old(self_), *final(self_)) {
        (Either::Left(a), Either::Left(b)) => sided(r, true) && L::nth_rel(a, {1}, b, opt_left(r)),
        (Either::Right(a), Either::Right(b)) => sided(r, false) && R::nth_rel(a, {1}, b, opt_right(r)),
        _ => false }
#fn Iterator for Either::last
mode: free either_last
contract:
    ensures match self_ { Either::Left(a) => sided(r, true) && L::last_rel(a, opt_left(r)), Either::Right(a) => sided(r, false) && R::last_rel(a, opt_right(r)) }
#fn Iterator for Either::count
mode: free either_count
contract:
    ensures match self_ { Either::Left(a) => L::count_rel(a, r), Either::Right(a) => R::count_rel(a, r) }
#fn Iterator for Either::size_hint
mode: free either_size_hint
contract:
    ensures match *self_ { Either::Left(a) => L::hint_rel(a, r), Either::Right(a) => R::hint_rel(a, r) }
#fn DoubleEndedIterator for Either::next_back
mode: free either_next_back
assoc: type Item = Either<L::Item, R::Item>;
contract:
    ensures match (*old(self_), *final(self_)) {
        (Either::Left(a), Either::Left(b)) => sided(r, true) && L::back_rel(a, b, opt_left(r)),
        (Either::Right(a), Either::Right(b)) => sided(r, false) && R::back_rel(a, b, opt_right(r)),
        _ => false }
#fn Extend<T> for Either::extend
mode: free either_extend
contract:
    ensures match (*old(self_), *final(self_)) {
        (Either::Left(a), Either::Left(b)) => L::extend_rel(a, {1}, b), (Either::Right(a), Either::Right(b)) => R::extend_rel(a, {1}, b), _ => false }
#fn Debug for Either::fmt
mode: free either_debug
contract:
    ensures match *self_ { Either::Left(x) => x.debug_rel(*old({1}), *final({1}), r), Either::Right(x) => x.debug_rel(*old({1}), *final({1}), r) }
#fn Display for Either::fmt
mode: free either_display
contract:
    ensures match *self_ { Either::Left(x) => x.display_rel(*old({1}), *final({1}), r), Either::Right(x) => x.display_rel(*old({1}), *final({1}), r) }
