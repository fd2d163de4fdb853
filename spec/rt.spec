#spec RoundTrip
// ---------------------------------------------------------------- C13: printing gives back what was parsed
// A leaf stands for an identifier, a punctuation character or a literal up to its spelling;
// invisible groups are dissolved.
/// what syn's cursor enters as a group is that token of the buffer, and the position after it the next one
pub broadcast axiom fn group_is(c: Cur, d: int)
    requires c.ok(), #[trigger] group_at(c, d) is Some
    ensures ({ let g = group_at(c, d)->Some_0;
        &&& c.pos < c.toks.len() && g.after == (Cur { buf: c.buf, toks: c.toks, pos: c.pos + 1 })
        &&& g.inner.pos == 0 && c.toks[c.pos as int] == TT::Group(d, g.inner.toks) && g.inner.toks.len() <= usize::MAX });
pub broadcast axiom fn end_is(c: Cur) requires c.ok(), #[trigger] at_end(c) ensures c.pos == c.toks.len();
pub broadcast axiom fn vec_view<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] vec_of(s))@ == s;
pub open spec fn real(c: Cur) -> bool { c.ok() && c.toks.len() <= usize::MAX }
pub open spec fn rt_is<T: Print>(c: Cur, r: Option<(T, Cur, bool)>) -> bool {
    match r { None => true, Some((v, n, l)) => c.to(n) && (!l ==> v.toks() == c.consumed(n)) }
}
/// "a parsed value prints the tokens it was parsed from"
pub open spec fn rt<T: Gram + Print>() -> bool { forall|c: Cur| real(c) ==> rt_is(c, #[trigger] T::gram(c)) }
pub broadcast proof fn consumed_cat(a: Cur, b: Cur, c: Cur)
    requires a.to(b), b.to(c)
    ensures #[trigger] (a.consumed(b) + b.consumed(c)) == a.consumed(c)
{ assert(a.consumed(b) + b.consumed(c) =~= a.consumed(c)); }
pub broadcast proof fn consumed_none(a: Cur)
    requires a.ok()
    ensures #[trigger] a.consumed(a) == Seq::<TT>::empty()
{ assert(a.consumed(a) =~= Seq::<TT>::empty()); }
pub broadcast proof fn cat_left(a: Seq<TT>) ensures #[trigger] (Seq::<TT>::empty() + a) == a { assert(Seq::<TT>::empty() + a =~= a); }

//@each NAME in Empty;Eof;NotEof
pub proof fn rt_NAME() ensures rt::<NAME>() { broadcast use consumed_none; }
//@end
pub proof fn rt_Box<T: Gram + Print>() requires rt::<T>() ensures rt::<Box<T>>() {
    broadcast use box_new_is;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] <Box<T> as Gram>::gram(c)) by { assert(rt_is(c, T::gram(c))); }
}
//@each NAME,D in Paren,0;Bracket,1;Brace,2
pub proof fn rt_NAME<T: Gram + Print>() requires rt::<T>() ensures rt::<NAME<T>>() {
    broadcast use group_is, end_is;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] NAME::<T>::gram(c)) by {
        if group_at(c, D) is Some {
            let g = group_at(c, D)->Some_0;
            assert(rt_is(g.inner, T::gram(g.inner)));
            match T::gram(g.inner) { None => {}, Some((v, n, l)) => {
                if !l && at_end(n) {
                    assert(g.inner.consumed(n) =~= g.inner.toks);
                    assert(seq![TT::Group(D, g.inner.toks)] =~= c.consumed(g.after));
                }
            } }
        }
    }
}
//@end
pub proof fn rt_Maybe<P: Gram + Print, T: Gram + Print>() requires rt::<P>(), rt::<T>() ensures rt::<Maybe<P, T>>() {
    broadcast use consumed_cat, consumed_none;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] Maybe::<P, T>::gram(c)) by {
        assert(rt_is(c, P::gram(c)));
        match P::gram(c) { None => {}, Some((p, c1, l1)) => { assert(rt_is(c1, T::gram(c1))); } }
    }
}
pub proof fn rt_Either<L: Gram + Print, R: Gram + Print>() requires rt::<L>(), rt::<R>() ensures rt::<Either<L, R>>() {
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] Either::<L, R>::gram(c)) by { assert(rt_is(c, L::gram(c))); assert(rt_is(c, R::gram(c))); }
}
// lists
pub proof fn pun_same<T: Print, P: Print>(a: Pun<T, P>, b: Pun<T, P>, n: nat)
    requires n <= a.vals.len(), n <= b.vals.len(), forall|i: int| 0 <= i < n ==> a.vals[i] == b.vals[i],
        (a.puncts.len() >= n && b.puncts.len() >= n) || a.puncts.len() == b.puncts.len(), forall|i: int| 0 <= i < n && i < a.puncts.len() ==> a.puncts[i] == b.puncts[i]
    ensures pun_toks(a, n) == pun_toks(b, n)
    decreases n
{ if n > 0 { pun_same(a, b, (n - 1) as nat); } }
/// an item behind a complete list
pub proof fn pun_add_val<T: Print, P: Print>(a: Pun<T, P>, t: T)
    requires a.vals.len() == a.puncts.len()
    ensures pun_toks(add_val(a, t), a.vals.len() + 1) == pun_toks(a, a.vals.len()) + t.toks()
{ pun_same(a, add_val(a, t), a.vals.len()); }
/// a separator behind an open one
pub proof fn pun_add_punct<T: Print, P: Print>(a: Pun<T, P>, p: P)
    requires a.vals.len() == a.puncts.len() + 1
    ensures pun_toks(add_punct(a, p), a.vals.len()) == pun_toks(a, a.vals.len()) + p.toks()
{ pun_same(a, add_punct(a, p), (a.vals.len() - 1) as nat); }
pub open spec fn rt_list<T: Print, P: Print>(c: Cur, r: Option<(Pun<T, P>, Cur, bool)>) -> bool {
    match r { None => true, Some((p, n, l)) => c.to(n) && (!l ==> pun_toks(p, p.vals.len()) == c.consumed(n)) }
}
pub proof fn rt_sep_more<T: Gram + Print, P: Gram + Print>(c0: Cur, acc: Pun<T, P>, c: Cur, l: bool)
    requires rt::<T>(), rt::<P>(), Separated::<T, P>::wf(), real(c0), acc.vals.len() == acc.puncts.len() + 1, rt_list(c0, Some((acc, c, l)))
    ensures rt_list(c0, sep_more(acc, c, l))
    decreases c.toks.len() - c.pos
{
    broadcast use consumed_cat, cat_add;
    match P::gram(c) {
        None => {}
        Some((p, c1, l1)) => {
            assert(rt_is(c, P::gram(c)));
            match T::gram(c1) {
                None => {}
                Some((t, c2, l2)) => {
                    assert(rt_is(c1, T::gram(c1)));
                    if c.to(c2) && c2.pos > c.pos {
                        let a = add_val(add_punct(acc, p), t);
                        pun_add_punct(acc, p); pun_add_val(add_punct(acc, p), t);
                        if !(l || l1 || l2) {
                            assert(pun_toks(a, a.vals.len()) == (c0.consumed(c) + c.consumed(c1)) + c1.consumed(c2));
                        }
                        rt_sep_more(c0, a, c2, l || l1 || l2);
                    }
                }
            }
        }
    }
}
pub proof fn rt_sep_list<T: Gram + Print, P: Gram + Print>(c: Cur)
    requires rt::<T>(), rt::<P>(), Separated::<T, P>::wf(), real(c)
    ensures rt_list(c, sep_list::<T, P>(c)), match sep_list::<T, P>(c) { None => true, Some((p, n, m)) => p.vals.len() == p.puncts.len() + 1 }
{
    broadcast use cat_left;
    sep_list_len::<T, P>(c);
    match T::gram(c) {
        None => {}
        Some((t, c1, l1)) => {
            assert(rt_is(c, T::gram(c)));
            let a = add_val(pun_none::<T, P>(), t);
            pun_add_val(pun_none::<T, P>(), t);
            assert(pun_toks(pun_none::<T, P>(), 0) =~= Seq::<TT>::empty());
            rt_sep_more(c, a, c1, l1);
        }
    }
}
pub proof fn rt_Separated<T: Gram + Print, P: Gram + Print>() requires rt::<T>(), rt::<P>(), Separated::<T, P>::wf() ensures rt::<Separated<T, P>>() {
    broadcast use punct_view;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] Separated::<T, P>::gram(c)) by { rt_sep_list::<T, P>(c); }
}
pub proof fn rt_pun_all<T: Gram + Print, P: Gram + Print>(c0: Cur, acc: Pun<T, P>, c: Cur, l: bool)
    requires rt::<T>(), rt::<P>(), Punctuated::<T, P>::wf(), real(c0), acc.vals.len() == acc.puncts.len(), rt_list(c0, Some((acc, c, l)))
    ensures rt_list(c0, pun_all(acc, c, l)), match pun_all(acc, c, l) { None => true, Some((p, n, m)) => pun_ok(p) }
    decreases c.toks.len() - c.pos
{
    broadcast use consumed_cat, cat_add;
    if !at_end(c) {
        match T::gram(c) {
            None => {}
            Some((t, c1, l1)) => {
                assert(rt_is(c, T::gram(c)));
                let a1 = add_val(acc, t);
                pun_add_val(acc, t);
                if !at_end(c1) {
                    match P::gram(c1) {
                        None => {}
                        Some((p, c2, l2)) => {
                            assert(rt_is(c1, P::gram(c1)));
                            pun_add_punct(a1, p);
                            if !(l || l1 || l2) {
                                assert(pun_toks(add_punct(a1, p), a1.vals.len()) == (c0.consumed(c) + c.consumed(c1)) + c1.consumed(c2));
                            }
                            assert(c.to(c2) && c2.pos > c.pos);
                            rt_pun_all(c0, add_punct(a1, p), c2, l || l1 || l2);
                        }
                    }
                }
            }
        }
    }
}
pub proof fn rt_Punctuated<T: Gram + Print, P: Gram + Print>() requires rt::<T>(), rt::<P>(), Punctuated::<T, P>::wf() ensures rt::<Punctuated<T, P>>() {
    broadcast use punct_view, consumed_none;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] Punctuated::<T, P>::gram(c)) by {
        assert(pun_toks(pun_none::<T, P>(), 0) =~= Seq::<TT>::empty());
        rt_pun_all::<T, P>(c, pun_none(), c, false);
    }
}
pub proof fn rt_any_more<T: Gram + Print>(c0: Cur, acc: Seq<T>, c: Cur, l: bool)
    requires rt::<T>(), Any::<T>::wf(), real(c0), c0.to(c), acc.len() <= c.pos - c0.pos, !l ==> cat(acc) == c0.consumed(c)
    ensures ({ let r = any_more(acc, c, l); c0.to(r.1) && r.0.len() <= usize::MAX && (!r.2 ==> cat(r.0) == c0.consumed(r.1)) })
    decreases c.toks.len() - c.pos
{
    broadcast use consumed_cat;
    match T::gram(c) {
        None => {}
        Some((t, c1, l1)) => {
            assert(rt_is(c, T::gram(c)));
            assert(c.to(c1) && c1.pos > c.pos);
            assert(acc.push(t).drop_last() =~= acc);
            rt_any_more(c0, acc.push(t), c1, l || l1);
        }
    }
}
pub proof fn rt_Any<T: Gram + Print>() requires rt::<T>(), Any::<T>::wf() ensures rt::<Any<T>>() {
    broadcast use vec_view, consumed_none;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] Any::<T>::gram(c)) by { rt_any_more::<T>(c, Seq::empty(), c, false); }
}
// operator trees
pub proof fn left_list<O: Print, R: Print>(p: Pun<R, O>, n: nat)
    requires p.vals.len() == p.puncts.len() + 1, n <= p.puncts.len()
    ensures left_toks(left_tree(p, n)) == pun_toks(p, n) + p.vals[n as int].toks()
    decreases n
{
    broadcast use cat_left, cat_add;
    if n > 0 { left_list(p, (n - 1) as nat); assert(pun_toks(p, n) == (pun_toks(p, (n - 1) as nat) + p.vals[n - 1].toks()) + p.puncts[n - 1].toks()); }
}
pub proof fn right_list<O: Print, L: Print>(p: Pun<L, O>, i: nat)
    requires p.vals.len() == p.puncts.len() + 1, i <= p.puncts.len()
    ensures pun_toks(p, i) + right_toks(right_tree(p, i)) == pun_toks(p, p.vals.len())
    decreases p.puncts.len() - i
{
    broadcast use cat_add;
    if i < p.puncts.len() {
        right_list(p, i + 1);
        assert(pun_toks(p, i + 1) == (pun_toks(p, i) + p.vals[i as int].toks()) + p.puncts[i as int].toks());
    }
}
pub proof fn rt_LeftAssoc<O: Gram + Print, R: Gram + Print>() requires rt::<R>(), rt::<O>(), LeftAssoc::<O, R>::wf() ensures rt::<LeftAssoc<O, R>>() {
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] LeftAssoc::<O, R>::gram(c)) by {
        rt_sep_list::<R, O>(c);
        match sep_list::<R, O>(c) { None => {}, Some((p, n, l)) => { left_list(p, p.puncts.len()); } }
    }
}
pub proof fn rt_RightAssoc<O: Gram + Print, L: Gram + Print>() requires rt::<L>(), rt::<O>(), RightAssoc::<O, L>::wf() ensures rt::<RightAssoc<O, L>>() {
    broadcast use cat_left;
    assert forall|c: Cur| real(c) implies rt_is(c, #[trigger] RightAssoc::<O, L>::gram(c)) by {
        rt_sep_list::<L, O>(c);
        match sep_list::<L, O>(c) { None => {}, Some((p, n, l)) => { right_list(p, 0); assert(pun_toks(p, 0) =~= Seq::<TT>::empty()); } }
    }
}
#spec Again
// ---------------------------------------------------------------- C13: the same tokens parse to an equal value
/// equality, which ignores where things stand
pub trait Eqv: Sized { spec fn eqv(a: Self, b: Self) -> bool; }
/// the buffer has no invisible groups (parsed text and what the productions print have none)
pub uninterp spec fn plain(buf: int) -> bool;
/// the same tokens are still to come (from another buffer, with other spans)
pub open spec fn alike(c: Cur, e: Cur) -> bool { c.toks == e.toks && c.pos == e.pos && real(c) && plain(c.buf) && plain(e.buf) }
pub broadcast axiom fn group_alike(c: Cur, e: Cur, d: int)
    requires alike(c, e)
    ensures (#[trigger] group_at(c, d) is Some) == (#[trigger] group_at(e, d) is Some),
        group_at(c, d) is Some ==> alike((group_at(c, d)->Some_0).inner, (group_at(e, d)->Some_0).inner);
pub broadcast axiom fn end_alike(c: Cur, e: Cur) requires alike(c, e) ensures #[trigger] at_end(c) == #[trigger] at_end(e);
pub open spec fn same<T: Eqv>(c: Cur, e: Cur, a: Option<(T, Cur, bool)>, b: Option<(T, Cur, bool)>) -> bool {
    match (a, b) { (None, None) => true, (Some((v, n, l)), Some((w, m, k))) => T::eqv(v, w) && alike(n, m) && c.to(n) && e.to(m) && l == k, _ => false }
}
/// "what a production makes of the tokens depends on nothing but the tokens"
pub open spec fn det<T: Gram + Eqv>() -> bool { forall|c: Cur, e: Cur| alike(c, e) ==> same(c, e, #[trigger] T::gram(c), #[trigger] T::gram(e)) }
//@each NAME in Empty;Eof;NotEof
impl Eqv for NAME { open spec fn eqv(a: Self, b: Self) -> bool { true } }
pub proof fn det_NAME() ensures det::<NAME>() { broadcast use end_alike; }
//@end
impl<T: Eqv> Eqv for Box<T> { open spec fn eqv(a: Self, b: Self) -> bool { T::eqv(*a, *b) } }
pub proof fn det_Box<T: Gram + Eqv>() requires det::<T>() ensures det::<Box<T>>() {
    broadcast use box_new_is;
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] <Box<T> as Gram>::gram(c), #[trigger] <Box<T> as Gram>::gram(e)) by { assert(same(c, e, T::gram(c), T::gram(e))); }
}
//@each NAME,D in Paren,0;Bracket,1;Brace,2
impl<T: Eqv> Eqv for NAME<T> { open spec fn eqv(a: Self, b: Self) -> bool { T::eqv(a.inner, b.inner) } }
pub proof fn det_NAME<T: Gram + Eqv>() requires det::<T>() ensures det::<NAME<T>>() {
    broadcast use group_is, end_alike;
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] NAME::<T>::gram(c), #[trigger] NAME::<T>::gram(e)) by {
        group_alike(c, e, D);
        if group_at(c, D) is Some {
            let g = group_at(c, D)->Some_0;
            let h = group_at(e, D)->Some_0;
            assert(same(g.inner, h.inner, T::gram(g.inner), T::gram(h.inner)));
        }
    }
}
//@end
impl<P: Eqv, T: Eqv> Eqv for Maybe<P, T> {
    open spec fn eqv(a: Self, b: Self) -> bool { match (a.inner, b.inner) { (None, None) => true, (Some((p, t)), Some((q, u))) => P::eqv(p, q) && T::eqv(t, u), _ => false } }
}
pub proof fn det_Maybe<P: Gram + Eqv, T: Gram + Eqv>() requires det::<P>(), det::<T>() ensures det::<Maybe<P, T>>() {
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] Maybe::<P, T>::gram(c), #[trigger] Maybe::<P, T>::gram(e)) by {
        assert(same(c, e, P::gram(c), P::gram(e)));
        match (P::gram(c), P::gram(e)) { (Some((p, c1, l1)), Some((q, e1, k1))) => { assert(same(c1, e1, T::gram(c1), T::gram(e1))); } _ => {} }
    }
}
impl<L: Eqv, R: Eqv> Eqv for Either<L, R> {
    open spec fn eqv(a: Self, b: Self) -> bool { match (a, b) { (Either::Left(x), Either::Left(y)) => L::eqv(x, y), (Either::Right(x), Either::Right(y)) => R::eqv(x, y), _ => false } }
}
pub proof fn det_Either<L: Gram + Eqv, R: Gram + Eqv>() requires det::<L>(), det::<R>() ensures det::<Either<L, R>>() {
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] Either::<L, R>::gram(c), #[trigger] Either::<L, R>::gram(e)) by {
        assert(same(c, e, L::gram(c), L::gram(e))); assert(same(c, e, R::gram(c), R::gram(e)));
    }
}
pub open spec fn seq_eqv<T: Eqv>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> T::eqv(#[trigger] a[i], b[i]) }
pub open spec fn pun_eqv<T: Eqv, P: Eqv>(a: Pun<T, P>, b: Pun<T, P>) -> bool { seq_eqv(a.vals, b.vals) && seq_eqv(a.puncts, b.puncts) }
pub open spec fn same_list<T: Eqv, P: Eqv>(c: Cur, e: Cur, a: Option<(Pun<T, P>, Cur, bool)>, b: Option<(Pun<T, P>, Cur, bool)>) -> bool {
    match (a, b) { (None, None) => true, (Some((v, n, l)), Some((w, m, k))) => pun_eqv(v, w) && alike(n, m) && c.to(n) && e.to(m) && l == k, _ => false }
}
pub proof fn det_sep_more<T: Gram + Eqv, P: Gram + Eqv>(a: Pun<T, P>, c: Cur, b: Pun<T, P>, e: Cur, l: bool)
    requires det::<T>(), det::<P>(), alike(c, e), pun_eqv(a, b)
    ensures same_list(c, e, sep_more(a, c, l), sep_more(b, e, l))
    decreases c.toks.len() - c.pos
{
    assert(same(c, e, P::gram(c), P::gram(e)));
    match (P::gram(c), P::gram(e)) {
        (Some((p, c1, l1)), Some((q, e1, k1))) => {
            assert(same(c1, e1, T::gram(c1), T::gram(e1)));
            match (T::gram(c1), T::gram(e1)) {
                (Some((t, c2, l2)), Some((u, e2, k2))) => {
                    if c.to(c2) && c2.pos > c.pos && e.to(e2) { det_sep_more(add_val(add_punct(a, p), t), c2, add_val(add_punct(b, q), u), e2, l || l1 || l2); }
                }
                _ => {}
            }
        }
        _ => {}
    }
}
pub proof fn det_sep_list<T: Gram + Eqv, P: Gram + Eqv>(c: Cur, e: Cur)
    requires det::<T>(), det::<P>(), alike(c, e)
    ensures same_list(c, e, sep_list::<T, P>(c), sep_list::<T, P>(e))
{
    assert(same(c, e, T::gram(c), T::gram(e)));
    match (T::gram(c), T::gram(e)) {
        (Some((t, c1, l1)), Some((u, e1, k1))) => { det_sep_more(add_val(pun_none::<T, P>(), t), c1, add_val(pun_none::<T, P>(), u), e1, l1); }
        _ => {}
    }
}
impl<T: Eqv, P: Eqv> Eqv for Separated<T, P> { open spec fn eqv(a: Self, b: Self) -> bool { pun_eqv(a.inner@, b.inner@) } }
impl<T: Eqv, P: Eqv> Eqv for Punctuated<T, P> { open spec fn eqv(a: Self, b: Self) -> bool { pun_eqv(a.inner@, b.inner@) } }
impl<T: Eqv> Eqv for Any<T> { open spec fn eqv(a: Self, b: Self) -> bool { seq_eqv(a.inner@, b.inner@) } }
pub proof fn det_Separated<T: Gram + Eqv, P: Gram + Eqv>() requires det::<T>(), det::<P>(), Separated::<T, P>::wf() ensures det::<Separated<T, P>>() {
    broadcast use punct_view;
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] Separated::<T, P>::gram(c), #[trigger] Separated::<T, P>::gram(e)) by {
        det_sep_list::<T, P>(c, e); sep_list_len::<T, P>(c); sep_list_len::<T, P>(e);
    }
}
pub proof fn det_pun_all<T: Gram + Eqv, P: Gram + Eqv>(a: Pun<T, P>, c: Cur, b: Pun<T, P>, e: Cur, l: bool)
    requires det::<T>(), det::<P>(), Punctuated::<T, P>::wf(), alike(c, e), pun_eqv(a, b), a.vals.len() == a.puncts.len()
    ensures same_list(c, e, pun_all(a, c, l), pun_all(b, e, l)),
        match pun_all(a, c, l) { None => true, Some((p, n, m)) => pun_ok(p) }, match pun_all(b, e, l) { None => true, Some((p, n, m)) => pun_ok(p) }
    decreases c.toks.len() - c.pos
{
    broadcast use end_alike;
    assert(at_end(c) == at_end(e));
    if !at_end(c) {
        assert(same(c, e, T::gram(c), T::gram(e)));
        match (T::gram(c), T::gram(e)) {
            (Some((t, c1, l1)), Some((u, e1, k1))) => {
                assert(at_end(c1) == at_end(e1));
                if !at_end(c1) {
                    assert(same(c1, e1, P::gram(c1), P::gram(e1)));
                    match (P::gram(c1), P::gram(e1)) {
                        (Some((p, c2, l2)), Some((q, e2, k2))) => {
                            assert(c.to(c2) && c2.pos > c.pos);
                            det_pun_all(add_punct(add_val(a, t), p), c2, add_punct(add_val(b, u), q), e2, l || l1 || l2);
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}
pub proof fn det_Punctuated<T: Gram + Eqv, P: Gram + Eqv>() requires det::<T>(), det::<P>(), Punctuated::<T, P>::wf() ensures det::<Punctuated<T, P>>() {
    broadcast use punct_view;
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] Punctuated::<T, P>::gram(c), #[trigger] Punctuated::<T, P>::gram(e)) by {
        det_pun_all::<T, P>(pun_none(), c, pun_none(), e, false);
    }
}
pub proof fn det_any_more<T: Gram + Eqv>(a: Seq<T>, c: Cur, b: Seq<T>, e: Cur, l: bool)
    requires det::<T>(), Any::<T>::wf(), alike(c, e), seq_eqv(a, b), a.len() <= c.pos
    ensures ({ let r = any_more(a, c, l); let s = any_more(b, e, l); seq_eqv(r.0, s.0) && alike(r.1, s.1) && c.to(r.1) && e.to(s.1) && r.2 == s.2 && r.0.len() <= usize::MAX })
    decreases c.toks.len() - c.pos
{
    assert(same(c, e, T::gram(c), T::gram(e)));
    match (T::gram(c), T::gram(e)) {
        (Some((t, c1, l1)), Some((u, e1, k1))) => { assert(c.to(c1) && c1.pos > c.pos); det_any_more(a.push(t), c1, b.push(u), e1, l || l1); }
        _ => {}
    }
}
pub proof fn det_Any<T: Gram + Eqv>() requires det::<T>(), Any::<T>::wf() ensures det::<Any<T>>() {
    broadcast use vec_view;
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] Any::<T>::gram(c), #[trigger] Any::<T>::gram(e)) by { det_any_more::<T>(Seq::empty(), c, Seq::empty(), e, false); }
}
pub open spec fn left_eqv<O: Eqv, R: Eqv>(a: LeftAssoc<O, R>, b: LeftAssoc<O, R>) -> bool decreases a {
    match (a, b) {
        (LeftAssoc::Rhs(x), LeftAssoc::Rhs(y)) => R::eqv(x, y),
        (LeftAssoc::Binary { lhs, op, rhs }, LeftAssoc::Binary { lhs: lhs2, op: op2, rhs: rhs2 }) => left_eqv(*lhs, *lhs2) && O::eqv(op, op2) && R::eqv(rhs, rhs2),
        _ => false,
    }
}
pub open spec fn right_eqv<O: Eqv, L: Eqv>(a: RightAssoc<O, L>, b: RightAssoc<O, L>) -> bool decreases a {
    match (a, b) {
        (RightAssoc::Lhs(x), RightAssoc::Lhs(y)) => L::eqv(x, y),
        (RightAssoc::Binary { lhs, op, rhs }, RightAssoc::Binary { lhs: lhs2, op: op2, rhs: rhs2 }) => L::eqv(lhs, lhs2) && O::eqv(op, op2) && right_eqv(*rhs, *rhs2),
        _ => false,
    }
}
impl<O: Eqv, R: Eqv> Eqv for LeftAssoc<O, R> { open spec fn eqv(a: Self, b: Self) -> bool { left_eqv(a, b) } }
impl<O: Eqv, L: Eqv> Eqv for RightAssoc<O, L> { open spec fn eqv(a: Self, b: Self) -> bool { right_eqv(a, b) } }
pub proof fn left_trees<O: Eqv, R: Eqv>(p: Pun<R, O>, q: Pun<R, O>, n: nat)
    requires pun_eqv(p, q), p.vals.len() == p.puncts.len() + 1, n <= p.puncts.len()
    ensures left_eqv(left_tree(p, n), left_tree(q, n))
    decreases n
{ if n > 0 { left_trees(p, q, (n - 1) as nat); } }
pub proof fn right_trees<O: Eqv, L: Eqv>(p: Pun<L, O>, q: Pun<L, O>, i: nat)
    requires pun_eqv(p, q), p.vals.len() == p.puncts.len() + 1, i <= p.puncts.len()
    ensures right_eqv(right_tree(p, i), right_tree(q, i))
    decreases p.puncts.len() - i
{ if i < p.puncts.len() { right_trees(p, q, i + 1); } }
pub proof fn det_LeftAssoc<O: Gram + Eqv, R: Gram + Eqv>() requires det::<R>(), det::<O>(), LeftAssoc::<O, R>::wf() ensures det::<LeftAssoc<O, R>>() {
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] LeftAssoc::<O, R>::gram(c), #[trigger] LeftAssoc::<O, R>::gram(e)) by {
        det_sep_list::<R, O>(c, e); sep_list_len::<R, O>(c);
        match (sep_list::<R, O>(c), sep_list::<R, O>(e)) { (Some((p, n, l)), Some((q, m, k))) => { left_trees(p, q, p.puncts.len()); } _ => {} }
    }
}
pub proof fn det_RightAssoc<O: Gram + Eqv, L: Gram + Eqv>() requires det::<L>(), det::<O>(), RightAssoc::<O, L>::wf() ensures det::<RightAssoc<O, L>>() {
    assert forall|c: Cur, e: Cur| alike(c, e) implies same(c, e, #[trigger] RightAssoc::<O, L>::gram(c), #[trigger] RightAssoc::<O, L>::gram(e)) by {
        det_sep_list::<L, O>(c, e); sep_list_len::<L, O>(c);
        match (sep_list::<L, O>(c), sep_list::<L, O>(e)) { (Some((p, n, l)), Some((q, m, k))) => { right_trees(p, q, 0); } _ => {} }
    }
}
/// both halves of C13 for a production T: a whole input c parsed to v; what v prints, e, is
/// the same tokens, is parsed as a whole, and gives an equal value
pub proof fn round_trip<T: Gram + Print + Eqv>(c: Cur, e: Cur)
    requires rt::<T>(), det::<T>(), real(c), plain(c.buf), c.pos == 0, e.pos == 0, plain(e.buf),
        T::gram(c) is Some, at_end((T::gram(c)->Some_0).1), !(T::gram(c)->Some_0).2,
        e.toks == (T::gram(c)->Some_0).0.toks()
    ensures (T::gram(c)->Some_0).0.toks() == c.toks,
        ({ let g = T::gram(e); g is Some && at_end((g->Some_0).1) && !(g->Some_0).2 && T::eqv((T::gram(c)->Some_0).0, (g->Some_0).0) })
{
    broadcast use end_is, end_alike;
    let (v, n, l) = T::gram(c)->Some_0;
    assert(rt_is(c, T::gram(c)));
    assert(c.consumed(n) =~= c.toks);
    assert(alike(c, e));
    assert(same(c, e, T::gram(c), T::gram(e)));
    assert(at_end(n) == at_end((T::gram(e)->Some_0).1));
}
