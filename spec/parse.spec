#spec Empty
impl Gram for Empty {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { Some((Empty, c, false)) }
    open spec fn wf() -> bool { true }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { false }
    //@end
}
#spec Eof
impl Gram for Eof {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { if at_end(c) { Some((Eof, c, false)) } else { None } }
    open spec fn wf() -> bool { true }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { e.span == here(c) }
    //@end
}
#spec NotEof
impl Gram for NotEof {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { if at_end(c) { None } else { Some((NotEof, c, false)) } }
    open spec fn wf() -> bool { true }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { e.span == here(c) }
    //@end
}
#fn Parse for Empty::parse
#fn Parse for Eof::parse
#fn Parse for NotEof::parse

#spec Paren Bracket Brace
//@each NAME,name,D in Paren,parens,0;Bracket,brackets,1;Brace,braces,2
impl<T: Gram> Gram for NAME<T> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match group_at(c, D) {
            None => None,
            Some(g) => match T::gram(g.inner) {
                None => None,
                Some((v, n, l)) => Some((NAME { name: delim_NAME(g.span), inner: v }, g.after, l || !at_end(n))),
            },
        }
    }
    open spec fn wf() -> bool { T::wf() }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool {
        match group_at(c, D) { None => e == no_group(c, D), Some(g) => T::fails(g.inner, e) }
    }
    //@end
}
//@end
#fn Parse for Paren::parse
prologue:
    broadcast use group_moves, delim_Paren_ext;
#fn Parse for Bracket::parse
prologue:
    broadcast use group_moves, delim_Bracket_ext;
#fn Parse for Brace::parse
prologue:
    broadcast use group_moves, delim_Brace_ext;

#spec Maybe
impl<P: Gram, T: Gram> Gram for Maybe<P, T> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match P::gram(c) {
            None => Some((Maybe { inner: None }, c, false)),
            Some((p, c1, l1)) => match T::gram(c1) {
                None => None,
                Some((t, c2, l2)) => Some((Maybe { inner: Some((p, t)) }, c2, l1 || l2)),
            },
        }
    }
    open spec fn wf() -> bool { P::wf() && T::wf() }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { match P::gram(c) { None => false, Some((p, c1, l1)) => T::fails(c1, e) } }
    //@end
}
#fn Parse for Maybe::parse
#fn Default for Maybe::default
extra:
    open spec fn is_default(r: Self) -> bool { r == (Maybe::<P, T> { inner: None }) }
#fn Maybe::new
ret: r
contract:
    ensures r == (Maybe::<P, T> { inner: None })

#spec Separated
/// (P T)* as long as P parses; after a P a T is mandatory
pub open spec fn sep_more<T: Gram, P: Gram>(acc: Pun<T, P>, c: Cur, l: bool) -> Option<(Pun<T, P>, Cur, bool)>
    decreases c.toks.len() - c.pos
{
    match P::gram(c) {
        None => Some((acc, c, l)),
        Some((p, c1, l1)) => match T::gram(c1) {
            None => None,
            Some((t, c2, l2)) => if c.to(c2) && c2.pos > c.pos { sep_more(add_val(add_punct(acc, p), t), c2, l || l1 || l2) } else { None },
        },
    }
}
pub open spec fn sep_list<T: Gram, P: Gram>(c: Cur) -> Option<(Pun<T, P>, Cur, bool)> {
    match T::gram(c) { None => None, Some((t, c1, l1)) => sep_more(add_val(pun_none::<T, P>(), t), c1, l1) }
}
pub open spec fn as_sep<T, P>(x: Option<(Pun<T, P>, Cur, bool)>) -> Option<(Separated<T, P>, Cur, bool)> {
    match x { None => None, Some((p, n, l)) => Some((Separated { inner: punct_of(p) }, n, l)) }
}
impl<T, P> Separated<T, P> {
    /// the representation invariant: not empty, no trailing separator
    pub open spec fn inv(&self) -> bool { self.inner@.vals.len() == self.inner@.puncts.len() + 1 }
}
impl<T: Gram, P: Gram> Gram for Separated<T, P> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { as_sep(sep_list::<T, P>(c)) }
    open spec fn wf() -> bool { T::wf() && P::wf() && (prog::<T>() || prog::<P>()) }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { sep_fails::<T, P>(c, e) }
    //@end
}
pub open spec fn sep_inv<T: Gram, P: Gram>(o: St, acc: Pun<T, P>, s: St, l: bool) -> bool {
    s.left == (o.left || l) && sep_list::<T, P>(o.cur) == sep_more::<T, P>(acc, s.cur, l)
}
pub open spec fn sep_done<T: Gram, P: Gram>(o: St, acc: Pun<T, P>, s: St, l: bool) -> bool {
    s.left == (o.left || l) && sep_list::<T, P>(o.cur) == Some((acc, s.cur, l))
}
//@if ERR
/// some item of the list fails with e
pub open spec fn sep_fails<T: Gram, P: Gram>(c: Cur, e: ErrV) -> bool { exists|d: Cur| #[trigger] T::fails(d, e) && c.to(d) }
//@end
#fn Parse for Separated::parse
prologue:
    broadcast use punct_ext;
//@if SEPINV
    broadcast use punct_view;
    proof { sep_list_len::<T, P>(old({0})@.cur); }
contract:
    ensures r is Ok ==> (r->Ok_0).inv()
//@end
loop 0:
    invariant_except_break
        Self::wf(), old({0})@.cur.to({input}@.cur), {inner}@.vals.len() == {inner}@.puncts.len() + 1,
        sep_inv::<T, P>(old({0})@, {inner}@, {input}@, false) || sep_inv::<T, P>(old({0})@, {inner}@, {input}@, true),
    ensures
        old({0})@.cur.to({input}@.cur),
        sep_done::<T, P>(old({0})@, {inner}@, {input}@, false) || sep_done::<T, P>(old({0})@, {inner}@, {input}@, true),
    decreases {input}@.cur.toks.len() - {input}@.cur.pos

#spec Any
pub open spec fn any_more<T: Gram>(acc: Seq<T>, c: Cur, l: bool) -> (Seq<T>, Cur, bool)
    decreases c.toks.len() - c.pos
{
    match T::gram(c) {
        None => (acc, c, l),
        Some((t, c1, l1)) => if c.to(c1) && c1.pos > c.pos { any_more(acc.push(t), c1, l || l1) } else { arbitrary() },
    }
}
pub open spec fn any_inv<T: Gram>(o: St, acc: Seq<T>, s: St, l: bool) -> bool {
    s.left == (o.left || l) && any_more::<T>(Seq::empty(), o.cur, false) == any_more::<T>(acc, s.cur, l)
}
pub open spec fn any_done<T: Gram>(o: St, acc: Seq<T>, s: St, l: bool) -> bool {
    s.left == (o.left || l) && any_more::<T>(Seq::empty(), o.cur, false) == (acc, s.cur, l)
}
impl<T: Gram> Gram for Any<T> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        let r = any_more::<T>(Seq::empty(), c, false);
        Some((Any { inner: vec_of(r.0) }, r.1, r.2))
    }
    open spec fn wf() -> bool { T::wf() && prog::<T>() }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { false }
    //@end
}
#fn Parse for Any::parse
prologue:
    broadcast use vec_ext;
loop 0:
    invariant_except_break
        Self::wf(), old({0})@.cur.to({input}@.cur),
        any_inv::<T>(old({0})@, {inner}@, {input}@, false) || any_inv::<T>(old({0})@, {inner}@, {input}@, true),
    ensures
        old({0})@.cur.to({input}@.cur),
        any_done::<T>(old({0})@, {inner}@, {input}@, false) || any_done::<T>(old({0})@, {inner}@, {input}@, true),
    decreases {input}@.cur.toks.len() - {input}@.cur.pos

#spec Punctuated
impl<T: Gram, P: Gram> Gram for Punctuated<T, P> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match pun_all::<T, P>(pun_none(), c, false) { None => None, Some((p, n, l)) => Some((Punctuated { inner: punct_of(p) }, n, l)) }
    }
    open spec fn wf() -> bool { T::wf() && P::wf() && (prog::<T>() || prog::<P>()) }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { pun_all_fails::<T, P>(c, e) }
    //@end
}
#fn Parse for Punctuated::parse
prologue:
    broadcast use punct_ext;

#fn Separated::len
ret: r
contract:
    requires self.inv()
    ensures r@ == self.inner@.vals.len()
#fn Separated::into_pairs
ret: r
contract:
    ensures r@ == pairs_of(self.inner@)
#fn Separated::into_first_rest
ret: r
contract:
    requires self.inv()
    ensures r.0 == self.inner@.vals[0], r.1@ =~= rest_after(self.inner@, self.inner@.puncts.len())
prologue:
    broadcast use pairs_step, pairs_all;
loop 0:
    invariant_except_break
        self.inv(), 1 <= {it}@.len() < self.inner@.vals.len(), {it}@ == pairs_from(self.inner@, self.inner@.vals.len() - {it}@.len()),
        {pairs}@ =~= rest_after(self.inner@, (self.inner@.vals.len() - {it}@.len() - 1) as nat), {punct} == self.inner@.puncts[self.inner@.vals.len() - {it}@.len() - 1],
    ensures
        {pairs}@ =~= rest_after(self.inner@, self.inner@.puncts.len()),
    decreases {it}@.len()
#fn Separated::into_last_rest
ret: r
contract:
    requires self.inv()
    ensures r.0 == self.inner@.vals.last(), r.1@ =~= rest_before(self.inner@, self.inner@.puncts.len())
prologue:
    broadcast use pairs_step, pairs_all;
loop 0:
    invariant
        self.inv(), 1 <= {it}@.len() <= self.inner@.vals.len(), {it}@ == pairs_from(self.inner@, self.inner@.vals.len() - {it}@.len()),
        {pairs}@ =~= rest_before(self.inner@, (self.inner@.vals.len() - {it}@.len()) as nat),
    ensures false
    decreases {it}@.len()
#spec SepParts
/// the first n (separator, following item) pairs / (item, following separator) pairs
pub open spec fn rest_after<T, P>(p: Pun<T, P>, n: nat) -> Seq<(P, T)> { Seq::new(n, |i: int| (p.puncts[i], p.vals[i + 1])) }
pub open spec fn rest_before<T, P>(p: Pun<T, P>, n: nat) -> Seq<(T, P)> { Seq::new(n, |i: int| (p.vals[i], p.puncts[i])) }

#spec Either
impl<L: Gram, R: Gram> Gram for Either<L, R> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match L::gram(c) {
            Some((v, n, l)) => Some((Either::Left(v), n, l)),
            None => match R::gram(c) { Some((v, n, l)) => Some((Either::Right(v), n, l)), None => None },
        }
    }
    open spec fn wf() -> bool { L::wf() && R::wf() }
    //@if ERR
    /// the error of the side that got further
    open spec fn fails(c: Cur, e: ErrV) -> bool {
        (L::fails(c, e) && exists|f: ErrV| #[trigger] R::fails(c, f) && lc_le(f.span.end, e.span.end))
        || (R::fails(c, e) && exists|f: ErrV| #[trigger] L::fails(c, f) && lc_le(f.span.end, e.span.end))
    }
    //@end
}
#fn Parse for Either::parse

#fn util::try_parse_variant
ret: r
contract:
    requires
        old({0})@.cur.ok(),
        forall|b: &mut ParseBuffer| (*b)@ == (St { cur: old({0})@.cur, left: false }) ==> parser.requires((b,)),
        forall|b: &mut ParseBuffer, x: Result<T>| #[trigger] parser.ensures((b,), x) && (*b)@ == (St { cur: old({0})@.cur, left: false }) && x is Ok ==> old({0})@.cur.to((*final(b))@.cur),
    ensures
        match r {
            Ok(v) => exists|b: &mut ParseBuffer| #[trigger] parser.ensures((b,), Ok(v)) && (*b)@ == (St { cur: old({0})@.cur, left: false })
                && final(input)@ == (St { cur: (*final(b))@.cur, left: old({0})@.left || (*final(b))@.left }),
            Err(e) => final(input)@ == old({0})@ && exists|b: &mut ParseBuffer, f: Error| #[trigger] parser.ensures((b,), Err(f))
                && (*b)@ == (St { cur: old({0})@.cur, left: false })
                //@if ERR
                && match error_acc {
                    None => e == f,
                    Some(a) => (e == a || e == f) && lc_le(a@.span.end, e@.span.end) && lc_le(f@.span.end, e@.span.end),
                }
                //@end
                ,
        }

#spec Assoc
/// the left-nested tree over the first n operators of a list
pub open spec fn left_tree<O, R>(p: Pun<R, O>, n: nat) -> LeftAssoc<O, R>
    decreases n
{
    if n == 0 { LeftAssoc::Rhs(p.vals[0]) }
    else { LeftAssoc::Binary { lhs: Box::new(left_tree(p, (n - 1) as nat)), op: p.puncts[n - 1], rhs: p.vals[n as int] } }
}
/// the right-nested tree over the operators from i on
pub open spec fn right_tree<O, L>(p: Pun<L, O>, i: nat) -> RightAssoc<O, L>
    decreases p.puncts.len() - i
{
    if i >= p.puncts.len() { RightAssoc::Lhs(p.vals.last()) }
    else { RightAssoc::Binary { lhs: p.vals[i as int], op: p.puncts[i as int], rhs: Box::new(right_tree(p, i + 1)) } }
}
impl<O: Gram, R: Gram> Gram for LeftAssoc<O, R> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match sep_list::<R, O>(c) { None => None, Some((p, n, l)) => Some((left_tree(p, p.puncts.len()), n, l)) }
    }
    open spec fn wf() -> bool { Separated::<R, O>::wf() }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { sep_fails::<R, O>(c, e) }
    //@end
}
impl<O: Gram, L: Gram> Gram for RightAssoc<O, L> {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match sep_list::<L, O>(c) { None => None, Some((p, n, l)) => Some((right_tree(p, 0), n, l)) }
    }
    open spec fn wf() -> bool { Separated::<L, O>::wf() }
    //@if ERR
    open spec fn fails(c: Cur, e: ErrV) -> bool { sep_fails::<L, O>(c, e) }
    //@end
}
/// a parsed list has one separator fewer than items
pub proof fn sep_more_len<T: Gram, P: Gram>(acc: Pun<T, P>, c: Cur, l: bool)
    requires acc.vals.len() == acc.puncts.len() + 1, Separated::<T, P>::wf()
    ensures match sep_more(acc, c, l) { None => true, Some((p, n, m)) => p.vals.len() == p.puncts.len() + 1 }
    decreases c.toks.len() - c.pos
{
    match P::gram(c) {
        None => {}
        Some((p, c1, l1)) => match T::gram(c1) {
            None => {}
            Some((t, c2, l2)) => { if c.to(c2) && c2.pos > c.pos { sep_more_len(add_val(add_punct(acc, p), t), c2, l || l1 || l2); } }
        }
    }
}
pub open spec fn list_at<T: Gram, P: Gram>(c: Cur) -> Pun<T, P> { (sep_list::<T, P>(c)->Some_0).0 }
/// the rest-iterator it has n operators still to come out of p (walking forwards / backwards)
pub open spec fn left_inv<O, R>(p: Pun<R, O>, todo: Seq<(O, R)>, e: LeftAssoc<O, R>) -> bool {
    let k = p.puncts.len();
    &&& p.vals.len() == k + 1 && todo.len() <= k
    &&& todo =~= rest_after(p, k).skip((k - todo.len()) as int)
    &&& e == left_tree(p, (k - todo.len()) as nat)
}
pub open spec fn right_inv<O, L>(p: Pun<L, O>, todo: Seq<(L, O)>, e: RightAssoc<O, L>) -> bool {
    let k = p.puncts.len();
    &&& p.vals.len() == k + 1 && todo.len() <= k
    &&& todo =~= rest_before(p, todo.len()).reverse()
    &&& e == right_tree(p, todo.len())
}
pub proof fn sep_list_len<T: Gram, P: Gram>(c: Cur)
    requires Separated::<T, P>::wf()
    ensures match sep_list::<T, P>(c) { None => true, Some((p, n, m)) => p.vals.len() == p.puncts.len() + 1 }
{
    match T::gram(c) { None => {}, Some((t, c1, l1)) => { sep_more_len::<T, P>(add_val(pun_none::<T, P>(), t), c1, l1); } }
}
pub broadcast axiom fn box_new_is<T>(v: T) ensures #[trigger] box_of(v) == Box::new(v);
#fn Parse for LeftAssoc::parse
prologue:
    broadcast use punct_ext, punct_view;
    proof { sep_list_len::<R, O>(old({0})@.cur); }
loop 0:
    invariant left_inv(list_at::<R, O>(old({0})@.cur), {it}@, {expr}),
    ensures {expr} == left_tree(list_at::<R, O>(old({0})@.cur), list_at::<R, O>(old({0})@.cur).puncts.len()),
    decreases {it}@.len()
#fn Parse for RightAssoc::parse
prologue:
    broadcast use punct_ext, punct_view;
    proof { sep_list_len::<L, O>(old({0})@.cur); }
loop 0:
    invariant right_inv(list_at::<L, O>(old({0})@.cur), {it}@, {expr}),
    ensures {expr} == right_tree(list_at::<L, O>(old({0})@.cur), 0),
    decreases {it}@.len()
#fn util::chain_error
ret: r
contract:
    ensures true,
    //@if ERR
    r@.span == {0}@.span, contains(r@.msg, {0}@.msg), contains(r@.msg, {2}@), contains(r@.msg, {3}.disp()), {1}@.len() > 0 ==> contains(r@.msg, {1}@),
    //@end
prologue:
    //@if ERR
    broadcast use contains_add, contains_self;
    //@end
