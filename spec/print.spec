#spec PrintEmpty
//@each NAME in Empty;Eof;NotEof
impl Print for NAME { open spec fn toks(&self) -> Seq<TT> { Seq::empty() } }
//@end
//@each NAME,D in Paren,0;Bracket,1;Brace,2
impl<T: Print> Print for NAME<T> { open spec fn toks(&self) -> Seq<TT> { seq![TT::Group(D, self.inner.toks())] } }
//@end
impl<P: Print, T: Print> Print for Maybe<P, T> {
    open spec fn toks(&self) -> Seq<TT> { match self.inner { None => Seq::empty(), Some((p, t)) => p.toks() + t.toks() } }
}
impl<T: Print, P: Print> Print for Separated<T, P> { open spec fn toks(&self) -> Seq<TT> { self.inner.toks() } }
impl<T: Print, P: Print> Print for Punctuated<T, P> { open spec fn toks(&self) -> Seq<TT> { self.inner.toks() } }
impl<T: Print> Print for Any<T> { open spec fn toks(&self) -> Seq<TT> { cat(self.inner@) } }
impl<L: Print, R: Print> Print for Either<L, R> {
    open spec fn toks(&self) -> Seq<TT> { match self { Either::Left(x) => x.toks(), Either::Right(x) => x.toks() } }
}
pub open spec fn left_toks<O: Print, R: Print>(t: LeftAssoc<O, R>) -> Seq<TT> decreases t {
    match t { LeftAssoc::Rhs(r) => r.toks(), LeftAssoc::Binary { lhs, op, rhs } => left_toks(*lhs) + op.toks() + rhs.toks() }
}
pub open spec fn right_toks<O: Print, L: Print>(t: RightAssoc<O, L>) -> Seq<TT> decreases t {
    match t { RightAssoc::Lhs(r) => r.toks(), RightAssoc::Binary { lhs, op, rhs } => lhs.toks() + op.toks() + right_toks(*rhs) }
}
impl<O: Print, R: Print> Print for LeftAssoc<O, R> { open spec fn toks(&self) -> Seq<TT> { left_toks(*self) } }
impl<O: Print, R: Print> Print for RightAssoc<O, R> { open spec fn toks(&self) -> Seq<TT> { right_toks(*self) } }
#fn ToTokens for Empty::to_tokens
prologue:
    broadcast use cat_none;
#fn ToTokens for Eof::to_tokens
prologue:
    broadcast use cat_none;
#fn ToTokens for NotEof::to_tokens
prologue:
    broadcast use cat_none;
#fn ToTokens for Paren::to_tokens
prologue:
    broadcast use cat_one;
    proof { assert forall|a: Seq<TT>| Seq::<TT>::empty() + a == a by { assert(Seq::<TT>::empty() + a =~= a); } }
#fn ToTokens for Bracket::to_tokens
prologue:
    broadcast use cat_one;
    proof { assert forall|a: Seq<TT>| Seq::<TT>::empty() + a == a by { assert(Seq::<TT>::empty() + a =~= a); } }
#fn ToTokens for Brace::to_tokens
prologue:
    broadcast use cat_one;
    proof { assert forall|a: Seq<TT>| Seq::<TT>::empty() + a == a by { assert(Seq::<TT>::empty() + a =~= a); } }
#fn ToTokens for Maybe::to_tokens
prologue:
    broadcast use cat_add, cat_none;
#fn ToTokens for Separated::to_tokens
#fn ToTokens for Punctuated::to_tokens
#fn ToTokens for Any::to_tokens
prologue:
    broadcast use cat_refs;
#fn ToTokens for LeftAssoc::to_tokens
mode: inherent
contract:
    ensures final({1})@ == old({1})@ + left_toks(*self)
    decreases self
prologue:
    broadcast use cat_add;
#fn ToTokens for RightAssoc::to_tokens
mode: inherent
contract:
    ensures final({1})@ == old({1})@ + right_toks(*self)
    decreases self
prologue:
    broadcast use cat_add;
#fn ToTokens for Either::to_tokens
