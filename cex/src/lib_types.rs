//! Generated by tools/gen_lib.py: compositions of the library's productions of random form.
#[macro_export]
macro_rules! lib_types { ($m:ident) => { $m! {
    "C06" yes: Maybe<Maybe<C, I>, D>;
    "C06" yes: Maybe<I, Maybe<I, I>>;
    "C06" yes: Maybe<Paren<Empty>, Any<I>>;
    "C06" yes: Maybe<LeftAssoc<P, P>, D>;
    "C06" yes: Maybe<ST2<S, C>, Maybe<P, Maybe<I, S>>>;
    "C06" yes: Maybe<P, Maybe<C, SN2<P, Q>>>;
    "C06" yes: Maybe<Separated<C, I>, Paren<I>>;
    "C06" yes: Maybe<RightAssoc<D, P>, Bracket<LeftAssoc<Q, I>>>;
    "C06" yes: Maybe<D, Either<Eof, S>>;
    "C06" yes: Maybe<I, Maybe<P, P>>;
    "C06" yes: Maybe<Separated<RightAssoc<C, S>, I>, SN2<Eof, Any<D>>>;
    "C06" yes: Maybe<ST3<Maybe<Q, C>, Separated<S, P>, Maybe<P, C>>, ST2<Many<Q>, SN2<NotEof, S>>>;
    "C06" yes: Maybe<LeftAssoc<P, LeftAssoc<I, S>>, Either<Many<ST2<C, I>>, C>>;
    "C07" yes: Paren<Paren<Empty>>;
    "C07" yes: Paren<Paren<Any<I>>>;
    "C07" yes: Bracket<Bracket<Empty>>;
    "C07" yes: Bracket<Bracket<Any<I>>>;
    "C07" yes: Brace<Brace<Empty>>;
    "C07" yes: Brace<Brace<Any<I>>>;
    "C07" yes: Paren<Any<Paren<Empty>>>;
    "C07" yes: Bracket<Maybe<C, Bracket<Empty>>>;
    "C07" yes: Brace<Paren<Brace<Empty>>>;
    "C07" yes: Paren<Maybe<I, D>>;
    "C07" yes: Brace<Separated<Separated<S, Q>, C>>;
    "C07" yes: Brace<Paren<D>>;
    "C07" yes: Paren<RightAssoc<E2<Q, I>, Separated<SN2<S, Empty>, S>>>;
    "C07" yes: Bracket<Punctuated<ST2<RightAssoc<P, P>, Paren<D>>, Either<I, Q>>>;
    "C07" yes: Bracket<Separated<Paren<Either<D, Eof>>, C>>;
    "C07" yes: Brace<E2<Brace<NotEof>, NotEof>>;
    "C07" yes: Brace<Separated<Separated<Q, Q>, I>>;
    "C07" yes: Bracket<Separated<Q, Separated<Q, Q>>>;
    "C07" yes: Brace<Brace<P>>;
    "C07" yes: Bracket<Any<E2<D, C>>>;
    "C07" yes: Paren<Maybe<C, Q>>;
    "C07" yes: Brace<E2<RightAssoc<I, C>, Any<D>>>;
    "C07" yes: Bracket<Brace<Either<Empty, Empty>>>;
    "C07" yes: Brace<Maybe<Paren<Brace<Q>>, Any<Bracket<C>>>>;
    "C07" yes: Bracket<Brace<ST2<Any<D>, Either<Q, I>>>>;
    "C07" yes: Bracket<Bracket<Maybe<D, I>>>;
    "C08" yes: Separated<Maybe<C, I>, P>;
    "C08" yes: Separated<Paren<Empty>, Any<C>>;
    "C08" yes: Punctuated<Separated<I, P>, C>;
    "C08" yes: Many<Separated<I, C>>;
    "C08" yes: Separated<Separated<Separated<P, Q>, Q>, D>;
    "C08" yes: Punctuated<Paren<Empty>, C>;
    "C08" yes: Many<Brace<S>>;
    "C08" yes: Separated<SN2<S, I>, I>;
    "C08" yes: Punctuated<Either<D, E2<P, D>>, C>;
    "C08" yes: Many<ST3<D, D, D>>;
    "C08" yes: Separated<Paren<LeftAssoc<Q, D>>, Either<Q, Q>>;
    "C08" yes: Punctuated<Either<P, ST2<S, I>>, ST2<Q, D>>;
    "C08" yes: Many<Separated<C, ST2<Eof, D>>>;
    "C08" yes: Separated<P, LeftAssoc<C, C>>;
    "C08" yes: Punctuated<Bracket<Bracket<E2<Empty, Q>>>, Separated<D, D>>;
    "C08" yes: Many<ST2<Bracket<P>, Maybe<Q, I>>>;
    "C08" yes: Separated<P, RightAssoc<P, D>>;
    "C08" yes: Punctuated<Brace<C>, SN2<S, D>>;
    "C08" yes: Many<LeftAssoc<E2<C, D>, Bracket<E2<C, NotEof>>>>;
    "C08" yes: Separated<LeftAssoc<Separated<P, C>, LeftAssoc<C, LeftAssoc<D, C>>>, E2<SN2<I, Q>, C>>;
    "C08" yes: Punctuated<I, Either<Separated<I, P>, Paren<C>>>;
    "C08" yes: Many<E2<RightAssoc<C, LeftAssoc<D, Q>>, Either<Either<S, D>, Either<I, C>>>>;
    "C11" yes: LeftAssoc<Any<C>, I>;
    "C11" yes: RightAssoc<Any<C>, I>;
    "C11" yes: LeftAssoc<Maybe<C, P>, I>;
    "C11" yes: RightAssoc<Maybe<C, P>, I>;
    "C11" yes: LeftAssoc<P, LeftAssoc<C, I>>;
    "C11" yes: RightAssoc<P, RightAssoc<C, I>>;
    "C11" yes: LeftAssoc<P, RightAssoc<C, I>>;
    "C11" yes: RightAssoc<Separated<SN3<S, I, S>, Q>, Brace<RightAssoc<I, Separated<P, P>>>>;
    "C11" yes: RightAssoc<S, Separated<I, C>>;
    "C11" yes: RightAssoc<E2<S, C>, Paren<Separated<D, P>>>;
    "C11" yes: RightAssoc<P, RightAssoc<I, I>>;
    "C11" yes: LeftAssoc<S, Separated<C, Q>>;
    "C11" yes: LeftAssoc<ST2<S, P>, Bracket<LeftAssoc<D, C>>>;
    "C11" yes: RightAssoc<P, LeftAssoc<D, S>>;
    "C11" yes: RightAssoc<S, ST2<S, P>>;
    "C11" yes: LeftAssoc<S, Bracket<Q>>;
    "C11" yes: LeftAssoc<C, ST3<C, Empty, D>>;
    "C12" yes: Any<Paren<Any<I>>>;
    "C12" yes: Any<SN2<C, Any<I>>>;
    "C12" yes: Any<Separated<E2<Q, S>, I>>;
    "C12" yes: Any<Either<C, D>>;
    "C12" yes: Any<ST3<LeftAssoc<D, I>, Q, Maybe<P, S>>>;
    "C12" yes: Any<Bracket<RightAssoc<D, D>>>;
    "C12" yes: Any<Either<P, Either<D, I>>>;
    "C12" yes: Any<Paren<Many<S>>>;
    "C12" yes: Any<Separated<Either<P, P>, S>>;
    "C12" yes: Any<Paren<Maybe<S, Q>>>;
    "C12" yes: Any<E2<LeftAssoc<S, P>, Bracket<I>>>;
    "C12" yes: Any<Paren<Punctuated<Brace<D>, Q>>>;
    "C21" no: Either<Either<Separated<Q, I>, Any<Q>>, Punctuated<ST3<I, I, C>, P>>;
    "C21" no: Either<ST2<RightAssoc<I, I>, Paren<D>>, I>;
    "C21" no: Either<Any<Paren<Q>>, Maybe<I, SN2<C, Empty>>>;
    "C21" no: Either<Punctuated<I, S>, D>;
    "C21" no: Either<E2<Paren<P>, E2<C, S>>, Maybe<SN2<P, D>, LeftAssoc<I, P>>>;
    "C21" no: Either<D, Any<D>>;
    "C21" no: Either<RightAssoc<C, P>, Maybe<Q, I>>;
    "C21" no: Either<Brace<Maybe<S, Empty>>, C>;
    "C21" no: Either<E2<Brace<NotEof>, RightAssoc<Q, P>>, E2<E2<Empty, S>, Q>>;
    "C21" no: Either<Maybe<Empty, C>, D>;
    "C03" no: Either<E2<Brace<Bracket<I>>, Punctuated<RightAssoc<D, I>, D>>, I>;
    "C03" no: Either<Maybe<E2<LeftAssoc<P, D>, Separated<Q, I>>, Either<S, SN3<S, P, S>>>, SN3<Q, Any<Bracket<Q>>, Separated<S, P>>>;
    "C03" no: Either<Maybe<E2<Q, S>, Either<Any<Q>, Maybe<P, NotEof>>>, Either<Many<ST2<S, Q>>, RightAssoc<I, S>>>;
    "C03" no: Either<D, Punctuated<ST2<Separated<Q, I>, Any<D>>, E2<D, C>>>;
    "C03" no: Either<Separated<SN2<Q, Eof>, Q>, Bracket<E2<P, P>>>;
    "C03" no: Either<RightAssoc<P, I>, ST3<Any<Q>, Either<D, P>, E2<P, Eof>>>;
    "C03" no: Either<Either<RightAssoc<S, C>, E2<Empty, P>>, Either<Q, Brace<S>>>;
    "C03" no: Either<E2<Empty, C>, P>;
    "C03" no: Either<Any<D>, E2<Separated<P, S>, Any<P>>>;
    "C03" no: Either<Brace<Separated<P, D>>, Either<Paren<D>, E2<Eof, I>>>;
    "C17" no: E2<Bracket<NotEof>, ST2<C, Eof>>;
    "C17" no: E2<Maybe<Q, E2<P, Q>>, ST2<Empty, Paren<Empty>>>;
    "C17" no: Any<Bracket<E2<P, Empty>>>;
    "C17" no: ST3<Q, Empty, Either<Any<C>, Brace<C>>>;
    "C17" no: E2<Any<Paren<I>>, Eof>;
    "C17" no: Maybe<C, Maybe<C, Empty>>;
    "C17" no: SN3<Paren<P>, NotEof, Maybe<S, C>>;
    "C17" no: E2<Any<D>, SN3<Empty, I, Empty>>;
    "C17" no: Any<Either<Brace<Empty>, D>>;
    "C17" no: E2<SN2<S, Eof>, Q>;
} } }
pub use lib_types;
