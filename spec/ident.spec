#opts {"eq": true, "consts": ["KEYWORDS"], "ren": {"KEYWORDS": "vx_KEYWORDS", "into": "tr_into", "from": "tr_from", "try_from": "tr_try_from", "default": "tr_default", "eq": "vx_eq", "cmp": "vx_cmp", "partial_cmp": "vx_partial_cmp", "hash": "vx_hash", "clone": "vx_clone", "as_ref": "vx_as_ref", "iter": "vx_iter"}}
//@if IDENT
#spec CustomIdent
impl<K: KeywordList> CustomIdent<K> {
    /// no keyword
    pub open spec fn ok(&self) -> bool { is_word(self.ident.text()) && !K::kws().contains(self.ident.text()) }
}
impl<K> Print for CustomIdent<K> { open spec fn toks(&self) -> Seq<TT> { seq![ident_tok(self.ident.text(), self.ident.sp())] } }
pub open spec fn marker<K: Default>() -> K { choose|k: K| K::is_default(k) }
impl<K: Default + KeywordList> Gram for CustomIdent<K> {
    /// any word that is not listed
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match ident_at(c) { Some((i, n)) => if K::kws().contains(i.text()) { None } else { Some((CustomIdent { ident: i, marker: marker::<K>() }, n, false)) }, None => None }
    }
    /// every default marker is the same
    open spec fn wf() -> bool { forall|a: K, b: K| K::is_default(a) && K::is_default(b) ==> a == b }
    /// a listed word is reported where it stands
    open spec fn fails(c: Cur, e: ErrV) -> bool { match ident_at(c) { Some((i, n)) => e.span == i.sp(), None => e == no_ident(c) } }
}
impl Default for AllowAll { open spec fn is_default(r: Self) -> bool { true } fn tr_default() -> (r: Self) { AllowAll } }
pub proof fn same_marker<K: Default>(a: K) requires forall|a: K, b: K| K::is_default(a) && K::is_default(b) ==> a == b, K::is_default(a) ensures a == marker::<K>() {}
/// printing and parsing again
pub proof fn round_trip_ident<K: Default + KeywordList>(x: CustomIdent<K>, c: Cur)
    requires starts(c, x.toks()), x.ok()
    ensures CustomIdent::<K>::gram(c) is Some, (CustomIdent::<K>::gram(c)->Some_0).0.ident.text() == x.ident.text(), (CustomIdent::<K>::gram(c)->Some_0).0.ident.sp() == x.ident.sp(),
        (CustomIdent::<K>::gram(c)->Some_0).1 == past(c, x.toks()), (CustomIdent::<K>::gram(c)->Some_0).0.ok()
{ read_ident(c, x.ident.text(), x.ident.sp()); }
/// Word accepts every word
pub proof fn word_accepts(c: Cur) ensures Word::gram(c) is Some == ident_at(c) is Some { assert(AllowAll::kws().len() == 0); }
#fn KeywordList for AllowAll::KEYWORDS
extra:
    open spec fn kws() -> Seq<Seq<char>> { Seq::empty() }
#fn CustomIdent::span
contract:
    ensures r@ == self.ident.sp()
#fn CustomIdent::set_span
contract:
    ensures final(self).ident.text() == old(self).ident.text(), final(self).ident.sp() == {1}@, final(self).marker == old(self).marker
#fn CustomIdent::token
contract:
    ensures r.text() == self.ident.text(), r.sp() == self.ident.sp()
#fn PartialEq<T> for CustomIdent::eq
extra:
    open spec fn eq_v(&self, o: &T) -> bool { self.ident.text() == o.aref()@ }
#fn TryFrom<Ident> for CustomIdent::try_from
extra:
    open spec fn try_rel(x: Ident, r: Result<Self>) -> bool {
        match r { Ok(y) => !K::kws().contains(x.text()) && y.ident == x && K::is_default(y.marker), Err(e) => K::kws().contains(x.text()) && e@.span == x.sp() }
    }
loop 0:
    invariant_except_break
        {it}@.len() <= K::kws().len(), forall|i: int| 0 <= i < {it}@.len() ==> (*#[trigger] ({it}@[i]))@ == K::kws()[K::kws().len() - {it}@.len() + i],
        forall|i: int| 0 <= i < K::kws().len() - {it}@.len() ==> #[trigger] K::kws()[i] != {0}.text(), !vx_found
    ensures vx_found == K::kws().contains({0}.text())
    decreases {it}@.len()
#fn From<CustomIdent<K>> for Ident::from
extra:
    open spec fn from_rel(x: CustomIdent<K>, r: Self) -> bool { r == x.ident }
#fn Parse for CustomIdent::parse
prologue:
    broadcast use ident_moves;
    proof { assert forall|a: K| Self::wf() && K::is_default(a) implies a == marker::<K>() by { same_marker(a); } }
#fn ToTokens for CustomIdent::to_tokens
#fn Word::new
contract:
    requires is_word({0}@)
    ensures r.ident.text() == {0}@, r.ident.sp() == {1}@, r.ok()
#fn ast::ident
contract:
    requires is_word({0}@)
    ensures r.text() == {0}@, r.sp() == call_site_v()
#fn ast::word
contract:
    requires is_word({0}@)
    ensures r.ident.text() == {0}@, r.ident.sp() == call_site_v()
//@end
//@if KWA
//@each MODULE,NAME,TEXT in kw_a,Foo,foo;kw_a,Bar,bar;kw_a,Function,fn;kw_a,This,self;kw_a,Fo,fo;kw_a,Upper,FOO;kw_a,Underscore,_
#spec NAME
impl Print for NAME { open spec fn toks(&self) -> Seq<TT> { seq![ident_tok("TEXT"@, self.span@)] } }
impl Gram for NAME {
    /// exactly this word
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { match ident_at(c) { Some((i, n)) => if i.text() == "TEXT"@ { Some((NAME { span: span_of(i.sp()) }, n, false)) } else { None }, None => None } }
    open spec fn wf() -> bool { true }
    /// another word is reported where it stands
    open spec fn fails(c: Cur, e: ErrV) -> bool { match ident_at(c) { Some((i, n)) => e.span == i.sp(), None => e == no_ident(c) } }
}
/// printing and parsing again
pub proof fn round_trip_NAME(x: NAME, c: Cur)
    requires starts(c, x.toks())
    ensures NAME::gram(c) is Some, (NAME::gram(c)->Some_0).0.span@ == x.span@, (NAME::gram(c)->Some_0).1 == past(c, x.toks())
{ broadcast use span_back; fixture_words(); read_ident(c, "TEXT"@, x.span@); }
#fn NAME::new
module: kws::MODULE
contract:
    ensures r.span == {0}
#fn NAME::as_str
module: kws::MODULE
contract:
    ensures r@ == "TEXT"@
#fn NAME::span
module: kws::MODULE
contract:
    ensures r == self.span
#fn NAME::set_span
module: kws::MODULE
contract:
    ensures final(self).span == {1}
#fn NAME::token
module: kws::MODULE
contract:
    ensures r.text() == "TEXT"@, r.sp() == self.span@
prologue:
    proof { fixture_words(); }
#fn Default for NAME::default
module: kws::MODULE
extra:
    open spec fn is_default(r: Self) -> bool { r.span@ == call_site_v() }
#fn From<NAME> for TokenTree::from
module: kws::MODULE
extra:
    open spec fn from_rel(x: NAME, r: Self) -> bool { r.tt() == x.toks() }
#fn AsRef<str> for NAME::as_ref
module: kws::MODULE
mode: free as_ref_NAME
contract:
    ensures r@ == "TEXT"@
#fn PartialEq<T> for NAME::eq
module: kws::MODULE
extra:
    open spec fn eq_v(&self, o: &T) -> bool { "TEXT"@ == o.aref()@ }
#fn Parse for NAME::parse
module: kws::MODULE
prologue:
    broadcast use ident_moves, span_back;
#fn ToTokens for NAME::to_tokens
module: kws::MODULE
//@end
#spec Wordskw_a
pub axiom fn fixture_words() ensures is_word("foo"@), is_word("bar"@), is_word("fn"@), is_word("self"@), is_word("fo"@), is_word("FOO"@), is_word("_"@);
#fn KeywordList for Keywords::KEYWORDS
module: kws::kw_a
extra:
    open spec fn kws() -> Seq<Seq<char>> { seq!["foo"@, "bar"@, "fn"@, "self"@, "fo"@, "FOO"@, "_"@] }
//@end
//@if KWB
//@each MODULE,NAME,TEXT in kw_b,X,x;kw_b,Async,async
#spec NAME
impl Print for NAME { open spec fn toks(&self) -> Seq<TT> { seq![ident_tok("TEXT"@, self.span@)] } }
impl Gram for NAME {
    /// exactly this word
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { match ident_at(c) { Some((i, n)) => if i.text() == "TEXT"@ { Some((NAME { span: span_of(i.sp()) }, n, false)) } else { None }, None => None } }
    open spec fn wf() -> bool { true }
    /// another word is reported where it stands
    open spec fn fails(c: Cur, e: ErrV) -> bool { match ident_at(c) { Some((i, n)) => e.span == i.sp(), None => e == no_ident(c) } }
}
/// printing and parsing again
pub proof fn round_trip_NAME(x: NAME, c: Cur)
    requires starts(c, x.toks())
    ensures NAME::gram(c) is Some, (NAME::gram(c)->Some_0).0.span@ == x.span@, (NAME::gram(c)->Some_0).1 == past(c, x.toks())
{ broadcast use span_back; fixture_words(); read_ident(c, "TEXT"@, x.span@); }
#fn NAME::new
module: kws::MODULE
contract:
    ensures r.span == {0}
#fn NAME::as_str
module: kws::MODULE
contract:
    ensures r@ == "TEXT"@
#fn NAME::span
module: kws::MODULE
contract:
    ensures r == self.span
#fn NAME::set_span
module: kws::MODULE
contract:
    ensures final(self).span == {1}
#fn NAME::token
module: kws::MODULE
contract:
    ensures r.text() == "TEXT"@, r.sp() == self.span@
prologue:
    proof { fixture_words(); }
#fn Default for NAME::default
module: kws::MODULE
extra:
    open spec fn is_default(r: Self) -> bool { r.span@ == call_site_v() }
#fn From<NAME> for TokenTree::from
module: kws::MODULE
extra:
    open spec fn from_rel(x: NAME, r: Self) -> bool { r.tt() == x.toks() }
#fn AsRef<str> for NAME::as_ref
module: kws::MODULE
mode: free as_ref_NAME
contract:
    ensures r@ == "TEXT"@
#fn PartialEq<T> for NAME::eq
module: kws::MODULE
extra:
    open spec fn eq_v(&self, o: &T) -> bool { "TEXT"@ == o.aref()@ }
#fn Parse for NAME::parse
module: kws::MODULE
prologue:
    broadcast use ident_moves, span_back;
#fn ToTokens for NAME::to_tokens
module: kws::MODULE
//@end
#spec Wordskw_b
pub axiom fn fixture_words() ensures is_word("x"@), is_word("async"@);
#fn KeywordList for Keywords::KEYWORDS
module: kws::kw_b
extra:
    open spec fn kws() -> Seq<Seq<char>> { seq!["x"@, "async"@] }
//@end
//@if KWC
//@each MODULE,NAME,TEXT in kw_c,Underscore,_
#spec NAME
impl Print for NAME { open spec fn toks(&self) -> Seq<TT> { seq![ident_tok("TEXT"@, self.span@)] } }
impl Gram for NAME {
    /// exactly this word
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { match ident_at(c) { Some((i, n)) => if i.text() == "TEXT"@ { Some((NAME { span: span_of(i.sp()) }, n, false)) } else { None }, None => None } }
    open spec fn wf() -> bool { true }
    /// another word is reported where it stands
    open spec fn fails(c: Cur, e: ErrV) -> bool { match ident_at(c) { Some((i, n)) => e.span == i.sp(), None => e == no_ident(c) } }
}
/// printing and parsing again
pub proof fn round_trip_NAME(x: NAME, c: Cur)
    requires starts(c, x.toks())
    ensures NAME::gram(c) is Some, (NAME::gram(c)->Some_0).0.span@ == x.span@, (NAME::gram(c)->Some_0).1 == past(c, x.toks())
{ broadcast use span_back; fixture_words(); read_ident(c, "TEXT"@, x.span@); }
#fn NAME::new
module: kws::MODULE
contract:
    ensures r.span == {0}
#fn NAME::as_str
module: kws::MODULE
contract:
    ensures r@ == "TEXT"@
#fn NAME::span
module: kws::MODULE
contract:
    ensures r == self.span
#fn NAME::set_span
module: kws::MODULE
contract:
    ensures final(self).span == {1}
#fn NAME::token
module: kws::MODULE
contract:
    ensures r.text() == "TEXT"@, r.sp() == self.span@
prologue:
    proof { fixture_words(); }
#fn Default for NAME::default
module: kws::MODULE
extra:
    open spec fn is_default(r: Self) -> bool { r.span@ == call_site_v() }
#fn From<NAME> for TokenTree::from
module: kws::MODULE
extra:
    open spec fn from_rel(x: NAME, r: Self) -> bool { r.tt() == x.toks() }
#fn AsRef<str> for NAME::as_ref
module: kws::MODULE
mode: free as_ref_NAME
contract:
    ensures r@ == "TEXT"@
#fn PartialEq<T> for NAME::eq
module: kws::MODULE
extra:
    open spec fn eq_v(&self, o: &T) -> bool { "TEXT"@ == o.aref()@ }
#fn Parse for NAME::parse
module: kws::MODULE
prologue:
    broadcast use ident_moves, span_back;
#fn ToTokens for NAME::to_tokens
module: kws::MODULE
//@end
#spec Wordskw_c
pub axiom fn fixture_words() ensures is_word("_"@);
#fn KeywordList for Keywords::KEYWORDS
module: kws::kw_c
extra:
    open spec fn kws() -> Seq<Seq<char>> { seq!["_"@] }
//@end
//@if KWD
#spec Wordskw_d
pub axiom fn fixture_words() ensures true;
#fn KeywordList for Keywords::KEYWORDS
module: kws::kw_d
extra:
    open spec fn kws() -> Seq<Seq<char>> { Seq::empty() }
//@end
