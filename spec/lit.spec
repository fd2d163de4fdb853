#opts {"eq": true, "ren": {"into": "tr_into", "from": "tr_from", "try_from": "tr_try_from", "default": "tr_default", "eq": "vx_eq", "cmp": "vx_cmp", "partial_cmp": "vx_partial_cmp", "hash": "vx_hash", "clone": "vx_clone", "as_mut": "vx_as_mut", "to_owned": "vx_to_owned", "into_boxed_str": "vx_boxed", "into_boxed_slice": "vx_boxed", "trim": "vx_trim", "starts_with": "vx_starts_with"}, "kinds": {"map": "Result"}}
// ---------------------------------------------------------------- what a node stands for
#spec LitBool
impl LitBool { pub open spec fn lv(&self) -> LitV { LitV::Bool(self.value) } pub open spec fn ok(&self) -> bool { true } }
#spec LitByte
impl LitByte { pub open spec fn lv(&self) -> LitV { LitV::Byte(self.value) } pub open spec fn ok(&self) -> bool { true } }
#spec LitInt
impl LitInt { pub open spec fn lv(&self) -> LitV { int_v(self.value as int) } pub open spec fn ok(&self) -> bool { true } }
#spec LitUint
impl LitUint { pub open spec fn lv(&self) -> LitV { int_v(self.value as int) } pub open spec fn ok(&self) -> bool { true } }
#spec LitFloat
impl LitFloat { pub open spec fn lv(&self) -> LitV { LitV::Float(self.value.f()) } pub open spec fn ok(&self) -> bool { true } }
#spec LitChar
impl LitChar { pub open spec fn lv(&self) -> LitV { LitV::Char(self.value) } pub open spec fn ok(&self) -> bool { true } }
#spec LitStr
impl LitStr { pub open spec fn lv(&self) -> LitV { LitV::Str(self.value@) } pub open spec fn ok(&self) -> bool { true } }
#spec LitByteStr
impl LitByteStr { pub open spec fn lv(&self) -> LitV { LitV::ByteStr(self.value@) } pub open spec fn ok(&self) -> bool { true } }
#spec Lit
impl Lit {
    pub open spec fn lv(&self) -> LitV { match self { Lit::Bool(l) => l.lv(), Lit::Byte(l) => l.lv(), Lit::Int(l) => l.lv(), Lit::Uint(l) => l.lv(), Lit::Float(l) => l.lv(), Lit::Char(l) => l.lv(), Lit::Str(l) => l.lv(), Lit::ByteStr(l) => l.lv() } }
    pub open spec fn sp(&self) -> Span { match self { Lit::Bool(l) => l.span, Lit::Byte(l) => l.span, Lit::Int(l) => l.span, Lit::Uint(l) => l.span, Lit::Float(l) => l.span, Lit::Char(l) => l.span, Lit::Str(l) => l.span, Lit::ByteStr(l) => l.span } }
}
impl Discr for Lit { open spec fn discr(&self) -> isize { match self { Lit::Bool(_) => 0, Lit::Byte(_) => 1, Lit::Int(_) => 2, Lit::Uint(_) => 3, Lit::Float(_) => 4, Lit::Char(_) => 5, Lit::Str(_) => 6, Lit::ByteStr(_) => 7 } } }
#spec LitBool LitByte LitInt LitUint LitFloat LitChar LitStr LitByteStr
//@each KIND in Bool;Byte;Int;Uint;Float;Char;Str;ByteStr
impl Print for LitKIND { open spec fn toks(&self) -> Seq<TT> { lit_toks(self.lv(), self.span@) } }
//@end
// what each accepts: its own kind of literal, with a value its type can represent
//@each KIND,VALUE in Bool,l.value;Byte,l.value_s();Char,l.value_s();Str,l.value_s();ByteStr,l.value_s();Float,nn_of(l.f())
impl Gram for LitKIND {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { match syn_lit(c) { Some((SynLit::KIND(l), n)) => Some((LitKIND { value: VALUE, span: sp_KIND(l) }, n, false)), _ => None } }
    open spec fn wf() -> bool { true }
}
//@end
//@each KIND,RAWT in Int,i64;Uint,u64
impl Gram for LitKIND {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match syn_lit(c) { Some((SynLit::Int(l), n)) => if RAWT::fits(l.neg(), l.mag()) { Some((LitKIND { value: signed(l.neg(), l.mag()) as RAWT, span: l.span_s() }, n, false)) } else { None }, _ => None }
    }
    open spec fn wf() -> bool { true }
}
//@end
pub open spec fn sp_Bool(l: SynLitBool) -> Span { l.span }
//@each KIND in Byte;Char;Str;ByteStr;Float
pub open spec fn sp_KIND(l: SynLitKIND) -> Span { l.span_s() }
//@end
//@each KIND in Bool;Byte;Int;Uint;Float;Char;Str;ByteStr
/// printing and parsing again
pub proof fn round_trip_KIND(x: LitKIND, c: Cur)
    requires starts(c, x.toks())
    ensures LitKIND::gram(c) is Some, (LitKIND::gram(c)->Some_0).0.lv() == x.lv(), (LitKIND::gram(c)->Some_0).1 == past(c, x.toks()), !(LitKIND::gram(c)->Some_0).2,
        !negative(x.lv()) ==> (LitKIND::gram(c)->Some_0).0.span@ == x.span@,
        (LitKIND::gram(c)->Some_0).0.value.eq_v(&x.value)
{
    broadcast use nn_ext, nn_f, f_eq_refl, lit_not_nan;
    read_back(c, x.lv(), x.span@);
}
//@end
#fn LitBool::token
contract:
    ensures r.text() == (if self.value { "true"@ } else { "false"@ }), r.sp() == self.span@
prologue:
    proof { words(); }
//@each KIND in Int;Uint;Char;Str;ByteStr
#fn LitKIND::token
contract:
    ensures r.v() == self.lv(), r.sp() == self.span@
//@end
#fn LitFloat::token
contract:
    ensures r.v() == self.lv(), r.sp() == self.span@
prologue:
    broadcast use nn_ext;
    proof { f_kinds(self.value.f()); f_infs(); lex_inf(); }
#spec LitByte
/// what escape_default gives stands for the byte between the quotes of a byte literal
pub proof fn byte_text(b: u8)
    ensures byte_body(esc(b), b), esc(b).len() <= 4, forall|i: int| 0 <= i < esc(b).len() ==> #[trigger] esc(b)[i] as u32 <= 127
{
    assert(b < 16 * 16);
    let (h, l) = (b as int / 16, b as int % 16);
    assert(b == h * 16 + l && 0 <= h < 16 && 0 <= l < 16);
    assert(hexd(hexc(h)) == h && hexc(h) as u32 <= 127);
    assert(hexd(hexc(l)) == l && hexc(l) as u32 <= 127);
}
/// the whole literal as bytes
pub proof fn byte_bytes(b: u8)
    ensures utf8("b'"@).len() == 2, utf8("'"@).len() == 1, utf8(esc(b)).len() <= 4,
        utf8("b'"@ + esc(b) + "'"@) == utf8("b'"@) + utf8(esc(b)) + utf8("'"@),
        lex("b'"@ + esc(b) + "'"@) == Some(LitV::Byte(b))
{
    reveal_strlit("b'"); reveal_strlit("'");
    byte_text(b); lex_byte(esc(b), b);
    utf8_ascii("b'"@); utf8_ascii("'"@); utf8_ascii(esc(b)); utf8_ascii("b'"@ + esc(b) + "'"@);
    assert(utf8("b'"@ + esc(b) + "'"@) =~= utf8("b'"@) + utf8(esc(b)) + utf8("'"@));
}
#fn LitByte::token
opts: {"index": true}
contract:
    ensures r.v() == self.lv(), r.sp() == self.span@
prologue:
    broadcast use over_prefix;
    proof { byte_bytes(self.value); }
//@each KIND in Bool;Byte;Int;Uint;Float;Char;Str;ByteStr
#fn ToTokens for LitKIND::to_tokens
#fn From<LitKIND> for TokenTree::from
extra:
    open spec fn from_rel(x: LitKIND, r: Self) -> bool { r.tt() == lit_toks(x.lv(), x.span@) }
#fn Parse for LitKIND::parse
prologue:
    broadcast use lit_moves, nn_f, lit_not_nan;
//@end

//@each KIND,RAWT,HEAD in Bool,bool,bool;Byte,u8,u8;Int,i64,i64;Uint,u64,u64;Float,NotNan<f64>,NotNan;Char,char,char;Str,String,String;ByteStr,Vec<u8>,Vec
#fn LitKIND::new
contract:
    ensures r.value == {0}, r.span == {1}
#fn LitKIND::value
contract:
    ensures r.same(&self.value)
#fn LitKIND::into_inner
contract:
    ensures r == self.value
#fn LitKIND::span
contract:
    ensures r == self.span
#fn LitKIND::set_span
contract:
    ensures final(self).value == old(self).value, final(self).span == {1}
#fn Default for LitKIND::default
extra:
    open spec fn is_default(r: Self) -> bool { <RAWT>::is_default(r.value) && r.span@ == call_site_v() }
#fn From<RAWT> for LitKIND::from
extra:
    open spec fn from_rel(x: RAWT, r: Self) -> bool { r.value == x && r.span@ == call_site_v() }
#fn From<LitKIND> for HEAD::from
extra:
    open spec fn from_rel(x: LitKIND, r: Self) -> bool { r == x.value }
#fn Borrow<RAWT> for LitKIND::borrow
mode: free borrow_KIND
contract:
    ensures *r == self_.value
#fn PartialEq<Self> for LitKIND::eq
extra:
    open spec fn eq_v(&self, o: &Self) -> bool { self.value.eq_v(&o.value) }
#fn PartialEq<RAWT> for LitKIND::eq
extra:
    open spec fn eq_v(&self, o: &RAWT) -> bool { self.value.eq_v(o) }
#fn PartialOrd<Self> for LitKIND::partial_cmp
extra:
    open spec fn pcmp_v(&self, o: &Self) -> Option<Ordering> { Some(self.value.cmp_v(&o.value)) }
#fn PartialOrd<RAWT> for LitKIND::partial_cmp
extra:
    open spec fn pcmp_v(&self, o: &RAWT) -> Option<Ordering> { Some(self.value.cmp_v(o)) }
#fn Ord for LitKIND::cmp
extra:
    open spec fn cmp_v(&self, o: &Self) -> Ordering { self.value.cmp_v(&o.value) }
#fn Hash for LitKIND::hash
extra:
    open spec fn hashed(&self) -> Seq<int> { self.value.hashed() }
//@end
// ---------------------------------------------------------------- conversions: value and span stay
//@each KIND,VALUE in Bool,x.value;Byte,x.value_s();Char,x.value_s();Str,x.value_s();ByteStr,x.value_s()
#fn From<syn::LitKIND> for LitKIND::from
extra:
    open spec fn from_rel(x: SynLitKIND, r: Self) -> bool { r.value == VALUE && r.span == sp_KIND(x) }
//@end
//@each KIND,VALUE in Bool,r.value;Byte,r.value_s();Char,r.value_s()
#fn From<LitKIND> for syn::LitKIND::from
extra:
    open spec fn from_rel(x: LitKIND, r: Self) -> bool { VALUE == x.value && sp_KIND(r) == x.span }
//@end
//@each KIND in Str;ByteStr
#fn From<LitKIND> for syn::LitKIND::from
extra:
    open spec fn from_rel(x: LitKIND, r: Self) -> bool { r.value_s()@ == x.value@ && sp_KIND(r) == x.span }
//@end
//@each KIND,RAWT in Int,i64;Uint,u64
#fn TryFrom<syn::LitInt> for LitKIND::try_from
extra:
    open spec fn try_rel(x: SynLitInt, r: Result<Self>) -> bool {
        match r { Ok(y) => RAWT::fits(x.neg(), x.mag()) && y.value == signed(x.neg(), x.mag()) && y.span == x.span_s(), Err(_) => !RAWT::fits(x.neg(), x.mag()) }
    }
#fn From<LitKIND> for syn::LitInt::from
extra:
    open spec fn from_rel(x: LitKIND, r: Self) -> bool { LitV::Int(r.neg(), r.mag()) == x.lv() && r.span_s()@ == x.span@ }
//@end
#fn TryFrom<syn::LitFloat> for LitFloat::try_from
extra:
    open spec fn try_rel(x: SynLitFloat, r: Result<Self>) -> bool { match r { Ok(y) => y.value == nn_of(x.f()) && y.span == x.span_s(), Err(_) => false } }
#fn From<LitFloat> for syn::LitFloat::from
extra:
    open spec fn from_rel(x: LitFloat, r: Self) -> bool { r.f() == x.value.f() && r.span_s()@ == x.span@ }
#fn TryFrom<f64> for LitFloat::try_from
extra:
    open spec fn try_rel(x: f64, r: CoreResult<Self, FloatIsNan>) -> bool { match r { Ok(y) => !f_nan(x) && y.value == nn_of(x) && y.span@ == call_site_v(), Err(_) => f_nan(x) } }
#fn From<LitFloat> for f64::from
extra:
    open spec fn from_rel(x: LitFloat, r: f64) -> bool { r == x.value.f() }
#fn From<&str> for LitStr::from
extra:
    open spec fn from_rel(x: &str, r: Self) -> bool { r.value@ == x@ && r.span@ == call_site_v() }
#fn From<Box<str>> for LitStr::from
extra:
    open spec fn from_rel(x: Box<str>, r: Self) -> bool { r.value@ == x@ && r.span@ == call_site_v() }
#fn From<Cow<'_,str>> for LitStr::from
extra:
    open spec fn from_rel(x: Cow<'_, str>, r: Self) -> bool { r.value@ == x@ && r.span@ == call_site_v() }
#fn From<LitStr> for Box::from
extra:
    open spec fn from_rel(x: LitStr, r: Self) -> bool { r@ == x.value@ }
#fn From<LitStr> for Cow::from
extra:
    open spec fn from_rel(x: LitStr, r: Self) -> bool { r@ == x.value@ }
#fn AsRef<str> for LitStr::as_ref
mode: free str_as_ref
contract:
    ensures r@ == self_.value@
#fn Deref for LitStr::deref
mode: free str_deref
contract:
    ensures r@ == self_.value@
#fn Borrow<str> for LitStr::borrow
mode: free str_borrow
contract:
    ensures r@ == self_.value@
#fn PartialEq<str> for LitStr::eq
extra:
    open spec fn eq_v(&self, o: &str) -> bool { self.value@ == o@ }
#fn PartialOrd<str> for LitStr::partial_cmp
extra:
    open spec fn pcmp_v(&self, o: &str) -> Option<Ordering> { Some(order(self.value@, o@)) }
#fn From<&[u8]> for LitByteStr::from
opts: {"ren": {"to_vec": "vx_to_owned"}}
extra:
    open spec fn from_rel(x: &[u8], r: Self) -> bool { r.value@ == x@ && r.span@ == call_site_v() }
#fn From<Box<[u8]>> for LitByteStr::from
extra:
    open spec fn from_rel(x: Box<[u8]>, r: Self) -> bool { r.value@ == x@ && r.span@ == call_site_v() }
#fn From<Cow<'_,[u8]>> for LitByteStr::from
extra:
    open spec fn from_rel(x: Cow<'_, [u8]>, r: Self) -> bool { r.value@ == x@ && r.span@ == call_site_v() }
#fn From<LitByteStr> for Box::from
extra:
    open spec fn from_rel(x: LitByteStr, r: Self) -> bool { r@ == x.value@ }
#fn From<LitByteStr> for Cow::from
extra:
    open spec fn from_rel(x: LitByteStr, r: Self) -> bool { r@ == x.value@ }
#fn AsRef<[u8]> for LitByteStr::as_ref
mode: free bytes_as_ref
contract:
    ensures r@ == self_.value@
#fn Deref for LitByteStr::deref
mode: free bytes_deref
contract:
    ensures r@ == self_.value@
#fn Borrow<[u8]> for LitByteStr::borrow
mode: free bytes_borrow
contract:
    ensures r@ == self_.value@
#fn AsMut<[u8]> for LitByteStr::as_mut
mode: free bytes_as_mut
contract:
    ensures r@ == old(self_).value@, final(self_).value@ == final(r)@, final(self_).span == old(self_).span
#fn DerefMut for LitByteStr::deref_mut
mode: free bytes_deref_mut
assoc: type Target = [u8];
contract:
    ensures r@ == old(self_).value@, final(self_).value@ == final(r)@, final(self_).span == old(self_).span
#fn BorrowMut<[u8]> for LitByteStr::borrow_mut
mode: free bytes_borrow_mut
contract:
    ensures r@ == old(self_).value@, final(self_).value@ == final(r)@, final(self_).span == old(self_).span
#fn PartialEq<[u8]> for LitByteStr::eq
extra:
    open spec fn eq_v(&self, o: &[u8]) -> bool { self.value@ == o@ }
#fn PartialOrd<[u8]> for LitByteStr::partial_cmp
extra:
    open spec fn pcmp_v(&self, o: &[u8]) -> Option<Ordering> { Some(order(self.value@, o@)) }
// ---------------------------------------------------------------- Lit
#spec Lit
impl Gram for Lit {
    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> {
        match syn_lit(c) { Some((l, n)) => match classify(l) { Some(x) => Some((x, n, false)), None => None }, None => None }
    }
    open spec fn wf() -> bool { true }
}
/// the kind and value of a node that a literal token gives
pub open spec fn classify(l: SynLit) -> Option<Lit> {
    match l {
        SynLit::Bool(l) => Some(Lit::Bool(LitBool { value: l.value, span: l.span })),
        SynLit::Byte(l) => Some(Lit::Byte(LitByte { value: l.value_s(), span: l.span_s() })),
        SynLit::Int(l) => if l.neg() {
                if i64::fits(true, l.mag()) { Some(Lit::Int(LitInt { value: signed(true, l.mag()) as i64, span: l.span_s() })) } else { None }
            } else {
                if u64::fits(false, l.mag()) { Some(Lit::Uint(LitUint { value: l.mag() as u64, span: l.span_s() })) } else { None }
            },
        SynLit::Float(l) => Some(Lit::Float(LitFloat { value: nn_of(l.f()), span: l.span_s() })),
        SynLit::Char(l) => Some(Lit::Char(LitChar { value: l.value_s(), span: l.span_s() })),
        SynLit::Str(l) => Some(Lit::Str(LitStr { value: l.value_s(), span: l.span_s() })),
        SynLit::ByteStr(l) => Some(Lit::ByteStr(LitByteStr { value: l.value_s(), span: l.span_s() })),
        _ => None,
    }
}
impl Print for Lit { open spec fn toks(&self) -> Seq<TT> { lit_toks(self.lv(), self.sp()@) } }
#fn Lit::span
contract:
    ensures r == self.sp()
#fn Lit::set_span
contract:
    ensures final(self).sp() == {1}, final(self).lv() == old(self).lv(), final(self).discr() == old(self).discr()
#fn TryFrom<syn::Lit> for Lit::try_from
extra:
    open spec fn try_rel(x: SynLit, r: Result<Self>) -> bool { match r { Ok(y) => classify(x) == Some(y), Err(_) => classify(x) is None } }
prologue:
    broadcast use digits_sign, nn_f, lit_not_nan;
#fn Parse for Lit::parse
prologue:
    broadcast use lit_moves;
#fn ToTokens for Lit::to_tokens
#fn From<Lit> for syn::Lit::from
extra:
    open spec fn from_rel(x: Lit, r: Self) -> bool { r.v() == x.lv() && r.sp() == x.sp()@ }
#fn TryFrom<f64> for Lit::try_from
extra:
    open spec fn try_rel(x: f64, r: CoreResult<Self, FloatIsNan>) -> bool { match r { Ok(y) => !f_nan(x) && y is Float && y.lv() == LitV::Float(x) && y.sp()@ == call_site_v(), Err(_) => f_nan(x) } }
prologue:
    broadcast use nn_f;
//@each KIND in Bool;Byte;Int;Uint;Float;Char;Str;ByteStr
#fn From<LitKIND> for Lit::from
extra:
    open spec fn from_rel(x: LitKIND, r: Self) -> bool { r == Lit::KIND(x) }
//@end
//@each KIND,RAWT,SAME in Bool,bool,l.value == x;Byte,u8,l.value == x;Int,i64,l.value == x;Uint,u64,l.value == x;Float,NotNan<f64>,l.value == x;Char,char,l.value == x;Str,String,l.value == x;Str,&str,l.value@ == x@;Str,Box<str>,l.value@ == x@;ByteStr,Vec<u8>,l.value == x;ByteStr,&[u8],l.value@ == x@;ByteStr,Box<[u8]>,l.value@ == x@
#fn From<RAWT> for Lit::from
extra:
    open spec fn from_rel(x: RAWT, r: Self) -> bool { match r { Lit::KIND(l) => SAME && l.span@ == call_site_v(), _ => false } }
//@end
#fn From<Cow<'_,str>> for Lit::from
extra:
    open spec fn from_rel(x: Cow<'_, str>, r: Self) -> bool { match r { Lit::Str(l) => l.value@ == x@ && l.span@ == call_site_v(), _ => false } }
#fn From<Cow<'_,[u8]>> for Lit::from
extra:
    open spec fn from_rel(x: Cow<'_, [u8]>, r: Self) -> bool { match r { Lit::ByteStr(l) => l.value@ == x@ && l.span@ == call_site_v(), _ => false } }
#fn PartialEq for Lit::eq
extra:
    open spec fn eq_v(&self, o: &Self) -> bool {
        match (*self, *o) { (Lit::Bool(a), Lit::Bool(b)) => a.eq_v(&b), (Lit::Byte(a), Lit::Byte(b)) => a.eq_v(&b), (Lit::Int(a), Lit::Int(b)) => a.eq_v(&b), (Lit::Uint(a), Lit::Uint(b)) => a.eq_v(&b),
            (Lit::Float(a), Lit::Float(b)) => a.eq_v(&b), (Lit::Char(a), Lit::Char(b)) => a.eq_v(&b), (Lit::Str(a), Lit::Str(b)) => a.eq_v(&b), (Lit::ByteStr(a), Lit::ByteStr(b)) => a.eq_v(&b), _ => false }
    }
#spec LitBool LitByte LitInt LitUint LitFloat LitChar LitStr LitByteStr
//@if OPS
//@each KIND in Bool;Byte;Int;Uint;Float;Char;Str;ByteStr
/// the operators agree with each other and with those of the raw type
pub proof fn consistent_KIND(a: LitKIND, b: LitKIND)
    ensures a.eq_v(&b) == (a.cmp_v(&b) == Ordering::Equal), a.pcmp_v(&b) == Some(a.cmp_v(&b)), a.eq_v(&b) ==> a.hashed() == b.hashed(),
        a.eq_v(&b.value) == a.eq_v(&b), a.pcmp_v(&b.value) == a.pcmp_v(&b)
{ broadcast use f_eq_cmp, f_eq_hash, order_eq; }
//@end
#spec Lit
impl Lit {
    pub open spec fn hashed(&self) -> Seq<int> {
        match *self { Lit::Bool(a) => a.hashed(), Lit::Byte(a) => a.hashed(), Lit::Int(a) => a.hashed(), Lit::Uint(a) => a.hashed(), Lit::Float(a) => a.hashed(), Lit::Char(a) => a.hashed(), Lit::Str(a) => a.hashed(), Lit::ByteStr(a) => a.hashed() }
    }
}
#fn Hash for Lit::hash
mode: free lit_hash
contract:
    ensures final({1}).fed() == old({1}).fed() + self_.discr().hashed() + self_.hashed()
#spec Lit
/// equal literals hash equally
pub proof fn consistent_Lit(a: Lit, b: Lit) requires a.eq_v(&b) ensures a.discr() == b.discr(), a.hashed() == b.hashed() { broadcast use f_eq_hash; }
//@end
