//@if GRAMT
//@each NAME in Empty;Eof;NotEof;Maybe;Paren;Bracket;Brace;Punctuated;Separated;Any;LeftAssoc;RightAssoc;Either
#fn FromStr for NAME::from_str
extra:
    open spec fn reads(s: Seq<char>, r: Result<Self>) -> bool { whole(s, r) }
//@end
//@each NAME in Maybe;Paren;Bracket;Brace;Punctuated;Separated;Any;LeftAssoc;RightAssoc
#fn Display for NAME::fmt
extra:
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s == node_text(toks_of(self), alt(o)) }
prologue:
    broadcast use tail_of;
//@end
//@each NAME in Empty;Eof;NotEof
#fn Display for NAME::fmt
extra:
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s.len() == 0 }
prologue:
    broadcast use tail_of; proof { assert({1}@ =~= {1}@ + Seq::<char>::empty()); }
//@end
#fn Display for Either::fmt
extra:
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { match self { Either::Left(l) => l.shown(o, s), Either::Right(r) => r.shown(o, s) } }
//@end
//@if LITT
//@each KIND in Byte;Int;Uint;Float;Char;Str;ByteStr
#fn Display for LitKIND::fmt
extra:
    /// the text of the literal token of its value
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { exists|l: Literal| l.v() == self.lv() && l.sp() == self.span@ && s == #[trigger] lit_text(l, o) }
//@end
#fn Display for LitBool::fmt
extra:
    /// the text of the identifier of its value
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { exists|l: Ident| l.text() == (if self.value { "true"@ } else { "false"@ }) && l.sp() == self.span@ && s == #[trigger] ident_text(l, o) }
#fn Display for Lit::fmt
extra:
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { match self { Lit::Bool(l) => l.shown(o, s), Lit::Byte(l) => l.shown(o, s), Lit::Int(l) => l.shown(o, s), Lit::Uint(l) => l.shown(o, s), Lit::Float(l) => l.shown(o, s), Lit::Char(l) => l.shown(o, s), Lit::Str(l) => l.shown(o, s), Lit::ByteStr(l) => l.shown(o, s) } }
//@each NAME in LitBool;LitByte;LitInt;LitUint;LitFloat;LitChar;LitStr;LitByteStr;Lit;CustomIdent
#fn FromStr for NAME::from_str
extra:
    open spec fn reads(s: Seq<char>, r: Result<Self>) -> bool { whole(s, r) }
//@end
#fn Display for CustomIdent::fmt
extra:
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s == ident_text(self.ident, o) }
//@end
//@if KWA
//@each MODULE,NAME,TEXT in kw_a,Foo,foo;kw_a,Bar,bar;kw_a,Function,fn;kw_a,This,self;kw_a,Fo,fo;kw_a,Upper,FOO;kw_a,Underscore,_
#fn Display for NAME::fmt
module: kws::MODULE
extra:
    /// its own text
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s == padded("TEXT"@, o) }
prologue:
    broadcast use tail_of;
#fn FromStr for NAME::from_str
module: kws::MODULE
extra:
    open spec fn reads(s: Seq<char>, r: Result<Self>) -> bool { whole(s, r) }
//@end
//@end
//@if KWB
//@each MODULE,NAME,TEXT in kw_b,X,x;kw_b,Async,async
#fn Display for NAME::fmt
module: kws::MODULE
extra:
    /// its own text
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s == padded("TEXT"@, o) }
prologue:
    broadcast use tail_of;
#fn FromStr for NAME::from_str
module: kws::MODULE
extra:
    open spec fn reads(s: Seq<char>, r: Result<Self>) -> bool { whole(s, r) }
//@end
//@end
//@if KWC
//@each MODULE,NAME,TEXT in kw_c,Underscore,_
#fn Display for NAME::fmt
module: kws::MODULE
extra:
    /// its own text
    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s == padded("TEXT"@, o) }
prologue:
    broadcast use tail_of;
#fn FromStr for NAME::from_str
module: kws::MODULE
extra:
    open spec fn reads(s: Seq<char>, r: Result<Self>) -> bool { whole(s, r) }
//@end
//@end
