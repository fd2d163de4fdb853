#opts {}
#fn quote_0
contract:
    ensures r == parsed::<T>(Seq::<TT>::empty())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_0
contract:
    ensures r == parsed::<T>(Seq::<TT>::empty())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_1
contract:
    ensures r == parsed::<T>(qt(TT::Ident("foo"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_1
contract:
    ensures r == parsed::<T>(qt(TT::Ident("foo"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_2
contract:
    ensures r == parsed::<T>(qt(TT::Ident("foo"@, call_site())) + qt(TT::Ident("bar"@, call_site())) + qt(TT::Ident("r#fn"@, call_site())) + qt(TT::Lifetime("'a"@, call_site())) + qt(TT::Lit("1"@, call_site())) + qt(TT::Lit("\"x\""@, call_site())) + qt(TT::Punct(","@, call_site())) + qt(TT::Punct(";"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_2
contract:
    ensures r == parsed::<T>(qt(TT::Ident("foo"@, span@)) + qt(TT::Ident("bar"@, span@)) + qt(TT::Ident("r#fn"@, span@)) + qt(TT::Lifetime("'a"@, span@)) + qt(TT::Lit("1"@, span@)) + qt(TT::Lit("\"x\""@, span@)) + qt(TT::Punct(","@, span@)) + qt(TT::Punct(";"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_3
contract:
    ensures r == parsed::<T>(a.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_3
contract:
    ensures r == parsed::<T>(a.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_4
contract:
    ensures r == parsed::<T>(a.toks() + qt(TT::Punct(","@, call_site())) + b.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_4
contract:
    ensures r == parsed::<T>(a.toks() + qt(TT::Punct(","@, span@)) + b.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_5
contract:
    ensures r == parsed::<T>(qt(TT::Group(0, a.toks() + qt(TT::Group(1, Seq::<TT>::empty(), call_site())) + qt(TT::Group(2, qt(TT::Ident("foo"@, call_site())), call_site())), call_site())) + a.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_5
contract:
    ensures r == parsed::<T>(qt(TT::Group(0, a.toks() + qt(TT::Group(1, Seq::<TT>::empty(), span@)) + qt(TT::Group(2, qt(TT::Ident("foo"@, span@)), span@)), span@)) + a.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_6
contract:
    ensures r == parsed::<T>(qt(TT::Punct("-"@, call_site())) + qt(TT::Lit("1"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_6
contract:
    ensures r == parsed::<T>(qt(TT::Punct("-"@, span@)) + qt(TT::Lit("1"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_7
contract:
    ensures r == parsed::<T>(qt(TT::Group(0, qt(TT::Group(0, qt(TT::Group(0, a.toks(), call_site())), call_site())) + qt(TT::Punct(","@, call_site())), call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_7
contract:
    ensures r == parsed::<T>(qt(TT::Group(0, qt(TT::Group(0, qt(TT::Group(0, a.toks(), span@)), span@)) + qt(TT::Punct(","@, span@)), span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_8
contract:
    ensures r == parsed::<T>(qt(TT::Ident("fn"@, call_site())) + qt(TT::Ident("foo"@, call_site())) + qt(TT::Group(0, Seq::<TT>::empty(), call_site())) + qt(TT::Group(2, a.toks(), call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_8
contract:
    ensures r == parsed::<T>(qt(TT::Ident("fn"@, span@)) + qt(TT::Ident("foo"@, span@)) + qt(TT::Group(0, Seq::<TT>::empty(), span@)) + qt(TT::Group(2, a.toks(), span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_9
contract:
    ensures r == parsed::<T>(qt(TT::Ident("_"@, call_site())) + qt(TT::Ident("crate"@, call_site())) + qt(TT::Ident("self"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_9
contract:
    ensures r == parsed::<T>(qt(TT::Ident("_"@, span@)) + qt(TT::Ident("crate"@, span@)) + qt(TT::Ident("self"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_10
contract:
    ensures r == parsed::<T>(qt(TT::Lit("1.5"@, call_site())) + qt(TT::Lit("b\"x\""@, call_site())) + qt(TT::Lit("'c'"@, call_site())) + qt(TT::Lit("0x1f_u8"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_10
contract:
    ensures r == parsed::<T>(qt(TT::Lit("1.5"@, span@)) + qt(TT::Lit("b\"x\""@, span@)) + qt(TT::Lit("'c'"@, span@)) + qt(TT::Lit("0x1f_u8"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_11
contract:
    ensures r == parsed::<T>(a.toks() + a.toks() + b.toks() + a.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_11
contract:
    ensures r == parsed::<T>(a.toks() + a.toks() + b.toks() + a.toks())
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_12
contract:
    ensures r == parsed::<T>(qt(TT::Punct("+"@, call_site())) + qt(TT::Punct("-"@, call_site())) + qt(TT::Punct("*"@, call_site())) + qt(TT::Punct("/"@, call_site())) + qt(TT::Punct("%"@, call_site())) + qt(TT::Punct("^"@, call_site())) + qt(TT::Punct("&"@, call_site())) + qt(TT::Punct("|"@, call_site())) + qt(TT::Punct("!"@, call_site())) + qt(TT::Punct("="@, call_site())) + qt(TT::Punct("<"@, call_site())) + qt(TT::Punct(">"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_12
contract:
    ensures r == parsed::<T>(qt(TT::Punct("+"@, span@)) + qt(TT::Punct("-"@, span@)) + qt(TT::Punct("*"@, span@)) + qt(TT::Punct("/"@, span@)) + qt(TT::Punct("%"@, span@)) + qt(TT::Punct("^"@, span@)) + qt(TT::Punct("&"@, span@)) + qt(TT::Punct("|"@, span@)) + qt(TT::Punct("!"@, span@)) + qt(TT::Punct("="@, span@)) + qt(TT::Punct("<"@, span@)) + qt(TT::Punct(">"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_13
contract:
    ensures r == parsed::<T>(qt(TT::Punct(","@, call_site())) + qt(TT::Punct(";"@, call_site())) + qt(TT::Punct(":"@, call_site())) + qt(TT::Punct("."@, call_site())) + qt(TT::Punct("@"@, call_site())) + qt(TT::Punct("#"@, call_site())) + qt(TT::Punct("?"@, call_site())) + qt(TT::Punct("->"@, call_site())) + qt(TT::Punct("=>"@, call_site())) + qt(TT::Punct("=="@, call_site())) + qt(TT::Punct("!="@, call_site())) + qt(TT::Punct("<="@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_13
contract:
    ensures r == parsed::<T>(qt(TT::Punct(","@, span@)) + qt(TT::Punct(";"@, span@)) + qt(TT::Punct(":"@, span@)) + qt(TT::Punct("."@, span@)) + qt(TT::Punct("@"@, span@)) + qt(TT::Punct("#"@, span@)) + qt(TT::Punct("?"@, span@)) + qt(TT::Punct("->"@, span@)) + qt(TT::Punct("=>"@, span@)) + qt(TT::Punct("=="@, span@)) + qt(TT::Punct("!="@, span@)) + qt(TT::Punct("<="@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_14
contract:
    ensures r == parsed::<T>(qt(TT::Punct(">="@, call_site())) + qt(TT::Punct("::"@, call_site())) + qt(TT::Punct(".."@, call_site())) + qt(TT::Punct("..."@, call_site())) + qt(TT::Punct("..="@, call_site())) + qt(TT::Punct("+="@, call_site())) + qt(TT::Punct("-="@, call_site())) + qt(TT::Punct("*="@, call_site())) + qt(TT::Punct("/="@, call_site())) + qt(TT::Punct("&&"@, call_site())) + qt(TT::Punct("||"@, call_site())) + qt(TT::Punct("<<"@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_14
contract:
    ensures r == parsed::<T>(qt(TT::Punct(">="@, span@)) + qt(TT::Punct("::"@, span@)) + qt(TT::Punct(".."@, span@)) + qt(TT::Punct("..."@, span@)) + qt(TT::Punct("..="@, span@)) + qt(TT::Punct("+="@, span@)) + qt(TT::Punct("-="@, span@)) + qt(TT::Punct("*="@, span@)) + qt(TT::Punct("/="@, span@)) + qt(TT::Punct("&&"@, span@)) + qt(TT::Punct("||"@, span@)) + qt(TT::Punct("<<"@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_15
contract:
    ensures r == parsed::<T>(qt(TT::Punct(">>"@, call_site())) + qt(TT::Punct("<<="@, call_site())))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_15
contract:
    ensures r == parsed::<T>(qt(TT::Punct(">>"@, span@)) + qt(TT::Punct("<<="@, span@)))
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_twice
contract:
    ensures match parsed::<T>(a.toks() + qt(TT::Ident("foo"@, call_site()))) { Ok(x) => match parsed::<U>(qt(TT::Ident("bar"@, call_site())) + a.toks()) { Ok(y) => r == Ok::<(T, U), Error>((x, y)), Err(e) => r == Err::<(T, U), Error>(e) }, Err(e) => r == Err::<(T, U), Error>(e) }
prologue:
    broadcast use qcat, qnone, qone;
#fn quote_spanned_twice
contract:
    ensures match parsed::<T>(a.toks() + qt(TT::Ident("foo"@, span@))) { Ok(x) => match parsed::<U>(qt(TT::Ident("bar"@, other@)) + a.toks()) { Ok(y) => r == Ok::<(T, U), Error>((x, y)), Err(e) => r == Err::<(T, U), Error>(e) }, Err(e) => r == Err::<(T, U), Error>(e) }
prologue:
    broadcast use qcat, qnone, qone;
