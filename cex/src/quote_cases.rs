// Generated by tools/gen_quotes.py.
macro_rules! quote_cases { ($run:ident, $t:ty, $s:ident, $a:ident, $b:ident) => {
    case!($run, $t, "quote_0", None, "", |b: &mut Build| {  }, quotes::quote_0::<$t>());
    case!($run, $t, "quote_spanned_0", Some($s), "", |b: &mut Build| {  }, quotes::quote_spanned_0::<$t>($s));
    case!($run, $t, "quote_1", None, "foo", |b: &mut Build| { b.ident("foo");  }, quotes::quote_1::<$t>());
    case!($run, $t, "quote_spanned_1", Some($s), "foo", |b: &mut Build| { b.ident("foo");  }, quotes::quote_spanned_1::<$t>($s));
    case!($run, $t, "quote_2", None, "foo bar r#fn 'a 1 \"x\" , ;", |b: &mut Build| { b.ident("foo"); b.ident("bar"); b.ident("r#fn"); b.lifetime("a"); b.lit("1"); b.lit("\"x\""); b.punct(","); b.punct(";");  }, quotes::quote_2::<$t>());
    case!($run, $t, "quote_spanned_2", Some($s), "foo bar r#fn 'a 1 \"x\" , ;", |b: &mut Build| { b.ident("foo"); b.ident("bar"); b.ident("r#fn"); b.lifetime("a"); b.lit("1"); b.lit("\"x\""); b.punct(","); b.punct(";");  }, quotes::quote_spanned_2::<$t>($s));
    case!($run, $t, "quote_3", None, "#a", |b: &mut Build| { b.add($a);  }, quotes::quote_3::<$t, _>($a));
    case!($run, $t, "quote_spanned_3", Some($s), "#a", |b: &mut Build| { b.add($a);  }, quotes::quote_spanned_3::<$t, _>($s, $a));
    case!($run, $t, "quote_4", None, "#a , #b", |b: &mut Build| { b.add($a); b.punct(","); b.add($b);  }, quotes::quote_4::<$t, _, _>($a, $b));
    case!($run, $t, "quote_spanned_4", Some($s), "#a , #b", |b: &mut Build| { b.add($a); b.punct(","); b.add($b);  }, quotes::quote_spanned_4::<$t, _, _>($s, $a, $b));
    case!($run, $t, "quote_5", None, "( #a [  ] { foo } ) #a", |b: &mut Build| { b.group('(', |b| { b.add($a); b.group('[', |b| {  }); b.group('{', |b| { b.ident("foo");  });  }); b.add($a);  }, quotes::quote_5::<$t, _>($a));
    case!($run, $t, "quote_spanned_5", Some($s), "( #a [  ] { foo } ) #a", |b: &mut Build| { b.group('(', |b| { b.add($a); b.group('[', |b| {  }); b.group('{', |b| { b.ident("foo");  });  }); b.add($a);  }, quotes::quote_spanned_5::<$t, _>($s, $a));
    case!($run, $t, "quote_6", None, "- 1", |b: &mut Build| { b.punct("-"); b.lit("1");  }, quotes::quote_6::<$t>());
    case!($run, $t, "quote_spanned_6", Some($s), "- 1", |b: &mut Build| { b.punct("-"); b.lit("1");  }, quotes::quote_spanned_6::<$t>($s));
    case!($run, $t, "quote_7", None, "( ( ( #a ) ) , )", |b: &mut Build| { b.group('(', |b| { b.group('(', |b| { b.group('(', |b| { b.add($a);  });  }); b.punct(",");  });  }, quotes::quote_7::<$t, _>($a));
    case!($run, $t, "quote_spanned_7", Some($s), "( ( ( #a ) ) , )", |b: &mut Build| { b.group('(', |b| { b.group('(', |b| { b.group('(', |b| { b.add($a);  });  }); b.punct(",");  });  }, quotes::quote_spanned_7::<$t, _>($s, $a));
    case!($run, $t, "quote_8", None, "fn foo (  ) { #a }", |b: &mut Build| { b.ident("fn"); b.ident("foo"); b.group('(', |b| {  }); b.group('{', |b| { b.add($a);  });  }, quotes::quote_8::<$t, _>($a));
    case!($run, $t, "quote_spanned_8", Some($s), "fn foo (  ) { #a }", |b: &mut Build| { b.ident("fn"); b.ident("foo"); b.group('(', |b| {  }); b.group('{', |b| { b.add($a);  });  }, quotes::quote_spanned_8::<$t, _>($s, $a));
    case!($run, $t, "quote_9", None, "_ crate self", |b: &mut Build| { b.ident("_"); b.ident("crate"); b.ident("self");  }, quotes::quote_9::<$t>());
    case!($run, $t, "quote_spanned_9", Some($s), "_ crate self", |b: &mut Build| { b.ident("_"); b.ident("crate"); b.ident("self");  }, quotes::quote_spanned_9::<$t>($s));
    case!($run, $t, "quote_10", None, "1.5 b\"x\" 'c' 0x1f_u8", |b: &mut Build| { b.lit("1.5"); b.lit("b\"x\""); b.lit("'c'"); b.lit("0x1f_u8");  }, quotes::quote_10::<$t>());
    case!($run, $t, "quote_spanned_10", Some($s), "1.5 b\"x\" 'c' 0x1f_u8", |b: &mut Build| { b.lit("1.5"); b.lit("b\"x\""); b.lit("'c'"); b.lit("0x1f_u8");  }, quotes::quote_spanned_10::<$t>($s));
    case!($run, $t, "quote_11", None, "#a #a #b #a", |b: &mut Build| { b.add($a); b.add($a); b.add($b); b.add($a);  }, quotes::quote_11::<$t, _, _>($a, $b));
    case!($run, $t, "quote_spanned_11", Some($s), "#a #a #b #a", |b: &mut Build| { b.add($a); b.add($a); b.add($b); b.add($a);  }, quotes::quote_spanned_11::<$t, _, _>($s, $a, $b));
    case!($run, $t, "quote_12", None, "+ - * / % ^ & | ! = < >", |b: &mut Build| { b.punct("+"); b.punct("-"); b.punct("*"); b.punct("/"); b.punct("%"); b.punct("^"); b.punct("&"); b.punct("|"); b.punct("!"); b.punct("="); b.punct("<"); b.punct(">");  }, quotes::quote_12::<$t>());
    case!($run, $t, "quote_spanned_12", Some($s), "+ - * / % ^ & | ! = < >", |b: &mut Build| { b.punct("+"); b.punct("-"); b.punct("*"); b.punct("/"); b.punct("%"); b.punct("^"); b.punct("&"); b.punct("|"); b.punct("!"); b.punct("="); b.punct("<"); b.punct(">");  }, quotes::quote_spanned_12::<$t>($s));
    case!($run, $t, "quote_13", None, ", ; : . @ # ? -> => == != <=", |b: &mut Build| { b.punct(","); b.punct(";"); b.punct(":"); b.punct("."); b.punct("@"); b.punct("#"); b.punct("?"); b.punct("->"); b.punct("=>"); b.punct("=="); b.punct("!="); b.punct("<=");  }, quotes::quote_13::<$t>());
    case!($run, $t, "quote_spanned_13", Some($s), ", ; : . @ # ? -> => == != <=", |b: &mut Build| { b.punct(","); b.punct(";"); b.punct(":"); b.punct("."); b.punct("@"); b.punct("#"); b.punct("?"); b.punct("->"); b.punct("=>"); b.punct("=="); b.punct("!="); b.punct("<=");  }, quotes::quote_spanned_13::<$t>($s));
    case!($run, $t, "quote_14", None, ">= :: .. ... ..= += -= *= /= && || <<", |b: &mut Build| { b.punct(">="); b.punct("::"); b.punct(".."); b.punct("..."); b.punct("..="); b.punct("+="); b.punct("-="); b.punct("*="); b.punct("/="); b.punct("&&"); b.punct("||"); b.punct("<<");  }, quotes::quote_14::<$t>());
    case!($run, $t, "quote_spanned_14", Some($s), ">= :: .. ... ..= += -= *= /= && || <<", |b: &mut Build| { b.punct(">="); b.punct("::"); b.punct(".."); b.punct("..."); b.punct("..="); b.punct("+="); b.punct("-="); b.punct("*="); b.punct("/="); b.punct("&&"); b.punct("||"); b.punct("<<");  }, quotes::quote_spanned_14::<$t>($s));
    case!($run, $t, "quote_15", None, ">> <<=", |b: &mut Build| { b.punct(">>"); b.punct("<<=");  }, quotes::quote_15::<$t>());
    case!($run, $t, "quote_spanned_15", Some($s), ">> <<=", |b: &mut Build| { b.punct(">>"); b.punct("<<=");  }, quotes::quote_spanned_15::<$t>($s));
} }
