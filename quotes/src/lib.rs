//! Generated by tools/gen_quotes.py. Uses of the quoting macros.
use ::parsel::{try_parse_quote, try_parse_quote_spanned, Error, Parse, Result, Span, ToTokens};
pub fn quote_0<T: Parse>() -> Result<T> { Ok(try_parse_quote!()) }
pub fn quote_spanned_0<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => )) }
pub fn quote_1<T: Parse>() -> Result<T> { Ok(try_parse_quote!(foo)) }
pub fn quote_spanned_1<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => foo)) }
pub fn quote_2<T: Parse>() -> Result<T> { Ok(try_parse_quote!(foo bar r#fn 'a 1 "x" , ;)) }
pub fn quote_spanned_2<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => foo bar r#fn 'a 1 "x" , ;)) }
pub fn quote_3<T: Parse, A: ToTokens>(a: &A) -> Result<T> { Ok(try_parse_quote!(#a)) }
pub fn quote_spanned_3<T: Parse, A: ToTokens>(span: Span, a: &A) -> Result<T> { Ok(try_parse_quote_spanned!(span => #a)) }
pub fn quote_4<T: Parse, A: ToTokens, B: ToTokens>(a: &A, b: &B) -> Result<T> { Ok(try_parse_quote!(#a , #b)) }
pub fn quote_spanned_4<T: Parse, A: ToTokens, B: ToTokens>(span: Span, a: &A, b: &B) -> Result<T> { Ok(try_parse_quote_spanned!(span => #a , #b)) }
pub fn quote_5<T: Parse, A: ToTokens>(a: &A) -> Result<T> { Ok(try_parse_quote!(( #a [  ] { foo } ) #a)) }
pub fn quote_spanned_5<T: Parse, A: ToTokens>(span: Span, a: &A) -> Result<T> { Ok(try_parse_quote_spanned!(span => ( #a [  ] { foo } ) #a)) }
pub fn quote_6<T: Parse>() -> Result<T> { Ok(try_parse_quote!(- 1)) }
pub fn quote_spanned_6<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => - 1)) }
pub fn quote_7<T: Parse, A: ToTokens>(a: &A) -> Result<T> { Ok(try_parse_quote!(( ( ( #a ) ) , ))) }
pub fn quote_spanned_7<T: Parse, A: ToTokens>(span: Span, a: &A) -> Result<T> { Ok(try_parse_quote_spanned!(span => ( ( ( #a ) ) , ))) }
pub fn quote_8<T: Parse, A: ToTokens>(a: &A) -> Result<T> { Ok(try_parse_quote!(fn foo (  ) { #a })) }
pub fn quote_spanned_8<T: Parse, A: ToTokens>(span: Span, a: &A) -> Result<T> { Ok(try_parse_quote_spanned!(span => fn foo (  ) { #a })) }
pub fn quote_9<T: Parse>() -> Result<T> { Ok(try_parse_quote!(_ crate self)) }
pub fn quote_spanned_9<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => _ crate self)) }
pub fn quote_10<T: Parse>() -> Result<T> { Ok(try_parse_quote!(1.5 b"x" 'c' 0x1f_u8)) }
pub fn quote_spanned_10<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => 1.5 b"x" 'c' 0x1f_u8)) }
pub fn quote_11<T: Parse, A: ToTokens, B: ToTokens>(a: &A, b: &B) -> Result<T> { Ok(try_parse_quote!(#a #a #b #a)) }
pub fn quote_spanned_11<T: Parse, A: ToTokens, B: ToTokens>(span: Span, a: &A, b: &B) -> Result<T> { Ok(try_parse_quote_spanned!(span => #a #a #b #a)) }
pub fn quote_12<T: Parse>() -> Result<T> { Ok(try_parse_quote!(+ - * / % ^ & | ! = < >)) }
pub fn quote_spanned_12<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => + - * / % ^ & | ! = < >)) }
pub fn quote_13<T: Parse>() -> Result<T> { Ok(try_parse_quote!(, ; : . @ # ? -> => == != <=)) }
pub fn quote_spanned_13<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => , ; : . @ # ? -> => == != <=)) }
pub fn quote_14<T: Parse>() -> Result<T> { Ok(try_parse_quote!(>= :: .. ... ..= += -= *= /= && || <<)) }
pub fn quote_spanned_14<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => >= :: .. ... ..= += -= *= /= && || <<)) }
pub fn quote_15<T: Parse>() -> Result<T> { Ok(try_parse_quote!(>> <<=)) }
pub fn quote_spanned_15<T: Parse>(span: Span) -> Result<T> { Ok(try_parse_quote_spanned!(span => >> <<=)) }
pub fn quote_twice<T: Parse, U: Parse, A: ToTokens>(a: &A) -> Result<(T, U)> { let x: T = try_parse_quote!(#a foo); let y: U = try_parse_quote!(bar #a); Ok((x, y)) }
pub fn quote_spanned_twice<T: Parse, U: Parse, A: ToTokens>(span: Span, other: Span, a: &A) -> Result<(T, U)> { let x: T = try_parse_quote_spanned!(span => #a foo); let y: U = try_parse_quote_spanned!(other => bar #a); Ok((x, y)) }
pub fn quote_other_error<T: Parse, E: From<Error>, A: ToTokens>(a: &A) -> core::result::Result<T, E> { let x: T = try_parse_quote!(#a); Ok(x) }
pub fn quote_repeat<T: Parse, A: ToTokens>(a: &[A]) -> Result<T> { Ok(try_parse_quote!([#(#a),*] #(#a)*)) }
pub fn quote_spanned_repeat<T: Parse, A: ToTokens>(span: &mut dyn FnMut() -> Span, a: &[A]) -> Result<T> { Ok(try_parse_quote_spanned!(span() => [#(#a),*] #(#a)* foo)) }
