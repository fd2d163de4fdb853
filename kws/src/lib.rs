//! Keyword lists on which define_keywords! is validated.
use ::parsel::define_keywords;
define_keywords! { pub mod kw_a { foo => Foo; bar => Bar; fn => Function; self => This; fo => Fo; FOO => Upper; _ => Underscore; } }
define_keywords! { pub mod kw_b { x => X; async => Async; } }
define_keywords! { pub mod kw_c { _ => Underscore; } }
define_keywords! { pub mod kw_d { } }
