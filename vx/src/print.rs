//! Token stream -> text, with line breaks so that verifier messages point somewhere useful.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn text(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s);
    s.trim().to_string()
}
fn go(ts: TokenStream, s: &mut String) {
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{\n", "\n}\n"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                go(g.stream(), s);
                while g.delimiter() == Delimiter::Brace && s.ends_with('\n') { s.pop(); }
                s.push_str(c);
                if g.delimiter() != Delimiter::Brace { s.push(' '); }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' { s.push('\n'); }
                else if p.spacing() == Spacing::Alone { s.push(' '); }
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
            }
        }
    }
}
