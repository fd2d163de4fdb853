//! Compares the headers of derived impls with the declarations they are derived for.
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::*;

fn text(t: &impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "").replace(",)", ")").replace(",>", ">") }

fn plain(t: &Type) -> &Type {
    match t { Type::Paren(p) => plain(&p.elem), Type::Group(g) => plain(&g.elem), _ => t }
}

fn bound(b: &TypeParamBound) -> String {
    if let TypeParamBound::Trait(t) = b {
        if let (true, Some(s)) = (matches!(t.modifier, TraitBoundModifier::None) && t.lifetimes.is_none(), t.path.segments.last()) {
            if s.arguments.is_none() && (s.ident == "Parse" || s.ident == "ToTokens") { return s.ident.to_string(); }
        }
    }
    text(b)
}

fn ty_name(t: &Type, me: &str) -> String {
    let s = text(plain(t));
    if s == me { "Self".into() } else { s }
}

/// what has to hold: parameters' bounds and where clause alike
fn preds(g: &Generics, me: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for p in &g.params {
        match p {
            GenericParam::Type(t) => for b in &t.bounds { out.insert(format!("{}: {}", text(&t.ident), bound(b))); },
            GenericParam::Lifetime(l) => for b in &l.bounds { out.insert(format!("{}: {}", text(&l.lifetime), text(b))); },
            GenericParam::Const(_) => {}
        }
    }
    for w in g.where_clause.iter().flat_map(|w| &w.predicates) {
        match w {
            WherePredicate::Type(t) => for b in &t.bounds { out.insert(format!("{}{}: {}", t.lifetimes.as_ref().map(|l| text(l) + " ").unwrap_or_default(), ty_name(&t.bounded_ty, me), bound(b))); },
            WherePredicate::Lifetime(l) => for b in &l.bounds { out.insert(format!("{}: {}", text(&l.lifetime), text(b))); },
            _ => {}
        }
    }
    out
}

fn params(g: &Generics) -> BTreeSet<String> {
    g.params.iter().map(|p| match p {
        GenericParam::Type(t) => text(&t.ident),
        GenericParam::Lifetime(l) => text(&l.lifetime),
        GenericParam::Const(c) => format!("const {}: {}", text(&c.ident), text(&c.ty)),
    }).collect()
}

fn recursive(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("parsel") && { let t = text(&a.meta); t == "parsel(recursive)" || t == "parsel(recursive=true)" })
}

pub fn compare(decls: &str, expanded: &str) -> Value {
    let parse = |f: &str| parse_file(&std::fs::read_to_string(f).unwrap()).unwrap();
    let (d, x) = (parse(decls), parse(expanded));
    let (mut wrong, mut checked) = (vec![], 0);
    for item in &d.items {
        let (attrs, ident, g, fields): (_, _, _, Vec<&Field>) = match item {
            Item::Struct(s) => (&s.attrs, &s.ident, &s.generics, s.fields.iter().collect()),
            Item::Enum(e) => (&e.attrs, &e.ident, &e.generics, e.variants.iter().flat_map(|v| v.fields.iter()).collect()),
            _ => continue,
        };
        if !attrs.iter().any(|a| a.path().is_ident("derive") && text(&a.meta).contains("Parse")) { continue; }
        let (_, args, _) = g.split_for_impl();
        let me = text(ident) + &text(&args);
        for (tr, of) in [("Parse", Some("Parse")), ("ToTokens", Some("ToTokens")), ("FromStr", None), ("Display", None)] {
            let mut want = preds(g, &me);
            match of {
                Some(t) => for f in &fields { if !recursive(&f.attrs) { want.insert(format!("{}: {}", ty_name(&f.ty, &me), t)); } },
                None => { want.insert(format!("Self: {}", if tr == "FromStr" { "Parse" } else { "ToTokens" })); }
            }
            let found: Vec<&ItemImpl> = x.items.iter().filter_map(|i| match i { Item::Impl(i) => Some(i), _ => None }).filter(|i| {
                i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == tr)
                    && matches!(plain(&i.self_ty), Type::Path(p) if p.path.segments.last().unwrap().ident == *ident)
            }).collect();
            checked += 1;
            let head = format!("derive({}) for {}", tr, text_spaced(item));
            if found.len() != 1 { wrong.push(json!({"input": head, "expected": "one impl", "got": format!("{} impls", found.len())})); continue; }
            let got = preds(&found[0].generics, &me);
            let (pw, pg) = (params(g), params(&found[0].generics));
            if want != got { wrong.push(json!({"input": head, "expected": format!("bounds {:?}", want), "got": format!("bounds {:?}", got)})); }
            else if pw != pg { wrong.push(json!({"input": head, "expected": format!("parameters {:?}", pw), "got": format!("parameters {:?}", pg)})); }
            else if text(plain(&found[0].self_ty)) != me { wrong.push(json!({"input": head, "expected": me, "got": text(&found[0].self_ty)})); }
        }
    }
    json!({"wrong": wrong, "checked": checked})
}

fn text_spaced(item: &Item) -> String {
    let mut i = item.clone();
    match &mut i { Item::Struct(s) => s.attrs.clear(), Item::Enum(e) => e.attrs.clear(), _ => {} }
    i.to_token_stream().to_string()
}
