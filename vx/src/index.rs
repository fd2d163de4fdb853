//! Finds functions and types in the expanded source and resolves names through `use`.
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use syn::*;

#[derive(Clone)]
pub struct Func {
    pub key: String,
    pub module: Vec<String>,
    pub generics: Generics,       // of the impl (or empty)
    pub self_ty: Option<Type>,
    pub trait_: Option<Path>,
    pub sig: Signature,
    pub block: Block,
    pub assoc: Vec<ImplItemType>,
}
#[derive(Clone)]
pub struct TypeDef { pub name: String, pub module: Vec<String>, pub item: Item }

#[derive(Default)]
pub struct Index {
    pub funcs: Vec<Func>,
    pub types: Vec<TypeDef>,
    pub uses: HashMap<Vec<String>, BTreeMap<String, Vec<String>>>,
    pub locals: HashMap<Vec<String>, Vec<String>>,
    pub traits: Vec<(Vec<String>, ItemTrait)>,
}

pub fn flat(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

/// `Foo<T>` -> `Foo`, `&'a mut Foo<T>` -> `&mut Foo`: how types are written in keys.
pub fn ty_key(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            s.ident.to_string()
        }
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_key(&r.elem)),
        t => flat(t),
    }
}
/// in trait arguments everything is kept, but module prefixes are dropped
fn arg_key(t: &Type) -> String {
    struct S;
    impl visit_mut::VisitMut for S {
        fn visit_path_mut(&mut self, p: &mut Path) {
            visit_mut::visit_path_mut(self, p);
            let n = p.segments.len();
            if n > 1 && p.segments[0].ident != "Self" {
                // keep the crate for syn's twins of local types
                let first = p.segments[0].ident.to_string();
                let last = p.segments.last().unwrap().clone();
                let mut segs = punctuated::Punctuated::new();
                if first == "syn" { segs.push(p.segments[0].clone()); }
                segs.push(last);
                p.segments = segs;
            }
            p.leading_colon = None;
        }
    }
    let mut t = t.clone();
    visit_mut::VisitMut::visit_type_mut(&mut S, &mut t);
    flat(t)
}

impl Index {
    pub fn add_crate(&mut self, name: &str, f: &File) {
        self.items(&vec![name.to_string()], &f.items);
    }
    fn items(&mut self, m: &Vec<String>, items: &[Item]) {
        for it in items {
            match it {
                Item::Use(u) => {
                    let mut out = vec![];
                    use_tree(&u.tree, vec![], &mut out);
                    let e = self.uses.entry(m.clone()).or_default();
                    for (n, p) in out { e.insert(n, p); }
                }
                Item::Mod(x) => {
                    if let Some((_, its)) = &x.content {
                        let mut m2 = m.clone();
                        m2.push(x.ident.to_string());
                        self.locals.entry(m.clone()).or_default().push(x.ident.to_string());
                        self.items(&m2, its);
                    }
                }
                Item::Fn(x) => {
                    self.nested(m, &x.block);
                    self.locals.entry(m.clone()).or_default().push(x.sig.ident.to_string());
                    self.funcs.push(Func {
                        key: if m.len() > 1 { format!("{}::{}", m.last().unwrap(), x.sig.ident) } else { x.sig.ident.to_string() },
                        module: m.clone(), generics: Generics::default(), self_ty: None, trait_: None,
                        sig: x.sig.clone(), block: (*x.block).clone(), assoc: vec![],
                    });
                }
                Item::Struct(x) => self.ty(m, &x.ident, it),
                Item::Enum(x) => self.ty(m, &x.ident, it),
                Item::Type(x) => self.ty(m, &x.ident, it),
                Item::Trait(t) => {
                    self.traits.push((m.clone(), t.clone()));
                    self.locals.entry(m.clone()).or_default().push(t.ident.to_string());
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.funcs.push(Func {
                                    key: format!("trait {}::{}", t.ident, f.sig.ident),
                                    module: m.clone(), generics: t.generics.clone(), self_ty: None, trait_: None,
                                    sig: f.sig.clone(), block: b.clone(), assoc: vec![],
                                });
                            }
                        }
                    }
                }
                Item::Impl(x) => self.imp(m, x),
                // derive output sits in `const _: () = { .. }` for some macros
                Item::Const(c) => {
                    if let Expr::Block(b) = &*c.expr {
                        let its: Vec<Item> = b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                        self.items(m, &its);
                    }
                }
                _ => {}
            }
        }
    }
    /// functions declared inside a body; they cannot use what is local to it
    fn nested(&mut self, m: &Vec<String>, b: &Block) {
        for s in &b.stmts {
            if let Stmt::Item(Item::Fn(x)) = s {
                self.nested(m, &x.block);
                self.funcs.push(Func {
                    key: format!("{}::{}", m.last().unwrap(), x.sig.ident), module: m.clone(), generics: Generics::default(), self_ty: None, trait_: None,
                    sig: x.sig.clone(), block: (*x.block).clone(), assoc: vec![],
                });
            }
        }
    }
    fn ty(&mut self, m: &Vec<String>, id: &Ident, it: &Item) {
        self.locals.entry(m.clone()).or_default().push(id.to_string());
        self.types.push(TypeDef { name: id.to_string(), module: m.clone(), item: it.clone() });
    }
    fn imp(&mut self, m: &Vec<String>, x: &ItemImpl) {
        let st = ty_key(&x.self_ty);
        let self_args = match &*x.self_ty {
            Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => flat(a), _ => String::new() },
            _ => String::new(),
        };
        let prefix = match &x.trait_ {
            None => st.clone(),
            Some((_, p, _)) => {
                let s = p.segments.last().unwrap();
                let args = match &s.arguments {
                    PathArguments::AngleBracketed(a) => {
                        let v: Vec<String> = a.args.iter().filter_map(|g| match g {
                            GenericArgument::Type(t) => Some(arg_key(t)), _ => None }).collect();
                        if v.is_empty() { String::new() } else { format!("<{}>", v.join(",")) }
                    }
                    _ => String::new(),
                };
                let syn_twin = match &*x.self_ty { Type::Path(p) if p.path.segments[0].ident == "syn" => "syn::", _ => "" };
                format!("{}{} for {}{}", s.ident, args, syn_twin, st)
            }
        };
        let assoc: Vec<ImplItemType> = x.items.iter().filter_map(|i| if let ImplItem::Type(t) = i { Some(t.clone()) } else { None }).collect();
        for i in &x.items {
            if let ImplItem::Const(c) = i {
                // an associated constant is a function without parameters
                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                self.funcs.push(Func {
                    key: format!("{}::{}", prefix, id), module: m.clone(), generics: x.generics.clone(), self_ty: Some((*x.self_ty).clone()),
                    trait_: x.trait_.as_ref().map(|t| t.1.clone()), sig: parse_quote!(fn #id() -> #ty), block: parse_quote!({ #e }), assoc: assoc.clone(),
                });
            }
            if let ImplItem::Fn(f) = i {
                self.nested(m, &f.block);
                let mut key = format!("{}::{}", prefix, f.sig.ident);
                // several inherent impls for different instances of one type
                if self.funcs.iter().any(|g| g.key == key) || (x.trait_.is_none() && self_args.contains("<") && self_args[1..].contains('<')) {
                    key = match &x.trait_ {
                        None => format!("{}{}::{}", st, self_args, f.sig.ident),
                        Some(_) => format!("{}{}::{}", prefix, self_args, f.sig.ident),
                    };
                }
                self.funcs.push(Func {
                    key, module: m.clone(), generics: x.generics.clone(), self_ty: Some((*x.self_ty).clone()),
                    trait_: x.trait_.as_ref().map(|t| t.1.clone()), sig: f.sig.clone(), block: f.block.clone(), assoc: assoc.clone(),
                });
            }
        }
    }
    /// Resolve a path of segment names as written in module `m` to a full path.
    pub fn resolve(&self, m: &[String], segs: &[String], depth: usize) -> Vec<String> {
        if depth > 8 || segs.is_empty() { return segs.to_vec(); }
        let krate = m[0].clone();
        let mut segs = segs.to_vec();
        match segs[0].as_str() {
            "crate" => { segs[0] = krate; return self.deeper(&segs, depth); }
            "self" if segs.len() > 1 => { let mut v = m.to_vec(); v.extend_from_slice(&segs[1..]); return self.deeper(&v, depth); }
            "super" => { let mut v = m[..m.len() - 1].to_vec(); v.extend_from_slice(&segs[1..]); return self.deeper(&v, depth); }
            "Self" => return segs,
            _ => {}
        }
        if let Some(u) = self.uses.get(m).and_then(|u| u.get(&segs[0])) {
            if u != &segs[..1] {
                let mut v = u.clone();
                v.extend_from_slice(&segs[1..]);
                if v[0] == "crate" { v[0] = m[0].clone(); return self.deeper(&v, depth); }
                if v[0] == "self" || v[0] == "super" { return self.resolve(m, &v, depth + 1); }
                return self.deeper(&v, depth);
            }
        }
        if let Some(l) = self.locals.get(m) {
            if l.contains(&segs[0]) { let mut v = m.to_vec(); v.extend(segs); return v; }
        }
        self.deeper(&segs, depth)
    }
    /// `parsel::X` may itself be a re-export
    fn deeper(&self, v: &[String], depth: usize) -> Vec<String> {
        for k in (1..v.len()).rev() {
            let m = v[..k].to_vec();
            if let Some(u) = self.uses.get(&m) {
                if u.contains_key(&v[k]) { return self.resolve(&m, &v[k..], depth + 1); }
            }
        }
        v.to_vec()
    }
}

fn use_tree(t: &UseTree, pre: Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        UseTree::Path(p) => { let mut v = pre; v.push(p.ident.to_string()); use_tree(&p.tree, v, out) }
        UseTree::Name(n) => {
            if n.ident == "self" { out.push((pre.last().unwrap().clone(), pre)); }
            else { let mut v = pre; v.push(n.ident.to_string()); out.push((n.ident.to_string(), v)); }
        }
        UseTree::Rename(r) => { let mut v = pre; if r.ident != "self" { v.push(r.ident.to_string()); } out.push((r.rename.to_string(), v)); }
        UseTree::Group(g) => for t in &g.items { use_tree(t, pre.clone(), out) },
        UseTree::Glob(_) => {}
    }
}
