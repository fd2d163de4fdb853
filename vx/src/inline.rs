//! A call of a function that has no contract is replaced by that function's body, so that an extracted
//! helper is judged by what it does. What cannot be inlined without changing the meaning is left alone
//! (the verifier then does not know the function, and the caller is undecided).
use crate::index::{flat, ty_key, Func, Index};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Inliner<'a> {
    ix: &'a Index,
    module: Vec<String>,
    self_ty: Option<String>,
    free: HashSet<String>,
    methods: HashSet<String>,
    assoc: HashSet<String>,
    stack: Vec<String>,
    pub done: Vec<String>,
    n: usize,
}

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

fn exits_block(b: &[Stmt]) -> bool { b.iter().any(exits_stmt) }
struct Ex(bool);
impl<'a> Visit<'a> for Ex {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn exits_stmt(s: &Stmt) -> bool { let mut v = Ex(false); v.visit_stmt(s); v.0 }
fn exits(e: &Expr) -> bool { let mut v = Ex(false); v.visit_expr(e); v.0 }

/// a `return` of anything but a failure
fn returns_value(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            let ok = r.expr.as_ref().map_or(false, |e| is_failure(e));
            if !ok { self.0 = true; }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
fn ctor(e: &Expr) -> Option<(String, Option<Expr>)> {
    match e {
        Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            Expr::Path(p) => Some((p.path.segments.last()?.ident.to_string(), Some(c.args[0].clone()))),
            _ => None,
        },
        Expr::Path(p) => Some((p.path.segments.last()?.ident.to_string(), None)),
        Expr::Paren(p) => ctor(&p.expr),
        _ => None,
    }
}
fn is_failure(e: &Expr) -> bool { matches!(ctor(e), Some((n, Some(_))) if n == "Err") || matches!(ctor(e), Some((n, None)) if n == "None") }

/// every name bound by a pattern
fn bound(b: &impl ToTokensVisit) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
    let mut v = V(vec![]);
    b.walk(&mut v);
    v.0
}
pub trait ToTokensVisit { fn walk<'a, V: Visit<'a>>(&'a self, v: &mut V); }
impl ToTokensVisit for Block { fn walk<'a, V: Visit<'a>>(&'a self, v: &mut V) { v.visit_block(self) } }
impl ToTokensVisit for Expr { fn walk<'a, V: Visit<'a>>(&'a self, v: &mut V) { v.visit_expr(self) } }

fn mentions(t: &impl ToTokens, name: &str) -> bool {
    fn go(t: TokenStream, n: &str) -> bool {
        t.into_iter().any(|x| match x {
            proc_macro2::TokenTree::Ident(i) => i == n,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
            _ => false,
        })
    }
    go(t.to_token_stream(), name)
}

/// renames a local variable (not fields, methods or types)
struct Rename<'a> { from: &'a str, to: &'a str }
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.is_ident(self.from) { p.path = id(self.to).into(); return; }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.from { p.ident = id(self.to); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Expr::Path(p) = &f.expr { if p.path.is_ident(self.from) { f.colon_token = Some(Default::default()); } }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Pat::Ident(p) = &*f.pat { if p.ident == self.from { f.colon_token = Some(Default::default()); } }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}

/// replaces calls `f(x)` of a parameter by the function that was passed
struct Beta<'a> { name: &'a str, f: &'a Expr, other: bool, n: usize }
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let mut callee = &*c.func;
            while let Expr::Paren(p) = callee { callee = &p.expr; }
            if matches!(callee, Expr::Path(p) if p.path.is_ident(self.name)) {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                match apply(self.f, &c.args.iter().cloned().collect::<Vec<_>>(), &mut self.n) { Some(x) => *e = x, None => self.other = true }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(self.name) { self.other = true; } }
}
fn apply(f: &Expr, args: &[Expr], n: &mut usize) -> Option<Expr> {
    match f {
        Expr::Closure(c) => {
            if exits(&c.body) || c.inputs.len() != args.len() { return None; }
            // arguments must not be captured by the parameters bound before them
            let mut st: Vec<Stmt> = vec![];
            let tmp: Vec<Ident> = args.iter().map(|_| { *n += 1; format_ident!("vx_a{}", n) }).collect();
            if args.len() > 1 { for (t, a) in tmp.iter().zip(args) { st.push(parse_quote!(let #t = #a;)); } }
            for ((p, t), a) in c.inputs.iter().zip(&tmp).zip(args) {
                let p = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let x: Expr = if args.len() > 1 { parse_quote!(#t) } else { a.clone() };
                if matches!((&p, &x), (Pat::Ident(i), Expr::Path(y)) if i.mutability.is_none() && y.path.is_ident(&i.ident)) { continue; }
                st.push(parse_quote!(let #p = #x;));
            }
            let b = &c.body;
            if st.is_empty() { return Some(parse_quote!({ #b })); }
            Some(parse_quote!({ #(#st)* #b }))
        }
        Expr::Path(p) => Some(parse_quote!(#p(#(#args),*))),
        Expr::Reference(r) => apply(&r.expr, args, n),
        _ => None,
    }
}

/// replaces type parameters by the types given at the call, or leaves them to inference
struct Types { map: HashMap<String, Option<Type>>, bad: bool }
impl VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if let Some(x) = self.map.get(&i.to_string()) { *t = x.clone().unwrap_or(parse_quote!(_)); return; }
                }
                if p.path.segments.len() > 1 { if let Some(x) = self.map.get(&p.path.segments[0].ident.to_string()) { self.first(&mut p.path, &x.clone()); } }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() > 1 {
            if let Some(x) = self.map.get(&p.path.segments[0].ident.to_string()) { self.first(&mut p.path, &x.clone()); }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}
impl Types {
    fn first(&mut self, p: &mut Path, t: &Option<Type>) {
        match t {
            Some(Type::Path(x)) if x.qself.is_none() => {
                let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = x.path.segments.clone();
                if let PathArguments::AngleBracketed(a) = &mut segs.last_mut().unwrap().arguments { a.colon2_token = Some(Default::default()); }
                for s in p.segments.iter().skip(1) { segs.push(s.clone()); }
                p.leading_colon = x.path.leading_colon;
                p.segments = segs;
            }
            _ => self.bad = true,
        }
    }
}

/// Self of another type
struct Other { name: Ident }
impl VisitMut for Other {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.qself.is_none() && p.path.is_ident("Self") { *t = parse_quote!(_); return; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_none() && p.segments.first().map_or(false, |s| s.ident == "Self") { p.segments[0].ident = self.name.clone(); }
    }
}
/// names of another module are written out in full
struct Absolute<'a> { ix: &'a Index, module: &'a [String], gens: HashSet<String> }
impl<'a> VisitMut for Absolute<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() { return; }
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if self.gens.contains(&names[0]) || names[0] == "Self" || names[0] == "self" && names.len() == 1 { return; }
        let full = self.ix.resolve(self.module, &names, 0);
        if full.len() < 2 || full == names || full.len() < names.len() { return; }
        let off = full.len() - names.len();
        let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
        for (i, n) in full.iter().enumerate() {
            let arguments = if i >= off { p.segments[i - off].arguments.clone() } else { PathArguments::None };
            segs.push(PathSegment { ident: id(n), arguments });
        }
        p.segments = segs;
        p.leading_colon = Some(Default::default());
    }
}

impl<'a> Inliner<'a> {
    pub fn new(ix: &'a Index, f: &Func, free: HashSet<String>, methods: HashSet<String>, assoc: HashSet<String>) -> Self {
        let self_ty = f.self_ty.as_ref().map(ty_key);
        Inliner { ix, module: f.module.clone(), self_ty, free, methods, assoc, stack: vec![f.key.clone()], done: vec![], n: 0 }
    }

    /// the helper that is called, its turbofish, and its arguments with the receiver first
    fn callee(&self, e: &Expr) -> Option<(Func, Vec<Type>, Vec<Expr>)> {
        let types = |a: &PathArguments| -> Vec<Type> {
            match a { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect(), _ => vec![] }
        };
        match e {
            Expr::Paren(p) => self.callee(&p.expr),
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => &p.path, _ => return None };
                let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = names.last().unwrap().clone();
                if last.chars().next().map_or(true, |c| c.is_uppercase()) { return None; }
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let tf = types(&p.segments.last().unwrap().arguments);
                if names.len() == 2 {
                    // an inherent function of a type of the crate
                    let ty = if names[0] == "Self" { self.self_ty.clone() } else { Some(names[0].clone()) };
                    let c: Vec<&Func> = self.ix.funcs.iter().filter(|g| g.self_ty.is_some() && g.trait_.is_none() && g.sig.ident == last && g.self_ty.as_ref().map(ty_key) == ty).collect();
                    if ty.as_ref().map_or(false, |t| self.assoc.contains(&format!("{}::{}", t, last))) { return None; }
                    if c.len() == 1 { return Some((c[0].clone(), tf, args)); }
                    if names[0] == "Self" || !c.is_empty() { return None; }
                }
                if self.free.contains(&last) { return None; }
                let full = if p.leading_colon.is_some() { self.ix.resolve(&["".to_string()], &names, 0) } else { self.ix.resolve(&self.module, &names, 0) };
                let full = if full.len() == 1 { let mut v = self.module.clone(); v.extend(full); v } else { full };
                let c: Vec<&Func> = self.ix.funcs.iter().filter(|g| g.self_ty.is_none() && !g.key.starts_with("trait ") && g.sig.ident == last && g.module == full[..full.len() - 1]).collect();
                if c.len() == 1 { Some((c[0].clone(), tf, args)) } else { None }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.methods.contains(&n) { return None; }
                let all: Vec<&Func> = self.ix.funcs.iter().filter(|g| g.self_ty.is_some() && g.sig.ident == n && g.sig.inputs.first().map_or(false, |a| matches!(a, FnArg::Receiver(_)))).collect();
                // the receiver's type is not known: the name must be unique
                if all.len() != 1 || all[0].trait_.is_some() { return None; }
                if !matches!(&*m.receiver, Expr::Path(p) if p.path.get_ident().is_some()) { return None; }
                let mut args = vec![(*m.receiver).clone()];
                args.extend(m.args.iter().cloned());
                let tf = m.turbofish.as_ref().map_or(vec![], |t| t.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect());
                Some((all[0].clone(), tf, args))
            }
            _ => None,
        }
    }

    /// the helper's body in terms of the arguments: (statements that bind arguments, body, type of the result)
    fn open(&mut self, f: &Func, tf: &[Type], args: &[Expr]) -> Option<(Vec<Stmt>, Block, Option<Type>)> {
        if self.stack.contains(&f.key) || self.stack.len() > 4 || f.sig.inputs.len() != args.len() { return None; }
        if f.block.stmts.iter().any(|s| matches!(s, Stmt::Item(i) if !matches!(i, Item::Use(_)))) { return None; }
        let mut body = f.block.clone();
        self.n += 1;
        let n = self.n;
        // type parameters
        let gens: Vec<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut ret = match &f.sig.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
        if !gens.is_empty() {
            let map = gens.iter().enumerate().map(|(i, g)| (g.clone(), tf.get(i).cloned())).collect();
            let mut t = Types { map, bad: false };
            t.visit_block_mut(&mut body);
            if let Some(r) = &mut ret { t.visit_type_mut(r); }
            if t.bad { return None; }
        }
        // another type's function: Self and the parameters of its impl are not ours
        if let Some(t) = &f.self_ty {
            if Some(ty_key(t)) != self.self_ty {
                let impl_gens: Vec<String> = f.generics.type_params().map(|t| t.ident.to_string()).collect();
                let mut t = Types { map: impl_gens.iter().map(|g| (g.clone(), None)).collect(), bad: false };
                t.visit_block_mut(&mut body);
                if let Some(r) = &mut ret { t.visit_type_mut(r); }
                if t.bad { return None; }
                let mut o = Other { name: id(&ty_key(f.self_ty.as_ref().unwrap())) };
                o.visit_block_mut(&mut body);
                if let Some(r) = &mut ret { o.visit_type_mut(r); }
            }
        }
        if f.module != self.module {
            let mut a = Absolute { ix: self.ix, module: &f.module, gens: bound(&body).into_iter().chain(f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { crate::render::pat_name(&t.pat) } else { None })).collect() };
            a.visit_block_mut(&mut body);
            if let Some(r) = &mut ret { a.visit_type_mut(r); }
        }
        if matches!(ret, Some(Type::ImplTrait(_))) || mentions(&ret, "impl") { ret = None; }
        let mut lets: Vec<Stmt> = vec![];
        for (i, (p, arg)) in f.sig.inputs.iter().zip(args).enumerate() {
            let (pat, stream) = match p {
                FnArg::Receiver(_) => {
                    let x = match arg { Expr::Path(p) => p.path.get_ident()?.to_string(), _ => return None };
                    if x != "self" { self.subst(&mut body, "self", &x, n)?; }
                    continue;
                }
                FnArg::Typed(t) => ((*t.pat).clone(), crate::render::is_stream(&t.ty)),
            };
            let name = match &pat { Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()), _ => None };
            if let Some(name) = &name {
                // a function as argument
                let callee = matches!(arg, Expr::Closure(_)) || matches!(arg, Expr::Path(p) if p.path.segments.len() > 1 || p.path.get_ident().map_or(false, |i| i.to_string().chars().next().unwrap().is_uppercase()));
                if callee {
                    let mut b2 = body.clone();
                    let mut k = n * 100;
                    let mut beta = Beta { name, f: arg, other: false, n: 0 };
                    std::mem::swap(&mut beta.n, &mut k);
                    beta.visit_block_mut(&mut b2);
                    if !beta.other { body = b2; continue; }
                }
                // a variable as argument
                let mut a = arg;
                loop {
                    match a {
                        Expr::Paren(p) => a = &p.expr,
                        Expr::Reference(r) => match &*r.expr {
                            // a reborrow, or the buffer itself
                            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if r.mutability.is_some() => a = expr,
                            x @ Expr::Path(_) if stream => a = x,
                            _ => break,
                        },
                        _ => break,
                    }
                }
                if let Expr::Path(p) = a {
                    if let Some(x) = p.path.get_ident() {
                        let x = x.to_string();
                        if x != *name { self.subst(&mut body, name, &x, n)?; }
                        continue;
                    }
                }
                // anything else is bound once, before the body
                let later = args[i + 1..].iter().any(|a| mentions(a, name));
                let nm = if later { format!("{}_h{}", name, n) } else { name.clone() };
                if later { let t = nm.clone(); Rename { from: name, to: &t }.visit_block_mut(&mut body); }
                let nm = id(&nm);
                lets.push(parse_quote!(let #nm = #arg;));
                continue;
            }
            if args[i + 1..].iter().any(|a| bound_pat(&pat).iter().any(|x| mentions(a, x))) { return None; }
            lets.push(parse_quote!(let #pat = #arg;));
        }
        self.stack.push(f.key.clone());
        let (m0, s0) = (self.module.clone(), self.self_ty.clone());
        if f.module != self.module && f.self_ty.is_none() { self.module = f.module.clone(); }
        self.block(&mut body, true);
        self.module = m0; self.self_ty = s0;
        self.stack.pop();
        let ret = if gens.is_empty() { None } else { ret };
        Some((lets, body, ret))
    }
    fn subst(&self, body: &mut Block, from: &str, to: &str, n: usize) -> Option<()> {
        // what the body itself calls `to` gets another name
        if bound(body).iter().any(|b| b == to) { let t = format!("{}_h{}", to, n); Rename { from: to, to: &t }.visit_block_mut(body); }
        if bound(body).iter().any(|b| b == from) { return None; }
        Rename { from, to }.visit_block_mut(body);
        Some(())
    }

    fn finish(&mut self, f: &Func, lets: Vec<Stmt>, value: Expr, ty: Option<Type>) -> Expr {
        self.done.push(f.key.clone());
        match ty {
            Some(t) => parse_quote!({ #(#lets)* let vx_r: #t = #value; vx_r }),
            None if lets.is_empty() => value,
            None => match value {
                Expr::Block(b) if b.label.is_none() => { let st = &b.block.stmts; parse_quote!({ #(#lets)* #(#st)* }) }
                v => parse_quote!({ #(#lets)* #v }),
            },
        }
    }

    /// the call is the value of the enclosing function: every way out of the helper is one out of the caller
    fn at_tail(&mut self, e: &Expr) -> Option<Expr> {
        let (f, tf, args) = self.callee(e)?;
        let (lets, body, ty) = self.open(&f, &tf, &args)?;
        let ty = if exits_block(&body.stmts) { None } else { ty };
        Some(self.finish(&f, lets, parse_quote!(#body), ty))
    }
    /// `helper(..)?`
    fn at_try(&mut self, e: &Expr) -> Option<Expr> {
        let (f, tf, args) = self.callee(e)?;
        let (lets, mut body, ty) = self.open(&f, &tf, &args)?;
        if returns_value(&body) { return None; }
        push_try(&mut body)?;
        let ty = ty.and_then(|t| match &t {
            Type::Path(p) => match &p.path.segments.last()?.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }),
                _ => None,
            },
            _ => None,
        });
        Some(self.finish(&f, lets, parse_quote!(#body), ty))
    }
    /// anywhere else: the body must become an expression without a way out
    fn at_value(&mut self, e: &Expr) -> Option<Expr> {
        let (f, tf, args) = self.callee(e)?;
        let opt = match &f.sig.output { ReturnType::Type(_, t) => ty_key(t) == "Option", _ => false };
        let (lets, body, ty) = self.open(&f, &tf, &args)?;
        let mut k = 0;
        let v = value_of(&body.stmts, opt, &mut k)?;
        Some(self.finish(&f, lets, v, ty))
    }

    pub fn block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n && tail => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
        local_closures(b);
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => { let mut k = b.block.clone(); self.block(&mut k, true); b.block = k; }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                let mut k = i.then_branch.clone(); self.block(&mut k, true); i.then_branch = k;
                if let Some((_, x)) = &mut i.else_branch { self.tail(x); }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    self.tail(&mut a.body);
                }
            }
            e => match self.at_tail(e) { Some(x) => *e = x, None => self.visit_expr_mut(e) },
        }
    }
}
fn bound_pat(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); } }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.block(b, false); }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => { if let Some(x) = &mut r.expr { self.tail(x); } return; }
            Expr::Try(t) => {
                if let Some(mut x) = self.at_try(&t.expr) { std::mem::swap(e, &mut x); return; }
            }
            Expr::Closure(c) => { self.tail(&mut c.body); return; }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(x) = self.at_value(e) { *e = x; return; }
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            // a helper handed to a combinator
            if ["map", "and_then", "map_err", "map_or", "map_or_else", "or_else"].contains(&m.method.to_string().as_str()) {
                let one = m.args.len() == 1;
                for (i, a) in m.args.iter_mut().enumerate() {
                    if !(one || i == 1) { continue; }
                    if let Expr::Path(p) = a {
                        let c: Expr = parse_quote!(#p(vx_a));
                        if self.callee(&c).is_some() { *a = parse_quote!(|vx_a| #c); }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `{ ..; T }?`  ->  `{ ..; T? }`
fn push_try(b: &mut Block) -> Option<()> {
    match b.stmts.last_mut()? {
        Stmt::Expr(e, None) => push_try_expr(e),
        _ => None,
    }
}
fn push_try_expr(e: &mut Expr) -> Option<()> {
    match e {
        Expr::Block(b) => return push_try(&mut b.block),
        Expr::If(i) => {
            push_try(&mut i.then_branch)?;
            return push_try_expr(&mut i.else_branch.as_mut()?.1);
        }
        Expr::Match(m) => { for a in &mut m.arms { push_try_expr(&mut a.body)?; } return Some(()); }
        Expr::Return(_) => return Some(()),
        _ => {}
    }
    let x = match ctor(e) {
        Some((n, Some(x))) if n == "Ok" || n == "Some" => x,
        Some((n, _)) if n == "Err" || n == "None" => { let y = e.clone(); parse_quote!(return #y) }
        _ => { let y = e.clone(); parse_quote!((#y)?) }
    };
    *e = x;
    Some(())
}

/// The value of a body, with every `return` and `?` turned into a branch.
fn value_of(st: &[Stmt], opt: bool, k: &mut usize) -> Option<Expr> {
    let i = match st.iter().position(exits_stmt) {
        None => return Some(parse_quote!({ #(#st)* })),
        Some(i) => i,
    };
    let (before, rest) = (&st[..i], &st[i + 1..]);
    let wrap = |e: Expr| -> Expr { if before.is_empty() { e } else { parse_quote!({ #(#before)* #e }) } };
    let inner: Expr = match &st[i] {
        Stmt::Expr(Expr::Return(r), _) => return tail_value(&**r.expr.as_ref()?, opt, k).map(wrap),
        Stmt::Expr(Expr::If(f), _) if !rest.is_empty() && f.else_branch.is_none() && !exits(&f.cond) && diverges(&f.then_branch) => {
            let a = value_of(&f.then_branch.stmts, opt, k)?;
            let b = value_of(rest, opt, k)?;
            let c = &f.cond;
            parse_quote!(if #c { #a } else { #b })
        }
        Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) if !exits(expr) => {
            let b = value_of(rest, opt, k)?;
            let d = tail_value(d, opt, k)?;
            parse_quote!(match #expr { #pat => #b, _ => #d })
        }
        Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) if matches!(&**expr, Expr::Match(m) if !exits(&m.expr)) && branch_ok(expr) => {
            let m = if let Expr::Match(m) = &**expr { m } else { unreachable!() };
            let mut m2 = m.clone();
            for a in &mut m2.arms {
                if diverges_expr(&a.body) { a.body = Box::new(tail_value(&a.body, opt, k)?); }
                else {
                    let v = &a.body;
                    let mut s2: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                    s2.extend(rest.iter().cloned());
                    a.body = Box::new(value_of(&s2, opt, k)?);
                }
                a.comma = Some(Default::default());
            }
            Expr::Match(m2)
        }
        Stmt::Expr(e, None) if rest.is_empty() && matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) && !head_exits(e) => return tail_value(e, opt, k).map(wrap),
        s => {
            // the first `?` that is evaluated decides
            let mut s2 = s.clone();
            *k += 1;
            let q = format_ident!("vx_q{}", *k);
            let e = match &mut s2 {
                Stmt::Local(Local { init: Some(LocalInit { expr, diverge: None, .. }), .. }) => &mut **expr,
                Stmt::Expr(e, _) => e,
                _ => return None,
            };
            let inner = first_try(e, &q)?;
            let mut s3 = vec![s2];
            if let Stmt::Expr(Expr::Path(_), Some(_)) = &s3[0] { s3.clear(); }
            s3.extend(rest.iter().cloned());
            let b = value_of(&s3, opt, k)?;
            if opt { parse_quote!(match #inner { Some(#q) => #b, None => None }) }
            else { let er = format_ident!("vx_e{}", *k); parse_quote!(match #inner { Ok(#q) => #b, Err(#er) => Err(#er) }) }
        }
    };
    Some(wrap(inner))
}
fn head_exits(e: &Expr) -> bool {
    match e { Expr::If(i) => exits(&i.cond), Expr::Match(m) => exits(&m.expr), _ => false }
}
fn tail_value(e: &Expr, opt: bool, k: &mut usize) -> Option<Expr> {
    if !exits(e) { return Some(e.clone()); }
    match e {
        Expr::Return(r) => tail_value(r.expr.as_ref()?, opt, k),
        Expr::Block(b) if b.label.is_none() => value_of(&b.block.stmts, opt, k),
        Expr::If(i) if !exits(&i.cond) => {
            let a = value_of(&i.then_branch.stmts, opt, k)?;
            let b = tail_value(&i.else_branch.as_ref()?.1, opt, k)?;
            let c = &i.cond;
            Some(parse_quote!(if #c { #a } else { #b }))
        }
        Expr::Match(m) if !exits(&m.expr) => {
            let mut m2 = m.clone();
            for a in &mut m2.arms { a.body = Box::new(tail_value(&a.body, opt, k)?); a.comma = Some(Default::default()); }
            Some(Expr::Match(m2))
        }
        e => value_of(&[Stmt::Expr(e.clone(), None)], opt, k),
    }
}
fn diverges(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(e, _)) if diverges_expr(e)) }
fn diverges_expr(e: &Expr) -> bool {
    match e { Expr::Return(_) => true, Expr::Block(b) => diverges(&b.block), _ => false }
}
fn branch_ok(e: &Expr) -> bool {
    let m = if let Expr::Match(m) = e { m } else { return false };
    m.arms.iter().filter(|a| !diverges_expr(&a.body)).count() == 1
}
/// takes out the `?` that is evaluated before anything else of the expression
fn first_try(e: &mut Expr, q: &Ident) -> Option<Expr> {
    match e {
        Expr::Try(t) => {
            if exits(&t.expr) { return first_try(&mut t.expr, q); }
            let x = (*t.expr).clone();
            *e = parse_quote!(#q);
            Some(x)
        }
        Expr::Paren(p) => first_try(&mut p.expr, q),
        Expr::Reference(r) => first_try(&mut r.expr, q),
        Expr::Field(f) => first_try(&mut f.base, q),
        Expr::Unary(u) => first_try(&mut u.expr, q),
        Expr::Cast(c) => first_try(&mut c.expr, q),
        Expr::Match(m) if exits(&m.expr) => first_try(&mut m.expr, q),
        Expr::If(i) if exits(&i.cond) => first_try(&mut i.cond, q),
        Expr::Let(l) => first_try(&mut l.expr, q),
        Expr::Return(r) => first_try(r.expr.as_mut()?, q),
        Expr::MethodCall(m) => {
            if exits(&m.receiver) { return first_try(&mut m.receiver, q); }
            if !plain(&m.receiver) { return None; }
            for a in m.args.iter_mut() { if exits(a) { return first_try(a, q); } if !plain(a) { return None; } }
            None
        }
        Expr::Call(c) => {
            for a in c.args.iter_mut() { if exits(a) { return first_try(a, q); } if !plain(a) { return None; } }
            None
        }
        Expr::Tuple(t) => {
            for a in t.elems.iter_mut() { if exits(a) { return first_try(a, q); } if !plain(a) { return None; } }
            None
        }
        Expr::Struct(s) if s.rest.is_none() => {
            for f in s.fields.iter_mut() { if exits(&f.expr) { return first_try(&mut f.expr, q); } if !plain(&f.expr) { return None; } }
            None
        }
        Expr::Binary(b) => {
            if exits(&b.left) { return first_try(&mut b.left, q); }
            None
        }
        _ => None,
    }
}
/// nothing happens when it is evaluated
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => true,
        Expr::Reference(r) => plain(&r.expr),
        Expr::Field(f) => plain(&f.base),
        Expr::Paren(p) => plain(&p.expr),
        _ => false,
    }
}

/// `let f = |x| ..; .. f(a) ..` -> `.. { let x = a; .. } ..`
fn local_closures(b: &mut Block) {
    let mut i = 0;
    while i < b.stmts.len() {
        let c = match &b.stmts[i] {
            Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) if matches!(&**expr, Expr::Closure(c) if c.capture.is_none()) => Some((p.ident.to_string(), (**expr).clone())),
            _ => None,
        };
        if let Some((name, f)) = c {
            // the names the closure uses mean the same where it is called
            let all: Vec<String> = b.stmts[i + 1..].iter().flat_map(|s| { let k: Block = parse_quote!({ #s }); bound(&k) }).collect();
            let own = if let Expr::Closure(c) = &f { c.inputs.iter().flat_map(bound_pat).collect::<Vec<_>>() } else { vec![] };
            let clash = all.iter().any(|x| !own.contains(x) && mentions(&f, x));
            if !clash {
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let mut beta = Beta { name: &name, f: &f, other: false, n: 9000 + i * 10 };
                let before = flat(&rest);
                beta.visit_block_mut(&mut rest);
                if !beta.other && flat(&rest) != before {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest.stmts);
                    continue;
                }
            }
        }
        i += 1;
    }
}
