//! The rendering rules. Each is a local, meaning-preserving rewrite; DESIGN.md lists them.
use crate::index::{Func, Index};
use crate::print::text;
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct R<'a> {
    ix: &'a Index,
    module: Vec<String>,
    bufs: HashSet<String>,
    buf_params: HashSet<String>,
    parent: HashMap<String, String>, // content buffer -> buffer it was split from
    errors: Vec<String>,
    loops: Vec<String>,
    clos: usize,
    tmp: usize,
    opts: Value,
    calls: BTreeSet<String>,
    rules: BTreeSet<String>,
}

const PRIMS: &[&str] = &["str", "u8", "char", "u64", "i64", "usize", "bool", "f64", "u32", "i32"];

impl<'a> R<'a> {
    fn new(ix: &'a Index, module: &[String], opts: Value) -> Self {
        R { ix, module: module.to_vec(), bufs: HashSet::new(), buf_params: HashSet::new(), parent: HashMap::new(), errors: vec![],
            loops: vec![], clos: 0, tmp: 0, opts, calls: BTreeSet::new(), rules: BTreeSet::new() }
    }
    fn rule(&mut self, s: &str) { self.rules.insert(s.to_string()); }
    fn fresh(&mut self, s: &str) -> Ident { self.tmp += 1; format_ident!("vx_{}_{}", s, self.tmp) }

    fn map_path(&mut self, p: &mut Path, qpos: usize) {
        if qpos > 0 {
            // <T as Trait>::name
            let mut head = Path { leading_colon: p.leading_colon, segments: p.segments.iter().take(qpos).cloned().collect() };
            let tail: Vec<PathSegment> = p.segments.iter().skip(qpos).cloned().collect();
            self.map_path(&mut head, 0);
            head.leading_colon = None;
            for t in tail { head.segments.push(t); }
            *p = head;
            return;
        }
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if names[0] == "Self" || names[0] == "self" && names.len() == 1 { p.leading_colon = None; return; }
        let full = if p.leading_colon.is_some() { self.ix.resolve(&[names[0].clone()], &names, 7) } else { self.ix.resolve(&self.module, &names, 0) };
        let full = if p.leading_colon.is_some() { self.ix.resolve(&vec!["".to_string()], &full, 0) } else { full };
        let off = full.len() as isize - names.len() as isize;
        p.leading_colon = None;
        let up = full.iter().position(|s| s.chars().next().map_or(false, |c| c.is_uppercase()));
        match up {
            None => {
                if names.len() == 2 && PRIMS.contains(&names[0].as_str()) {
                    let id = format_ident!("{}_{}", names[0], names[1]);
                    *p = parse_quote!(#id);
                    return;
                }
                let mut last = p.segments.last().unwrap().clone();
                if full.len() > 1 {
                    self.calls.insert(full.join("::"));
                    let f = full.join("::");
                    if f == "core::mem::drop" || f == "std::mem::drop" { last.ident = format_ident!("drop"); }
                    if let PathArguments::Parenthesized(_) = last.arguments {} else if PRIMS.contains(&last.ident.to_string().as_str()) {}
                }
                p.segments = std::iter::once(last).collect();
            }
            Some(i) => {
                let mods = &full[..i];
                let t = full[i].clone();
                let new = shim_name(mods, &t);
                let start = (i as isize - off).max(0) as usize;
                let mut segs: Vec<PathSegment> = p.segments.iter().skip(start).cloned().collect();
                segs[0].ident = Ident::new(&new, Span::call_site());
                if segs.len() == 2 && (t == "Result" || t == "Option") {
                    let v = segs[1].ident.to_string();
                    if ["Ok", "Err", "Some", "None"].contains(&v.as_str()) { segs.remove(0); }
                }
                if segs.len() >= 2 { self.calls.insert(segs.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")); }
                p.segments = segs.into_iter().collect();
                let whole = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(n) = self.opts["paths"][&whole].as_str().map(String::from) {
                    self.rule("function of std -> its model");
                    let id = Ident::new(&n, Span::call_site());
                    *p = parse_quote!(#id);
                }
            }
        }
    }

    fn apply(&mut self, f: &Expr, arg: Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                if has_return(&c.body) { return None; }
                let p = &c.inputs[0];
                let b = &c.body;
                Some(parse_quote!({ let #p = #arg; #b }))
            }
            Expr::Path(p) => {
                // enum constructors and functions
                Some(parse_quote!(#p(#arg)))
            }
            _ => None,
        }
    }
    fn apply0(&mut self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() && !has_return(&c.body) => { let b = &c.body; Some(parse_quote!({ #b })) }
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    fn is_buf(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|s| self.bufs.contains(s)),
            Expr::Paren(p) => self.is_buf(&p.expr),
            Expr::Reference(r) => self.is_buf(&r.expr),
            _ => None,
        }
    }
    fn buf_ref(&self, name: &str) -> Expr {
        let id = Ident::new(name, Span::call_site());
        if self.buf_params.contains(name) { parse_quote!(&mut *#id) } else { parse_quote!(&mut #id) }
    }

    /// One rewriting step at the root of `e`.
    fn step(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => self.step_method(m),
            Expr::Call(c) => self.step_call(c),
            Expr::ForLoop(f) => {
                self.rule("for loop -> loop over next()");
                let it = self.fresh("it");
                let pat = &f.pat; let body = &f.body; let label = &f.label;
                let src: Expr = match &*f.expr {
                    Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() => {
                        let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                        parse_quote!(vx_range(#a, #b))
                    }
                    x => parse_quote!(vx_into_iter(#x)),
                };
                if label.is_some() { self.errors.push("labelled loop".into()); }
                Some(parse_quote!({ let mut #it = #src; loop { match #it.next() { Some(#pat) => #body, None => { break; } } } }))
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    self.rule("while let -> loop with match");
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    return Some(parse_quote!(loop { match #x { #p => #b, _ => { break; } } }));
                }
                None
            }
            Expr::Reference(r) if r.mutability.is_none() && self.opts["str"] == true && matches!(&*r.expr, Expr::Index(_)) => {
                let Expr::Index(i) = &*r.expr else { unreachable!() };
                self.rule("&text[range] -> vx_str_slice(text, range)");
                let (a, b) = (&i.expr, &i.index);
                Some(parse_quote!(vx_str_slice(#a, #b)))
            }
            Expr::Field(f) if matches!(&f.member, Member::Unnamed(_)) => {
                // a component of a tuple that is written out; the others are values without effects
                let (Expr::Tuple(t), Member::Unnamed(i)) = (&*f.base, &f.member) else { return None };
                let k = i.index as usize;
                if k >= t.elems.len() || !t.elems.iter().enumerate().all(|(j, e)| j == k || matches!(e, Expr::Lit(_) | Expr::Path(_) | Expr::Closure(_))) { return None; }
                self.rule("(a, b).0 -> a");
                Some(t.elems[k].clone())
            }
            Expr::Path(p) if p.path.segments.len() > 1 && self.opts["consts"].as_array().map_or(false, |a| a.iter().any(|c| c.as_str() == Some(&p.path.segments.last().unwrap().ident.to_string()))) => {
                self.rule("associated constant -> function without parameters");
                let mut p = p.clone();
                let l = p.path.segments.last_mut().unwrap();
                l.ident = format_ident!("vx_{}", l.ident);
                Some(parse_quote!(#p()))
            }
            Expr::Binary(b) if self.opts["eq"] == true && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                self.rule("a == b, a < b, .. -> call of the model of the operator");
                let (l, r) = (&b.left, &b.right);
                Some(match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_op_eq(&(#l), &(#r))),
                    BinOp::Ne(_) => parse_quote!((!vx_op_eq(&(#l), &(#r)))),
                    BinOp::Lt(_) => parse_quote!(vx_op_lt(&(#l), &(#r))),
                    BinOp::Le(_) => parse_quote!(vx_op_le(&(#l), &(#r))),
                    BinOp::Gt(_) => parse_quote!(vx_op_lt(&(#r), &(#l))),
                    _ => parse_quote!(vx_op_le(&(#r), &(#l))),
                })
            }
            Expr::Reference(r) if self.opts["index"] == true && matches!(&*r.expr, Expr::Index(_)) => {
                let Expr::Index(i) = &*r.expr else { unreachable!() };
                self.rule("&a[i] -> vx_index(&a, i)");
                let (a, b) = (&i.expr, &i.index);
                Some(if r.mutability.is_some() { parse_quote!(vx_index_mut(&mut #a, #b)) } else { parse_quote!(vx_index(&#a, #b)) })
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Path(_) = &*r.expr {
                    if let Some(b) = self.is_buf(&r.expr) {
                        self.rule("shared borrow of a parse buffer -> exclusive borrow");
                        return Some(self.buf_ref(&b));
                    }
                }
                None
            }
            Expr::Block(b) if b.label.is_some() => { self.errors.push("labelled block".into()); None }
            _ => None,
        }
    }

    fn step_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &*m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        let kind = self.opts["kinds"][&name].as_str().map(|s| s.to_string());
        let rtext = recv.to_token_stream().to_string();
        let resultish = |dflt: &str| -> String {
            if let Some(k) = &kind { return k.clone(); }
            if rtext.contains(". parse") || rtext.contains(". call") || rtext.contains("parse (") { "Result".into() } else { dflt.to_string() }
        };
        if let Some(n2) = self.opts["ren"][&name].as_str().map(|s| s.to_string()) {
            self.rule("method renamed to its model");
            let mut n = m.clone();
            n.method = Ident::new(&n2, Span::call_site());
            return Some(Expr::MethodCall(n));
        }
        if self.opts["str"] == true {
            const STR: [&str; 9] = ["len", "split_inclusive", "char_indices", "chars", "lines", "bytes", "is_char_boundary", "get", "split"];
            if STR.contains(&name.as_str()) {
                self.rule("str::f -> vx_f (model of the method of str)");
                let mut n = m.clone();
                n.method = format_ident!("vx_{}", name);
                return Some(Expr::MethodCall(n));
            }
            // the prefix is used up before anything else looks at the iterator again
            if ["sum", "count", "last"].contains(&name.as_str()) {
                if let Some(r) = eager_prefix(recv) {
                    self.rule("x.by_ref().take(n)... consumed at once -> x.vx_take_front(n)...");
                    let mut n = m.clone();
                    n.receiver = Box::new(r);
                    return Some(Expr::MethodCall(n));
                }
            }
            // |x| x.f() is the function f
            if let (true, [Expr::Closure(c)]) = (["map", "flat_map"].contains(&name.as_str()) && kind.as_deref() == Some("iter") || name == "flat_map", &args[..]) {
                if let (1, Some(Pat::Ident(p)), Expr::MethodCall(b)) = (c.inputs.len(), c.inputs.first(), &*c.body) {
                    if b.args.is_empty() && matches!(&*b.receiver, Expr::Path(q) if q.path.is_ident(&p.ident)) {
                        let id = format_ident!("{}_str_{}", name, b.method);
                        self.rule("iterator adaptor with a named function -> adaptor of that name");
                        return Some(parse_quote!(#recv.#id()));
                    }
                }
            }
        }
        match (name.as_str(), args.len()) {
            ("call", 1) if self.is_buf(recv).is_some() => {
                let b = self.buf_ref(&self.is_buf(recv).unwrap());
                self.rule("input.call(f) -> f(input)");
                match args[0] {
                    Expr::Path(p) => Some(parse_quote!(#p(#b))),
                    Expr::Closure(_) => self.apply(args[0], b),
                    _ => None,
                }
            }
            ("into_iter", 0) => { self.rule("x.into_iter() -> vx_into_iter(x)"); Some(parse_quote!(vx_into_iter(#recv))) }
            ("map_err", 1) => {
                let a = self.apply(args[0], parse_quote!(vx_e))?;
                self.rule("map_err -> match");
                Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#a) }))
            }
            ("unwrap_or_else", 1) => {
                self.rule("unwrap_or_else -> match");
                if let Some(a) = self.apply0(args[0]).filter(|_| matches!(args[0], Expr::Closure(c) if c.inputs.is_empty())) {
                    Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => #a }))
                } else {
                    let a = self.apply(args[0], parse_quote!(vx_e))?;
                    Some(parse_quote!(match #recv { Ok(vx_v) => vx_v, Err(vx_e) => #a }))
                }
            }
            ("ok_or_else", 1) => {
                let a = self.apply0(args[0])?;
                self.rule("ok_or_else -> match");
                Some(parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#a) }))
            }
            ("map", 1) | ("flat_map", 1) | ("filter", 1) if kind.as_deref() == Some("iter") || name != "map" => {
                if let Expr::Path(p) = args[0] {
                    let mut q = p.path.clone();
                    self.map_path(&mut q, 0);
                    let id = format_ident!("{}_{}", name, q.segments.last().unwrap().ident);
                    self.rule("iterator adaptor with a named function -> adaptor of that name");
                    return Some(parse_quote!(#recv.#id()));
                }
                None
            }
            ("map", 1) => {
                let a = self.apply(args[0], parse_quote!(vx_v))?;
                self.rule("map -> match");
                if resultish("Option") == "Result" {
                    Some(parse_quote!(match #recv { Ok(vx_v) => Ok(#a), Err(vx_e) => Err(vx_e) }))
                } else {
                    Some(parse_quote!(match #recv { Some(vx_v) => Some(#a), None => None }))
                }
            }
            ("map", 2) => {
                let a = self.apply(args[0], parse_quote!(vx_v))?;
                let b = self.apply(args[1], parse_quote!(vx_v))?;
                self.rule("Either::map(f, g) with literal functions -> match");
                Some(parse_quote!(match #recv { Either::Left(vx_v) => Either::Left(#a), Either::Right(vx_v) => Either::Right(#b) }))
            }
            ("map_or", 2) => {
                let d = args[0];
                let a = self.apply(args[1], parse_quote!(vx_v))?;
                self.rule("map_or -> match");
                if resultish("Option") == "Result" {
                    Some(parse_quote!(match #recv { Ok(vx_v) => #a, Err(_) => #d }))
                } else {
                    Some(parse_quote!(match #recv { Some(vx_v) => #a, None => #d }))
                }
            }
            ("and_then", 1) => {
                let a = self.apply(args[0], parse_quote!(vx_v))?;
                self.rule("and_then -> match");
                if resultish("Result") == "Result" {
                    Some(parse_quote!(match #recv { Ok(vx_v) => #a, Err(vx_e) => Err(vx_e) }))
                } else {
                    Some(parse_quote!(match #recv { Some(vx_v) => #a, None => None }))
                }
            }
            ("or_else", 1) if matches!(args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                let a = self.apply0(args[0])?;
                self.rule("or_else -> match");
                Some(parse_quote!(match #recv { Some(vx_v) => Some(vx_v), None => #a }))
            }
            ("or_else", 1) => {
                let a = self.apply(args[0], parse_quote!(vx_e))?;
                self.rule("or_else -> match");
                Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => #a }))
            }
            ("any", 1) | ("all", 1) | ("for_each", 1) if matches!(args[0], Expr::Closure(_)) => {
                let b = self.apply(args[0], parse_quote!(vx_x))?;
                self.rule("any/all/for_each -> loop");
                let it = self.fresh("it");
                let any = name == "any";
                if name == "for_each" {
                    return Some(parse_quote!({ let mut #it = vx_into_iter(#recv); loop { match #it.next() { Some(vx_x) => { #b; } None => { break; } } } }));
                }
                let test: Expr = if any { parse_quote!(#b) } else { parse_quote!(!(#b)) };
                let (init, hit): (Expr, Expr) = if any { (parse_quote!(false), parse_quote!(true)) } else { (parse_quote!(true), parse_quote!(false)) };
                Some(parse_quote!({ let mut #it = vx_into_iter(#recv); let mut vx_found: bool = #init;
                    loop { match #it.next() { Some(vx_x) => { if #test { vx_found = #hit; break; } } None => { break; } } } vx_found }))
            }
            ("fold", 2) if matches!(args[1], Expr::Closure(_)) => {
                let Expr::Closure(c) = args[1] else { return None };
                if c.inputs.len() != 2 || has_return(&c.body) { return None }
                let acc = Ident::new(&pat_ident(&c.inputs[0])?, Span::call_site());
                let (init, p, b) = (args[0], &c.inputs[1], &c.body);
                self.rule("fold -> loop");
                let it = self.fresh("it");
                Some(parse_quote!({ let mut #acc = #init; let mut #it = vx_into_iter(#recv); loop { match #it.next() { Some(#p) => { #acc = #b; } None => { break; } } } #acc }))
            }
            ("write_fmt", 1) => {
                let pieces = self.pieces(args[0])?;
                self.rule("write!(..) -> write_str / write_disp per piece");
                let mut e: Expr = parse_quote!(Ok(()));
                let n = pieces.len();
                for (i, p) in pieces.into_iter().enumerate().rev() {
                    let w: Expr = match p {
                        Piece::Lit(s) => parse_quote!(#recv.write_str(#s)),
                        Piece::Arg(x, false) => parse_quote!(#recv.write_disp(&(#x))),
                        Piece::Arg(x, true) => parse_quote!(#recv.write_debug(&(#x))),
                    };
                    e = if i + 1 == n { w } else { parse_quote!(match #w { Ok(_) => #e, Err(vx_e) => Err(vx_e) }) };
                }
                Some(e)
            }
            ("surround", 2) => {
                if let Expr::Closure(c) = args[1] {
                    if c.inputs.len() == 1 && !has_return(&c.body) {
                        self.rule("delim.surround(tokens, |ts| B) -> inner stream, B, append group");
                        let inner = self.fresh("inner");
                        let p = &c.inputs[0];
                        let (t, b) = (args[0], &c.body);
                        return Some(parse_quote!({ let mut #inner = TokenStream::new(); { let #p = &mut #inner; #b; } #recv.surround_done(#t, #inner); }));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn step_call(&mut self, c: &ExprCall) -> Option<Expr> {
        let Expr::Path(f) = &*c.func else { return None };
        let names: Vec<String> = f.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = names.last().unwrap().as_str();
        let args: Vec<&Expr> = c.args.iter().collect();
        if names.len() >= 2 || f.qself.is_some() {
            if let Some(n2) = self.opts["ren"][last].as_str().map(|s| s.to_string()) {
                self.rule("method renamed to its model");
                let mut n = c.clone();
                if let Expr::Path(p) = &mut *n.func { p.path.segments.last_mut().unwrap().ident = Ident::new(&n2, Span::call_site()); }
                return Some(Expr::Call(n));
            }
        }
        if names.iter().any(|n| n == "panicking") {
            self.rule("panic!/unreachable! -> unreached() (requires false)");
            return Some(parse_quote!(return vx_unreached()));
        }
        match (last, args.len()) {
            ("max_by_key", 3) | ("min_by_key", 3) => {
                let ka = self.apply(args[2], parse_quote!(&vx_a))?;
                let kb = self.apply(args[2], parse_quote!(&vx_b))?;
                let (a, b) = (args[0], args[1]);
                self.rule("max_by_key/min_by_key with literal key -> comparison of the two keys");
                // std: max_by_key returns the second argument on ties, min_by_key the first
                if last == "max_by_key" {
                    Some(parse_quote!({ let vx_a = #a; let vx_b = #b; let vx_ka = #ka; let vx_kb = #kb; if vx_key_le(&vx_ka, &vx_kb) { vx_b } else { vx_a } }))
                } else {
                    Some(parse_quote!({ let vx_a = #a; let vx_b = #b; let vx_ka = #ka; let vx_kb = #kb; if vx_key_le(&vx_ka, &vx_kb) { vx_a } else { vx_b } }))
                }
            }
            ("must_use", 1) => { let a = args[0]; Some(parse_quote!(#a)) }
            ("format", 1) if args[0].to_token_stream().to_string().starts_with("format_args") => {
                let pieces = self.pieces(args[0])?;
                self.rule("format!(..) -> string built piece by piece");
                let s = self.fresh("s");
                let mut st: Vec<Stmt> = vec![];
                for p in pieces {
                    match p {
                        Piece::Lit(l) => st.push(parse_quote!(#s.push_lit(#l);)),
                        Piece::Arg(x, false) => st.push(parse_quote!(#s.push_disp(&(#x));)),
                        Piece::Arg(x, true) => st.push(parse_quote!(#s.push_debug(&(#x));)),
                    }
                }
                Some(parse_quote!({ let mut #s = VxString::new(); #(#st)* #s }))
            }
            _ => None,
        }
    }

    fn pieces(&mut self, fa: &Expr) -> Option<Vec<Piece>> {
        let Expr::Macro(m) = fa else { return None };
        if m.mac.path.segments.last().unwrap().ident != "format_args" { return None; }
        struct A { fmt: LitStr, args: Vec<(Option<String>, Expr)> }
        impl parse::Parse for A {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                let fmt = i.parse()?;
                let mut args = vec![];
                while !i.is_empty() {
                    i.parse::<Token![,]>()?;
                    if i.is_empty() { break; }
                    if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                        let n: Ident = i.parse()?;
                        i.parse::<Token![=]>()?;
                        args.push((Some(n.to_string()), i.parse()?));
                    } else { args.push((None, i.parse()?)); }
                }
                Ok(A { fmt, args })
            }
        }
        let a: A = m.mac.parse_body().ok()?;
        let mut out = vec![];
        let s = a.fmt.value();
        let mut lit = String::new();
        let mut next = 0;
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == '{' && cs.get(i + 1) == Some(&'{') { lit.push('{'); i += 2; continue; }
            if c == '}' && cs.get(i + 1) == Some(&'}') { lit.push('}'); i += 2; continue; }
            if c == '{' {
                let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
                let body: String = cs[i + 1..j].iter().collect();
                let (n, spec) = match body.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (body, String::new()) };
                let debug = match spec.as_str() { "" => false, "?" => true, _ => return None };
                if !lit.is_empty() { out.push(Piece::Lit(LitStr::new(&lit, Span::call_site()))); lit.clear(); }
                let e = if n.is_empty() { next += 1; a.args.get(next - 1)?.1.clone() }
                    else if let Ok(k) = n.parse::<usize>() { a.args.get(k)?.1.clone() }
                    else if let Some((_, e)) = a.args.iter().find(|x| x.0.as_deref() == Some(&n)) { e.clone() }
                    else { let id = Ident::new(&n, Span::call_site()); parse_quote!(#id) };
                // constant pieces join their neighbours
                if let (Expr::Lit(ExprLit { lit: Lit::Str(ls), .. }), false) = (&e, debug) { lit.push_str(&ls.value()); }
                else { out.push(Piece::Arg(e, debug)); }
                i = j + 1;
                continue;
            }
            lit.push(c);
            i += 1;
        }
        if !lit.is_empty() { out.push(Piece::Lit(LitStr::new(&lit, Span::call_site()))); }
        // merge adjacent literals
        let mut merged: Vec<Piece> = vec![];
        for p in out {
            match (merged.last_mut(), p) {
                (Some(Piece::Lit(a)), Piece::Lit(b)) => { *a = LitStr::new(&(a.value() + &b.value()), Span::call_site()); }
                (_, p) => merged.push(p),
            }
        }
        Some(merged)
    }
}

/// `x.by_ref().take(n)` at the bottom of a chain of adaptors, replaced
fn eager_prefix(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method == "take" && m.args.len() == 1 {
        if let Expr::MethodCall(b) = &*m.receiver {
            if b.method == "by_ref" && b.args.is_empty() {
                let (x, n) = (&b.receiver, &m.args[0]);
                return Some(parse_quote!(#x.vx_take_front(#n)));
            }
        }
    }
    let r = eager_prefix(&m.receiver)?;
    let mut n = m.clone();
    n.receiver = Box::new(r);
    Some(Expr::MethodCall(n))
}

enum Piece { Lit(LitStr), Arg(Expr, bool) }

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn shim_name(mods: &[String], t: &str) -> String {
    let m: Vec<&str> = mods.iter().map(|s| s.as_str()).collect();
    let m0 = m.first().copied().unwrap_or("");
    if m0 == "syn" {
        if m.get(1) == Some(&"token") { return format!("Tok{}", t); }
        if ["Punctuated", "Lit", "LitBool", "LitByte", "LitInt", "LitFloat", "LitChar", "LitStr", "LitByteStr"].contains(&t) { return format!("Syn{}", t); }
    }
    if ["core", "std", "alloc"].contains(&m0) {
        if m.get(1) == Some(&"result") && t == "Result" { return "CoreResult".into(); }
        if m.get(1) == Some(&"fmt") && ["Result", "Error"].contains(&t) { return format!("Fmt{}", t); }
        if m.get(1) == Some(&"io") && ["Result", "Error", "Write"].contains(&t) { return format!("Io{}", t); }
        if t == "String" { return "VxString".into(); }
        let pre = match m.get(1) { Some(&"option") => "Opt", Some(&"slice") => "Slice", Some(&"vec") => "Vec", _ => "" };
        if pre != "" && ["Iter", "IterMut", "IntoIter"].contains(&t) { return format!("{}{}", pre, t); }
    }
    if m0 == "syn" && m.get(1) == Some(&"punctuated") && ["Iter", "IterMut", "IntoIter"].contains(&t) { return format!("Syn{}", t); }
    if m.is_empty() && t == "String" { return "VxString".into(); }
    t.to_string()
}

impl<'a> VisitMut for R<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.map_path(p, 0);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        p.attrs.clear();
        if let Some(q) = &mut p.qself {
            self.visit_type_mut(&mut q.ty);
            for s in p.path.segments.iter_mut() { self.visit_path_arguments_mut(&mut s.arguments); }
            let n = p.path.segments.len();
            let pos = q.position;
            if pos > 0 {
                self.map_path(&mut p.path, pos);
                let k = p.path.segments.len() - (n - pos);
                q.position = k;
            }
        } else {
            // a local variable shadows nothing here: single lower-case segments resolve to themselves
            self.visit_path_mut(&mut p.path);
        }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        if let Some(q) = &mut p.qself {
            self.visit_type_mut(&mut q.ty);
            let n = p.path.segments.len();
            let pos = q.position;
            if pos > 0 { self.map_path(&mut p.path, pos); q.position = p.path.segments.len() - (n - pos); }
        } else { self.visit_path_mut(&mut p.path); }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.segments.last().unwrap().ident == "ParseStream" {
                self.rule("ParseStream -> &mut ParseBuffer");
                *t = parse_quote!(&mut ParseBuffer);
                return;
            }
        }
        if let Type::Reference(r) = t {
            if let Type::Path(p) = &*r.elem {
                if p.path.segments.last().unwrap().ident == "ParseBuffer" {
                    self.rule("ParseStream -> &mut ParseBuffer");
                    *t = parse_quote!(&mut ParseBuffer);
                    return;
                }
            }
        }
        if let Type::Path(p) = t {
            if p.path.segments.last().unwrap().ident == "ParseBuffer" { *t = parse_quote!(ParseBuffer); return; }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = parse_quote!(pub); }

    fn visit_local_mut(&mut self, l: &mut Local) {
        // buffers
        if let (Some(id), init) = (pat_ident(&l.pat), &l.init) {
            if let Some(i) = init {
                if is_buf_source(&i.expr) { self.bufs.insert(id.clone()); self.buf_params.remove(&id); }
                if let Expr::Path(_) = &*i.expr {
                    if let Some(b) = self.is_buf(&i.expr) {
                        self.bufs.insert(id.clone());
                        if self.buf_params.contains(&b) { self.buf_params.insert(id.clone()); }
                    }
                }
            }
        }
        make_mut(&mut l.pat);
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut n = 0;
        while let Some(x) = self.step(e) {
            *e = x;
            n += 1;
            if n > 50 { self.errors.push("rewriting does not end".into()); break; }
        }
        if let Expr::Loop(l) = e {
            let k = self.loops.len();
            self.loops.push("loop".into());
            let id = format_ident!("VXLOOP_{}_", k);
            visit_mut::visit_expr_loop_mut(self, l);
            l.body.stmts.insert(0, parse_quote!(#id!{}));
            return;
        }
        if let Expr::While(l) = e {
            let k = self.loops.len();
            self.loops.push("while".into());
            let id = format_ident!("VXLOOP_{}_", k);
            visit_mut::visit_expr_while_mut(self, l);
            l.body.stmts.insert(0, parse_quote!(#id!{}));
            return;
        }
        if let Expr::Call(c) = e {
            let callee = c.func.to_token_stream().to_string();
            if callee.ends_with("try_parse_variant") {
                for a in c.args.iter_mut() {
                    if let Expr::Closure(cl) = a {
                        if cl.inputs.len() == 1 {
                            let p = cl.inputs[0].clone();
                            if let Pat::Ident(_) = &p {
                                self.rule("type of a closure parameter written out");
                                cl.inputs = std::iter::once::<Pat>(Pat::Type(parse_quote!(#p: ParseStream<'_>))).collect();
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Closure(c) = e {
            let k = self.clos;
            self.clos += 1;
            let id = format_ident!("VXCLO_{}_", k);
            // parameters that are parse streams
            let mut own = vec![];
            for p in &c.inputs {
                if let Pat::Type(t) = p {
                    if is_stream_ty(&t.ty) { if let Some(n) = pat_ident(&t.pat) { own.push(n); } }
                }
            }
            let (sb, sp) = (self.bufs.clone(), self.buf_params.clone());
            for n in own { self.bufs.insert(n.clone()); self.buf_params.insert(n); }
            visit_mut::visit_expr_closure_mut(self, c);
            self.bufs = sb; self.buf_params = sp;
            c.output = ReturnType::Default;
            let b = &c.body;
            let body: Expr = match &**b {
                Expr::Block(bl) => { let st = &bl.block.stmts; parse_quote!({ #id!{} #(#st)* }) }
                b => parse_quote!({ #id!{} #b }),
            };
            c.body = Box::new(body);
            return;
        }
        if let Expr::MethodCall(m) = e { self.calls.insert(format!(".{}", m.method)); }
        if let Expr::Macro(m) = e { self.errors.push(format!("macro {}", m.mac.path.to_token_stream())); }
        if let Expr::Unsafe(u) = e {
            // the arm that derive(PartialEq) leaves for "different variants"
            let t = u.block.to_token_stream().to_string();
            if t.contains("unreachable") && u.block.stmts.len() == 1 && !t.contains('!') {
                self.rule("unsafe { unreachable() } -> unreached() (requires false)");
                *e = parse_quote!(vx_unreached());
                return;
            }
        }
        if let Expr::Async(_) | Expr::Unsafe(_) = e { self.errors.push("unsafe/async".into()); }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Assign(a), _) => !matches!(&*a.left, Expr::Infer(_)),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Local(l) => !(matches!(&l.pat, Pat::Wild(_)) && l.init.as_ref().map_or(true, |i| matches!(&*i.expr, Expr::Path(_) | Expr::Lit(_) | Expr::Tuple(_)))),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

fn pat_ident(p: &Pat) -> Option<String> {
    match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => pat_ident(&t.pat), _ => None }
}
fn make_mut(p: &mut Pat) {
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.ident.to_string().chars().next().unwrap().is_lowercase() => { i.mutability = Some(Default::default()); }
        Pat::Type(t) => make_mut(&mut t.pat),
        _ => {}
    }
}
fn is_buf_source(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => m.method == "fork",
        Expr::Field(f) => matches!(&f.member, Member::Named(n) if n == "content"),
        Expr::Paren(p) => is_buf_source(&p.expr),
        _ => false,
    }
}
pub fn is_stream(t: &Type) -> bool { is_stream_ty(t) }
pub fn pat_name(p: &Pat) -> Option<String> { pat_ident(p) }
fn is_stream_ty(t: &Type) -> bool {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident == "ParseStream",
        Type::Reference(r) => matches!(&*r.elem, Type::Path(p) if p.path.segments.last().unwrap().ident == "ParseBuffer"),
        _ => false,
    }
}

/// `contents = parens.content` inside the expansion of `parenthesized!`
struct Contents { found: Vec<(String, String)>, parent: Option<String> }
impl<'a> Visit<'a> for Contents {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if ["parse_parens", "parse_brackets", "parse_braces"].contains(&n.as_str()) {
                let mut a = &c.args[0];
                while let Expr::Reference(r) = a { a = &r.expr; }
                self.parent = Some(crate::index::flat(a));
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if let (Expr::Path(l), true) = (&*a.left, is_buf_source(&a.right)) {
            if let Some(i) = l.path.get_ident() {
                // a fork assigned to a variable is a buffer like any other
                let fork = matches!(&*a.right, Expr::MethodCall(_));
                self.found.push((i.to_string(), if fork { String::new() } else { self.parent.clone().unwrap_or_default() }));
            }
        }
        visit::visit_expr_assign(self, a);
    }
}

struct Leave<'a> { stmt: &'a [Stmt], n: usize }
impl<'a> VisitMut for Leave<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(x) = &r.expr {
            if let Expr::Call(c) = &**x { if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == "Err" { return; } } }
            let st = self.stmt;
            let y: Expr = parse_quote!({ let vx_tail = #x; #(#st)* vx_tail });
            r.expr = Some(Box::new(y));
            self.n += 1;
        }
    }
}

pub fn render_fn(ix: &Index, req: &Value, known: &Value) -> Value {
    let key = req["key"].as_str().unwrap();
    let cands: Vec<&Func> = ix.funcs.iter().filter(|f| f.key == key || req["alt"].as_str() == Some(&f.key)).collect();
    let module = req["module"].as_str();
    let cands: Vec<&Func> = cands.into_iter().filter(|f| module.map_or(true, |m| f.module.join("::") == m)).collect();
    if cands.is_empty() { return json!({"key": key, "found": false}); }
    let f = cands[0].clone();
    let mut r = R::new(ix, &f.module, req["opts"].clone());
    // `use` declarations inside the body
    let lifted: Vec<String> = req["opts"]["lift"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
    let is_lifted = |s: &Stmt| matches!(s, Stmt::Item(Item::Fn(x)) if lifted.contains(&x.sig.ident.to_string()));
    for s in &f.block.stmts {
        if is_lifted(s) { r.rule("function declared in the body -> function under its own contract"); continue; }
        if let Stmt::Item(i) = s { if !matches!(i, Item::Use(_)) { r.errors.push("item inside function body".into()); } }
    }
    // buffers among the parameters
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            if is_stream_ty(&t.ty) { if let Some(n) = pat_ident(&t.pat) { r.bufs.insert(n.clone()); r.buf_params.insert(n); } }
        }
    }
    let mut block = f.block.clone();
    block.stmts.retain(|s| !is_lifted(s));
    // calls of functions without a contract
    let names = |k: &str| -> Option<HashSet<String>> { known[k].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect()) };
    let mut inlined = vec![];
    if let (Some(fr), Some(me), Some(ass)) = (names("free"), names("methods"), names("assoc")) {
        let mut inl = crate::inline::Inliner::new(ix, &f, fr, me, ass);
        inl.block(&mut block, true);
        inlined = inl.done;
        if !inlined.is_empty() { r.rule("call of a function without a contract -> its body"); }
    }
    // patterns in parameter position become let statements
    let mut sig0 = f.sig.clone();
    let mut extra_gens: Vec<GenericParam> = vec![];
    for a in sig0.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Type::BareFn(b) = &*t.ty {
                r.rule("function pointer parameter -> generic parameter");
                let id = format_ident!("VxF{}", extra_gens.len());
                let ins: Vec<Type> = b.inputs.iter().map(|x| x.ty.clone()).collect();
                let out = &b.output;
                extra_gens.push(parse_quote!(#id: Fn(#(#ins),*) #out));
                t.ty = parse_quote!(#id);
            }
        }
    }
    sig0.generics.params.extend(extra_gens);
    for (i, a) in sig0.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if !matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) {
                r.rule("pattern parameter -> parameter and let");
                let id = format_ident!("vx_p{}", i);
                let p = &t.pat;
                block.stmts.insert(0, parse_quote!(let #p = #id;));
                t.pat = parse_quote!(#id);
            }
        }
    }
    let mut cs = Contents { found: vec![], parent: None };
    cs.visit_block(&block);
    for (c, _) in &cs.found { r.bufs.insert(c.clone()); }
    cs.found.retain(|(_, p)| !p.is_empty());
    for (c, p) in &cs.found { r.parent.insert(c.clone(), p.clone()); }
    // end of scope of group contents
    let explicit_drop = block.to_token_stream().to_string().contains("drop (");
    if !cs.found.is_empty() && !explicit_drop {
        r.rule("group contents leave scope explicitly");
        let mut st: Vec<Stmt> = vec![];
        for (c, p) in cs.found.iter().rev() {
            let (c, p) = (Ident::new(c, Span::call_site()), Ident::new(p, Span::call_site()));
            st.push(parse_quote!(#p.leave(#c);));
        }
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            block.stmts.pop();
            // returns inside the tail or earlier statements, after the contents exist
            let mut lv = Leave { stmt: &st, n: 0 };
            for s in block.stmts.iter_mut() { lv.visit_stmt_mut(s); }
            let mut e2 = e.clone();
            lv.visit_expr_mut(&mut e2);
            block.stmts.push(parse_quote!(let vx_tail = #e2;));
            block.stmts.extend(st.iter().cloned());
            block.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
        }
    }
    r.visit_block_mut(&mut block);
    // a loop with clauses must not be followed directly by a block
    struct Semi;
    impl VisitMut for Semi {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let n = b.stmts.len();
            for (i, s) in b.stmts.iter_mut().enumerate() {
                if let (Stmt::Expr(Expr::Loop(_) | Expr::While(_), semi @ None), true) = (s, i + 1 < n) { *semi = Some(Default::default()); }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    Semi.visit_block_mut(&mut block);
    let mut sig = sig0;
    sig.constness = None;
    r.visit_signature_mut(&mut sig);
    let mut gen = f.generics.clone();
    let keep: Vec<String> = req["drop_bounds"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let drop_bounds: HashSet<String> = keep.into_iter().collect();
    filter_bounds(&mut gen, &drop_bounds);
    filter_bounds(&mut sig.generics, &drop_bounds);
    r.visit_generics_mut(&mut gen);
    let self_ty = f.self_ty.clone().map(|mut t| { r.visit_type_mut(&mut t); text(t.to_token_stream()) });
    let trait_ = f.trait_.clone().map(|mut t| { r.visit_path_mut(&mut t); text(t.to_token_stream()) });
    let assoc: Vec<String> = f.assoc.iter().map(|a| { let mut t = a.ty.clone(); r.visit_type_mut(&mut t); format!("type {} = {};", a.ident, text(t.to_token_stream())) }).collect();
    let mut params = vec![];
    let mut pnames = vec![];
    for a in &mut sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &mut *t.pat { p.by_ref = None; pnames.push(p.ident.to_string()); } else if let Pat::Wild(_) = &*t.pat { let id = format_ident!("_p{}", params.len()); t.pat = parse_quote!(#id); pnames.push(id.to_string()); } else { pnames.push("?".into()); }
        }
        params.push(text(a.to_token_stream()));
    }
    let mut locals = vec![];
    struct L<'b>(&'b mut Vec<(String, String)>);
    impl<'a, 'b> Visit<'a> for L<'b> {
        fn visit_local(&mut self, l: &'a Local) {
            if let Some(n) = pat_ident(&l.pat) { self.0.push((n, l.init.as_ref().map(|i| crate::index::flat(&i.expr)).unwrap_or_default())); }
            visit::visit_local(self, l);
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push((p.ident.to_string(), String::new())); }
    }
    L(&mut locals).visit_block(&block);
    let ret = match &sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => text(t.to_token_stream()) };
    let (ig, iw) = gens(&gen);
    let (fg, fw) = gens(&sig.generics);
    json!({
        "key": key, "found": true, "matched": f.key, "instances": cands.len(), "module": f.module.join("::"),
        "impl_generics": ig, "impl_where": iw, "self_ty": self_ty, "trait": trait_, "assoc": assoc,
        "name": sig.ident.to_string(), "fn_generics": fg, "fn_where": fw,
        "params": params, "param_names": pnames, "ret": ret, "body": text(block.to_token_stream()),
        "loops": r.loops, "closures": r.clos, "errors": r.errors, "calls": r.calls, "rules": r.rules,
        "locals": locals, "inlined": inlined, "source": text(f.block.to_token_stream()),
    })
}

fn gens(g: &Generics) -> (String, String) {
    let mut g2 = g.clone();
    g2.where_clause = None;
    let ps: Vec<_> = g2.params.iter().collect();
    let gs = if ps.is_empty() { String::new() } else { text(quote!(<#(#ps),*>)) };
    let w = g.where_clause.as_ref().map(|w| w.predicates.iter().map(|p| text(p.to_token_stream())).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(", ")).unwrap_or_default();
    (gs, w)
}

fn filter_bounds(g: &mut Generics, drop: &HashSet<String>) {
    let bad = |b: &TypeParamBound| -> bool {
        matches!(b, TypeParamBound::Trait(t) if drop.contains(&t.path.segments.last().unwrap().ident.to_string()))
    };
    for p in &mut g.params {
        if let GenericParam::Type(t) = p {
            t.default = None; t.eq_token = None;
            t.bounds = t.bounds.iter().filter(|b| !bad(b)).cloned().collect();
            if t.bounds.is_empty() { t.colon_token = None; }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut ps = punctuated::Punctuated::new();
        for p in &w.predicates {
            match p {
                WherePredicate::Type(t) => {
                    let mut t = t.clone();
                    t.bounds = t.bounds.iter().filter(|b| !bad(b)).cloned().collect();
                    if !t.bounds.is_empty() { ps.push(WherePredicate::Type(t)); }
                }
                p => ps.push(p.clone()),
            }
        }
        w.predicates = ps;
        if w.predicates.is_empty() { g.where_clause = None; }
    }
}

pub fn render_type(ix: &Index, name: &str) -> Value {
    let Some(t) = ix.types.iter().find(|t| t.name == name || t.module.last().map_or(false, |m| format!("{}::{}", m, t.name) == name)) else { return json!({"name": name, "found": false}) };
    let mut r = R::new(ix, &t.module, Value::Null);
    let empty: HashSet<String> = ["Parse", "ToTokens", "Clone", "Debug"].iter().map(|s| s.to_string()).collect();
    let mut shape = json!(null);
    let txt = match t.item.clone() {
        Item::Struct(mut s) => {
            filter_bounds(&mut s.generics, &empty);
            r.visit_item_struct_mut(&mut s);
            s.vis = parse_quote!(pub);
            for f in &mut s.fields { f.vis = parse_quote!(pub); f.attrs.clear(); }
            shape = json!({"kind": "struct", "name": s.ident.to_string(), "generics": gens(&s.generics).0, "fields": fields(&s.fields)});
            text(s.to_token_stream())
        }
        Item::Enum(mut s) => {
            filter_bounds(&mut s.generics, &empty);
            for v in &mut s.variants { v.attrs.clear(); for f in &mut v.fields { f.attrs.clear(); f.vis = Visibility::Inherited; } }
            r.visit_item_enum_mut(&mut s);
            s.vis = parse_quote!(pub);
            for v in &mut s.variants { for f in &mut v.fields { f.vis = Visibility::Inherited; } }
            let vs: Vec<Value> = s.variants.iter().map(|v| json!({"name": v.ident.to_string(), "fields": fields(&v.fields)})).collect();
            shape = json!({"kind": "enum", "name": s.ident.to_string(), "generics": gens(&s.generics).0, "variants": vs});
            text(s.to_token_stream())
        }
        Item::Type(mut s) => {
            r.visit_item_type_mut(&mut s);
            s.vis = parse_quote!(pub);
            text(s.to_token_stream())
        }
        _ => String::new(),
    };
    json!({"name": name, "found": true, "text": txt, "shape": shape, "errors": r.errors})
}

fn fields(f: &Fields) -> Value {
    let (kind, v): (&str, Vec<Value>) = match f {
        Fields::Named(n) => ("named", n.named.iter().map(|f| json!([f.ident.as_ref().unwrap().to_string(), text(f.ty.to_token_stream())])).collect()),
        Fields::Unnamed(n) => ("tuple", n.unnamed.iter().enumerate().map(|(i, f)| json!([i.to_string(), text(f.ty.to_token_stream())])).collect()),
        Fields::Unit => ("unit", vec![]),
    };
    json!({"kind": kind, "fields": v})
}
