//! Properties of productions: the real types against the interpreter.
use crate::gram::*;
use crate::rng::Rng;
use crate::types::*;
use crate::{Found, Run};
use parsel::proc_macro2::TokenStream;
use parsel::syn::parse::discouraged::Speculative;

/// what of an observation a property speaks about
struct Sees { value: bool, rest: bool, whole: bool, printed: bool, error: bool, message: bool, undo: bool, again: bool }
fn sees(p: &str) -> Sees {
    let n = Sees { value: true, rest: true, whole: false, printed: true, error: false, message: false, undo: false, again: false };
    match p {
        "C01" => Sees { printed: false, ..n },
        "C02" => Sees { printed: false, undo: true, ..n },
        "C03" => Sees { value: false, rest: false, printed: false, error: true, ..n },
        "C04" => Sees { value: false, rest: false, printed: false, error: true, message: true, ..n },
        "C05" => Sees { value: false, rest: false, ..n },
        "C06" => Sees { error: true, message: true, ..n },
        "C07" => Sees { whole: true, ..n },
        "C13" => Sees { value: false, rest: false, again: true, ..n },
        "C17" => Sees { undo: true, ..n },
        "C21" => n,
        _ => n,
    }
}
fn verdict(p: &str, s: &Sees, t: &Ty, input: &[Tok], o: &Obs, e: &Exp) -> Option<(String, String)> {
    let f = |a: String, b: String| Some((a, b));
    if s.value || s.rest || s.undo || s.error {
        match (&o.res, &e.res) {
            (Ok(v), Ok(w)) => {
                if s.value && v != w { return f(format!("value {:?}", w), format!("value {:?}", v)); }
                if s.rest && o.rest != e.rest { return f(format!("left after parsing: {}", show(&e.rest)), format!("left after parsing: {}", show(&o.rest))); }
            }
            (Ok(v), Err(_)) if s.value => return f("failure".into(), format!("value {:?}", v)),
            (Err(x), Ok(w)) if s.value => return f(format!("value {:?}", w), format!("failure: {}", x.2)),
            (Err((a, b, m)), Err(es)) => {
                let choice = matches!((t.g)(), G::Choice(_) | G::Empty | G::Eof | G::NotEof);
                if s.undo && choice && o.rest != input { return f(format!("failure that consumes nothing (left: {})", show(input)), format!("failure that consumes something (left: {})", show(&o.rest))); }
                if s.error && !es.iter().any(|x| x.start == *a && x.end == *b && (!s.message || x.parts.iter().all(|p| m.contains(p.as_str())))) {
                    return f(format!("one of the errors {:?}", es), format!("error from {:?} to {:?}: {}", a, b, m));
                }
            }
            _ => {}
        }
    }
    if s.whole && o.res.is_ok() && e.res.is_ok() && o.all != e.all { return f(format!("whole parse accepted: {}", e.all), format!("whole parse accepted: {}", o.all)); }
    if let (true, Ok(v), Some(pr)) = (s.printed, &o.res, &o.printed) {
        if !o.appended { return f("earlier tokens of the stream kept in front".into(), "earlier tokens lost".into()); }
        let own = v.tokens();
        if *pr != own { return f(format!("prints {}", show(&own)), format!("prints {}", show(pr))); }
        if p == "C13" && o.all {
            let used = &input[..input.len() - o.rest.len().min(input.len())];
            if pr[..] != used[..] { return f(format!("reprints {}", show(used)), format!("prints {}", show(pr))); }
        }
    }
    if s.again {
        if let (Ok(v), Some(a)) = (&o.res, &o.again) {
            // a value that was parsed in front of other tokens can read its own print differently
            // only through Eof, NotEof or "up to the end"; the whole input is the clear case
            if o.rest.is_empty() {
                match a { Ok(w) if w == v => {} x => return f(format!("parses again to {:?}", v), format!("{:?}", x)) }
            }
        }
    }
    None
}
pub fn run(p: &str, run: &mut Run) -> Option<Found> {
    let s = sees(p);
    let ts: Vec<Ty> = types().into_iter().filter(|t| p == "C13" || t.tags.split(' ').any(|x| x == p)).collect();
    let share = if p == "C13" { 800 } else { 8000 };
    let per = if run.thorough { share * 8 } else { share };
    let mut rounds = 0;
    loop {
        for t in &ts {
            let mut rng = Rng(run.seed ^ (rounds as u64) << 32 ^ t.name.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
            let g = (t.g)();
            for x in crate::types::texts(t, &mut rng, per / t.share) {
                if let Some(f) = one(p, &s, t, &g, &x, run) { return Some(shrink(p, &s, t, &g, f, run)); }
            }
        }
        rounds += 1;
        if !run.thorough || rounds >= 4 || run.late() { break; }
    }
    None
}
fn one(p: &str, s: &Sees, t: &Ty, g: &G, x: &str, run: &mut Run) -> Option<Found> {
    if p == "C13" && x.contains(crate::inputs::NONE) { return None; }
    let Ok(ts) = x.parse::<TokenStream>() else { return None };
    let ts = if x.contains(crate::inputs::NONE) { crate::inputs::with_invisible(ts) } else { ts };
    let input = toks(ts.clone());
    let e = expect(g, ts.clone());
    run.start(&format!("{}\n  parsed from: {}", t.name, x));
    let o = run.guard(|| (t.observe)(ts.clone()));
    run.stop();
    let r = match &o {
        Err(m) => Some(("no panic".to_string(), format!("panic: {}", m))),
        Ok(o) => verdict(p, s, t, &input, o, &e),
    };
    let non = match &e.res { Ok(v) => v.nodes() > 1, Err(_) => !input.is_empty() };
    run.count(&format!("{} <- {}", t.name, x), non);
    parsel::proc_macro2::extra::invalidate_current_thread_spans();
    r.map(|(want, got)| Found { input: format!("{}\n  parsed from: {}", t.name, x), expected: want, got })
}
/// drop tokens while the case still fails
fn shrink(p: &str, s: &Sees, t: &Ty, g: &G, mut f: Found, run: &mut Run) -> Found {
    let get = |f: &Found| f.input.splitn(2, "parsed from: ").nth(1).unwrap_or("").to_string();
    let mut cur: Vec<String> = get(&f).split_whitespace().map(|s| s.to_string()).collect();
    let mut i = 0;
    while i < cur.len() && !run.late() {
        let mut c = cur.clone();
        c.remove(i);
        if let Some(n) = one(p, s, t, g, &c.join(" "), run) { cur = c; f = n; } else { i += 1; }
    }
    f
}
#[allow(unused)]
fn _s<T: Speculative>() {}
