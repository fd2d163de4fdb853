//! Runs the real library against what the properties say: finds failing inputs for the checks.
//! cex PROPERTY SEED quick|thorough SECONDS
#[cfg(feature = "bulk")] #[macro_use] mod bulk; #[cfg(feature = "quote")] mod quotes; mod either; mod fmt; mod fromstr; mod gram; mod gramrun; mod ident; mod inputs; mod lit; mod rng; mod sep; mod shape_impls; mod span; mod lib_types;
mod types; mod wrap;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub struct Found { pub input: String, pub expected: String, pub got: String }
pub struct Run { pub seed: u64, pub thorough: bool, pub end: Instant, pub n: u64, pub seen: HashSet<u64>, pub samples: Vec<String> }
impl Run {
    pub fn late(&self) -> bool { Instant::now() > self.end }
    /// notes the case that is about to run; the watchdog reports it if it does not end
    pub fn start(&mut self, case: &str) {
        if let Ok(p) = std::env::var("CEX_CURRENT") { let _ = std::fs::write(p, case); }
        *CUR.lock().unwrap() = Some((Instant::now(), case.to_string()));
    }
    pub fn stop(&mut self) { *CUR.lock().unwrap() = None; }
    pub fn count(&mut self, case: &str, nontrivial: bool) {
        self.n += 1;
        if nontrivial {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            let new = self.seen.insert(h.finish());
            if new && (self.samples.len() < 3 || (self.samples.len() < 8 && self.seen.len() % 997 == 0)) { self.samples.push(case.chars().take(300).collect()); }
        }
    }
    /// runs the library; a panic is a result too
    pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        })
    }
}
static CUR: std::sync::Mutex<Option<(Instant, String)>> = std::sync::Mutex::new(None);
const LIMIT: u64 = 20;
fn main() {
    if std::env::var("CEX_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CUR.lock().unwrap().clone();
        if let Some((t, c)) = c { if t.elapsed() > Duration::from_secs(LIMIT) {
            println!("{}", serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1, "samples": [c], "violation": {"input": c, "expected": "a result", "got": format!("does not end within {} s", LIMIT)}, "seconds": LIMIT}));
            std::process::exit(0);
        } }
    });
    let a: Vec<String> = std::env::args().collect();
    let p = a[1].clone();
    let mut run = Run { seed: a[2].parse().unwrap(), thorough: a[3] == "thorough", end: Instant::now() + Duration::from_secs(a[4].parse().unwrap()), n: 0, seen: HashSet::new(), samples: vec![] };
    let t0 = Instant::now();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let f = match p.as_str() {
            "C18" | "C19" => fmt::run(&p, &mut run),
            "C21" => either::run(&mut run).or_else(|| gramrun::run(&p, &mut run)),
            "C20" => span::run(&mut run),
            "C14" | "C15" => lit::run(&p, &mut run),
            "C16" => ident::run(&mut run),
            "C09" => sep::run(&p, &mut run),
            "C22" => fromstr::run(&mut run),
            #[cfg(feature = "quote")]
            "C25" => quotes::run(&mut run),
            "C23" => wrap::run(&mut run),
            "C10" => sep::run(&p, &mut run).or_else(|| gramrun::run(&p, &mut run)),
            _ => gramrun::run(&p, &mut run),
        };
        (f, run)
    }).unwrap();
    let (f, run) = h.join().unwrap();
    let v = f.map(|f| serde_json::json!({"input": f.input, "expected": f.expected, "got": f.got}));
    println!("{}", serde_json::json!({"evaluations": run.n, "distinct_nontrivial": run.seen.len(), "samples": run.samples, "violation": v, "seconds": t0.elapsed().as_secs_f64()}));
}
