// Executable counterpart of one property's contracts: searches for an input on
// which the real code (linked from /repo) breaks the contract, and replays one.
//
//   oracle search  OUT.json      exit 0 nothing found, 3 found (OUT written)
//   oracle replay  FILE.json     exit 0 holds now, 3 still fails
#![allow(dead_code)]
use serde_json::{json, Value};
use std::collections::HashSet;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// One failing case: the input that was given, what the contract requires,
/// what the code did.
pub struct Fail {
    pub input: Value,
    pub expected: String,
    pub actual: String,
}

pub type CaseResult = Result<(), (String, String)>; // (expected, actual)

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub deadline: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub fail: Option<Fail>,
    /// cases that failed once and then held three times
    pub once: Vec<Value>,
}

fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn expired(&self) -> bool {
        self.fail.is_some() || Instant::now() >= self.deadline
    }
    /// Run one case; `input` must be enough to rebuild it in `prop::case`.
    /// Returns false once a failure has been recorded.
    pub fn case(&mut self, input: Value) -> bool {
        if self.fail.is_some() {
            return false;
        }
        self.evaluations += 1;
        let txt = input.to_string();
        let fresh = self.distinct.insert(fnv(txt.as_bytes()));
        if fresh && (self.samples.len() < 5 || (self.evaluations % 997 == 0 && self.samples.len() < 12)) && txt.len() < 600 {
            self.samples.push(input.clone());
        }
        if guarded(&input).is_err() {
            // what happens only once may be the machine's doing rather than the code's
            for _ in 0..3 {
                if let Err((expected, actual)) = guarded(&input) {
                    self.fail = Some(Fail { input, expected, actual });
                    return false;
                }
            }
            self.once.push(input);
        }
        true
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// a panic in the code under test is a failure of the case
fn guarded(input: &Value) -> CaseResult {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop::case(input)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(("no panic".to_string(), format!("panicked: {}", m)))
        }
    }
}

fn shrink(f: Fail) -> Fail {
    // property-specific candidates, greedy
    let mut cur = f;
    let t0 = Instant::now();
    loop {
        let mut better = None;
        for c in prop::shrink(&cur.input) {
            if t0.elapsed() > Duration::from_secs(10) {
                return cur;
            }
            // (twice, since what came before it may have left something behind)
            if guarded(&c).is_err() {
                let Err((expected, actual)) = guarded(&c) else { continue };
                better = Some(Fail { input: c, expected, actual });
                break;
            }
        }
        match better {
            Some(b) => cur = b,
            None => return cur,
        }
    }
}

pub mod e2e;
pub mod sessions;
pub mod clis;
mod prop {
    use super::*;
    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/prop.rs"));
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn jhex(v: &Value) -> Vec<u8> {
    unhex(v.as_str().unwrap())
}
/// drop-one / halve candidates for a list
pub fn shrink_list(v: &[Value]) -> Vec<Vec<Value>> {
    let mut out = vec![];
    if v.len() >= 2 {
        out.push(v[..v.len() / 2].to_vec());
        out.push(v[v.len() / 2..].to_vec());
    }
    for i in 0..v.len().min(64) {
        let mut w = v.to_vec();
        w.remove(i);
        out.push(w);
    }
    out
}

fn main() {
    if std::env::var_os("ORACLE_AS_SHPOOL").is_some() || std::env::var_os("SHPOOL__INTERNAL__AUTODAEMONIZE").is_some() || std::env::var_os("SHPOOL__INTERNAL__PRINT_SENTINEL").is_some() {
        // this process plays the shpool binary
        std::env::remove_var("ORACLE_AS_SHPOOL");
        use clap::Parser;
        let args = libshpool::Args::parse();
        if let Err(e) = unsafe { libshpool::run(args, None) } {
            eprintln!("Error: {:?}", e);
            std::process::exit(1);
        }
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("probe-winsize") { return e2e::probe_winsize(); }
    if std::env::args().nth(1).as_deref() == Some("probe-shell") || std::env::args().next().map(|a| a.starts_with('-')).unwrap_or(false) { return e2e::probe_shell(); }
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("ORACLE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 120 } else { 10 });
    match args.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let mut cx = Ctx {
                rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D)),
                thorough,
                deadline: Instant::now() + Duration::from_secs(secs),
                evaluations: 0,
                distinct: HashSet::new(),
                samples: vec![],
                fail: None,
                once: vec![],
            };
            prop::search(&mut cx);
            let mut out = json!({
                "evaluations": cx.evaluations,
                "distinct_nontrivial": cx.distinct.len(),
                "rule": prop::RULE,
                "bound": prop::BOUND,
                "samples": cx.samples,
            });
            if !cx.once.is_empty() { out["failed_once_then_held"] = json!(cx.once); }
            let mut code = 0;
            if let Some(f) = cx.fail.take() {
                out["failure_as_found"] = json!({"input": f.input, "expected": f.expected, "actual": f.actual});
                let f = shrink(f);
                out["failure"] = json!({"input": f.input, "expected": f.expected, "actual": f.actual});
                code = 3;
            }
            std::fs::write(&args[2], serde_json::to_string_pretty(&out).unwrap()).unwrap();
            e2e::cleanup();
            std::process::exit(code);
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            // some of what fails needs the right moment
            let mut r = Ok(());
            for _ in 0..3 { r = guarded(&v["input"]); if r.is_err() { break; } }
            e2e::cleanup();
            match r {
                Ok(()) => println!("holds"),
                Err((e, a)) => {
                    println!("expected: {}\nactual:   {}", e, a);
                    std::process::exit(3);
                }
            }
        }
        _ => {
            eprintln!("usage: oracle search OUT | replay FILE");
            std::process::exit(2);
        }
    }
}
