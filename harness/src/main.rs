//! Executable oracles for the properties in /verif/properties.jsonl, run against the crate built
//! from /repo.  They supply failing inputs for failed obligations and stand in, bounded, where no
//! obligation could be generated.
//!   vx-harness <property> <seed> <seconds> [--case N]
mod nums;
mod refm;
mod pa;
mod pb;
use nums::Rng;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Cx {
    /// number of the case
    pub case: u64,
    pub rng: Rng,
    /// comparisons made
    pub evals: u64,
    /// what the case runs
    pub desc: String,
    /// hashes of what was run
    pub seen: Vec<u64>,
}
pub type R = Result<(), String>;
impl Cx {
    pub fn say(&mut self, s: impl Into<String>) { self.desc = s.into(); self.seen.push(self.desc.bytes().fold(self.desc.len() as u64, |h, b| h.wrapping_mul(0x100000001B3) ^ b as u64)); *CUR.lock().unwrap() = format!("case {}: {}", self.case, self.desc); }
    pub fn ok(&mut self, c: bool, m: impl FnOnce() -> String) -> R { self.evals += 1; if c { Ok(()) } else { Err(m()) } }
}
pub static CUR: Mutex<String> = Mutex::new(String::new());
static BEAT: AtomicU64 = AtomicU64::new(0);
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "pool-child" { pb::pool_child(&a[2..]); return; }
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let secs: u64 = a[3].parse().unwrap();
    let only: Option<u64> = if a.len() > 5 && a[4] == "--case" { Some(a[5].parse().unwrap()) } else { None };
    std::panic::set_hook(Box::new(|_| {}));
    let f: fn(&mut Cx) -> R = match prop.as_str() {
        "C01" => pa::c01, "C02" => pa::c02, "C03" => pa::c03, "C04" => pa::c04, "C05" => pa::c05, "C06" => pa::c06,
        "C07" => pa::c07, "C08" => pa::c08, "C09" => pa::c09, "C10" => pa::c10, "C11" => pa::c11,
        "C12" => pb::c12, "C13" => pb::c13, "C14" => pb::c14, "C15" => pb::c15, "C16" => pb::c16, "C17" => pb::c17,
        "C18" => pb::c18, "C19" => pb::c19, "C20" => pb::c20, "C21" => pb::c21, "C22" => pb::c22, "C23" => pb::c23, "C24" => pb::c24,
        _ => { eprintln!("no such property"); std::process::exit(2) }
    };
    // a case that never returns is a failing input too
    let p2 = prop.clone();
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last.0 { last = (b, Instant::now()); }
            if last.1.elapsed() > Duration::from_secs(150) {
                let cur = CUR.lock().unwrap().clone();
                println!("{{\"property\":{},\"fail\":{},\"case\":{}}}", js(&p2), js(&format!("no answer within 150 s ({cur})")), b.saturating_sub(1));
                std::process::exit(1);
            }
        }
    });
    let start = Instant::now();
    let (mut evals, mut cases) = (0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut case = only.unwrap_or(0);
    loop {
        BEAT.store(case + 1, Ordering::SeqCst);
        let mut cx = Cx { case, rng: Rng(nums::mix(seed, case, prop[1..].parse().unwrap())), evals: 0, desc: String::new(), seen: vec![] };
        let res = match refm::quiet(|| f(&mut cx)) { Ok(r) => r, Err(p) => Err(format!("panicked: {}", &p[..p.len().min(300)])) };
        evals += cx.evals;
        cases += 1;
        if cx.evals > 0 {
            if samples.len() < 6 && (case < 2 || case % 37 == 0) { samples.push(cx.desc.clone()); }
            if distinct.len() < 2_000_000 { distinct.extend(cx.seen.iter()); }
        }
        if let Err(m) = res {
            println!("{{\"property\":{},\"fail\":{},\"case\":{},\"input\":{},\"cases\":{},\"evaluations\":{}}}", js(&prop), js(&m), case, js(&cx.desc), cases, evals);
            std::process::exit(1);
        }
        case += 1;
        if only.is_some() || start.elapsed() > Duration::from_secs(secs) { break; }
    }
    println!("{{\"property\":{},\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}", js(&prop), cases, evals, distinct.len(),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
}
