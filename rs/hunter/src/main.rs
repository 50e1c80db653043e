mod derivefuzz;
mod emit;
mod fmtfuzz;
mod hircmp;
mod refparse;
mod rng;
use rng::Rng;
use std::collections::HashSet;
use std::time::{Duration, Instant};

pub struct Found { pub program: String, pub input: Option<String>, pub what: String }
#[derive(Default)]
pub struct Report { pub evaluations: u64, pub skipped: u64, pub unknown: u64, pub found: Vec<Found>, seen: HashSet<u64>, pub samples: Vec<String> }
impl Report {
    pub fn nontrivial(&mut self, s: &str) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        if self.seen.insert(h.finish()) && (self.samples.len() < 8) { self.samples.push(s.to_string()); }
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations; self.skipped += o.skipped; self.unknown += o.unknown;
        self.found.extend(o.found); self.seen.extend(o.seen); self.samples.extend(o.samples); self.samples.truncate(8);
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({
            "evaluations": self.evaluations, "skipped": self.skipped, "unknown": self.unknown, "distinct_nontrivial": self.seen.len(), "samples": self.samples,
            "found": self.found.iter().map(|f| serde_json::json!({"program": f.program, "input": f.input, "what": f.what})).collect::<Vec<_>>(),
        })
    }
}

fn profile(p: &str) -> fmtfuzz::Profile {
    use fmtfuzz::Profile as P;
    let base = P { lit: 40, brace: 15, esc: 15, bad: 20, custom: 10, radix: 12, wide: 15, ext: 20, maxpieces: 7, common_types: 60 };
    match p {
        "C01" => P { lit: 80, brace: 20, esc: 25, bad: 2, custom: 3, radix: 3, wide: 25, ..base },
        "C02" => P { lit: 30, brace: 40, bad: 45, ..base },
        "C03" | "C11" => P { lit: 15, brace: 8, custom: 70, radix: 0, bad: 25, maxpieces: 4, ..base },
        "C04" => P { lit: 15, brace: 5, custom: 2, radix: 85, bad: 40, maxpieces: 3, common_types: 55, ..base },
        "C05" => P { lit: 10, brace: 2, custom: 0, radix: 95, bad: 0, maxpieces: 2, common_types: 100, ..base },
        "C09" => P { lit: 15, brace: 3, custom: 5, radix: 10, bad: 20, ext: 40, maxpieces: 8, ..base },
        "C20" => P { bad: 60, wide: 35, ..base },
        _ => base,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "emit" { std::panic::set_hook(Box::new(|_| {})); emit::main(&a[2], &a[3]); return }
    let (cmd, prop, seed, secs, out) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), &a[5]);
    std::panic::set_hook(Box::new(|_| {}));
    let mut rep = Report::default();
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(secs);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|k| sc.spawn(move || {
            let mut rep = Report::default();
            let mut rng = Rng::new(seed.wrapping_mul(1000).wrapping_add(prop.bytes().map(|b| b as u64).sum::<u64>()).wrapping_mul(64).wrapping_add(k));
            match cmd.as_str() {
                "fmt" => {
                    let tys = fmtfuzz::types();
                    let p = profile(prop);
                    while t0.elapsed() < limit && rep.found.len() < 5 {
                        for _ in 0..50 { if let Some(c) = fmtfuzz::gen(&mut rng, &p, &tys) { fmtfuzz::check(&c, &tys, &mut rng, &mut rep); } }
                        // C11 is only about groups that would shift the captures
                        if prop == "C11" { rep.found.retain(|f| f.what.contains("has to be a compile error (capture group")); }
                    }
                }
                "derive" => {
                    while t0.elapsed() < limit && rep.found.len() < 5 {
                        for _ in 0..50 { derivefuzz::check(prop, &mut rng, &mut rep); }
                    }
                }
                _ => panic!("unknown command"),
            }
            rep
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts { rep.merge(p); }
    std::fs::write(out, serde_json::to_string_pretty(&rep.json()).unwrap()).unwrap();
}
