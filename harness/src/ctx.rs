//! Verdicts and evidence of one run.
use crate::srv::Bins;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// the check can't decide
pub struct Inconclusive(pub String);
impl fmt::Display for Inconclusive {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "INCONCLUSIVE: {}", self.0)
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub bins: Bins,
    pub verif: PathBuf,
    pub start: Instant,
    pub rule: Mutex<String>,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    counters: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Mutex<BTreeSet<String>>,
    inconclusive: Mutex<Vec<String>>,
    known_list: Vec<(String, String, String)>,
    assumptions: Mutex<Vec<String>>,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, bins: Bins, verif: PathBuf) -> Ctx {
        let mut known_list = vec![];
        if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in t.lines() {
                // known: property=C19 sig=<sig> <text>
                let w: Vec<&str> = l.splitn(4, ' ').collect();
                if w.len() == 4 && w[0] == "known:" {
                    known_list.push((
                        w[1].trim_start_matches("property=").to_string(),
                        w[2].trim_start_matches("sig=").to_string(),
                        w[3].to_string(),
                    ));
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            bins,
            verif,
            start: Instant::now(),
            rule: Mutex::new(String::new()),
            evals: AtomicU64::new(0),
            distinct: Mutex::default(),
            samples: Mutex::default(),
            counters: Mutex::default(),
            violations: Mutex::default(),
            known: Mutex::default(),
            inconclusive: Mutex::default(),
            known_list,
            assumptions: Mutex::default(),
        }
    }
    pub fn rng(&self, tag: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x1000_0001).wrapping_add(7)).fork(tag)
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough {
            t
        } else {
            q
        }
    }
    pub fn deadline(&self, q: u64, t: u64) -> Instant {
        // part of another check: shorter
        let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Instant::now() + Duration::from_secs(if self.thorough { t } else { q }).mul_f64(scale)
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// one evaluated case; `case` identifies it
    pub fn eval(&self, case: &[u8]) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 2_000_000 {
            d.insert(fnv(case));
        }
    }
    pub fn eval_n(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    pub fn evals(&self) -> u64 {
        self.evals.load(Ordering::Relaxed)
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.into()).or_insert(0) += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(name.into()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.counters.lock().unwrap().get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 8 {
            let mut s = s;
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            v.push(s);
        }
    }
    pub fn violation(&self, summary: &str, detail: &str) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            eprintln!("violated: {}", summary);
            v.push((summary.into(), detail.into()));
        } else {
            v.push((String::new(), String::new()));
        }
    }
    /// a violation with a stable signature, which the known findings file may list
    pub fn finding(&self, sig: &str, summary: &str, detail: &str) {
        if self.known_list.iter().any(|(p, s, _)| *p == self.prop && s == sig) {
            self.known.lock().unwrap().insert(sig.into());
        } else {
            self.violation(&format!("{} [{}]", summary, sig), detail);
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    pub fn n_violations(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    pub fn inconclusive(&self, s: &str) {
        self.inconclusive.lock().unwrap().push(s.into());
    }

    /// write the evidence, print the verdict, return the exit code
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let known = self.known.lock().unwrap();
        let inc = self.inconclusive.lock().unwrap();
        let evals = self.evals();
        let distinct = self.distinct.lock().unwrap().len();
        let mut o = String::from("{\n");
        let tier = if self.thorough { "thorough" } else { "quick" };
        o.push_str(&format!(
            " \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n",
            json_str(&self.prop),
            tier,
            self.seed
        ));
        o.push_str(" \"coverage\": {\n");
        o.push_str(&format!("  \"evaluations\": {}, \"distinct_nontrivial\": {},\n", evals, distinct));
        o.push_str(&format!("  \"rule\": {},\n", json_str(&self.rule.lock().unwrap())));
        let s: Vec<String> = self.samples.lock().unwrap().iter().map(|s| json_str(s)).collect();
        o.push_str(&format!("  \"samples\": [{}]", s.join(",\n   ")));
        for (k, n) in self.counters.lock().unwrap().iter() {
            o.push_str(&format!(",\n  {}: {}", json_str(k), n));
        }
        o.push_str("\n },\n");
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| json_str(s)).collect();
        o.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
        let k: Vec<String> = known.iter().map(|s| json_str(s)).collect();
        o.push_str(&format!(" \"known_findings_seen\": [{}],\n", k.join(", ")));
        let i: Vec<String> = inc.iter().map(|s| json_str(s)).collect();
        o.push_str(&format!(" \"inconclusive\": [{}],\n", i.join(", ")));
        o.push_str(&format!(
            " \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            v.len()
        ));
        let ev = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        let _ = std::fs::write(ev.join(format!("{}.json", self.prop)), o);

        for s in known.iter() {
            let text = self.known_list.iter().find(|(p, g, _)| *p == self.prop && g == s).map_or("", |k| &k.2);
            println!("KNOWN-FINDING: property={} {}", self.prop, text);
        }
        if !v.is_empty() {
            let dir = self.verif.join("work").join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}.txt", self.prop, tier, self.seed));
            let mut t = format!(
                "property {}\nrerun: VERIF_SEED={} VERIF_TIER={} /verif/check.sh {} {}\n\n",
                self.prop, self.seed, tier, self.prop, tier
            );
            for (s, d) in v.iter().filter(|(s, _)| !s.is_empty()) {
                t.push_str(&format!("== {}\n{}\n\n", s, d));
            }
            let _ = std::fs::write(&path, t);
            for (s, _) in v.iter().filter(|(s, _)| !s.is_empty()) {
                println!("  {}", s);
            }
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            return 1;
        }
        if !inc.is_empty() || evals == 0 {
            for i in inc.iter() {
                println!("inconclusive: {}", i);
            }
            if evals == 0 {
                println!("inconclusive: nothing was evaluated");
            }
            return 2;
        }
        println!(
            "{} held on {} evaluations ({} distinct), {:.1} s",
            self.prop,
            evals,
            distinct,
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}
