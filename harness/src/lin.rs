//! Offline linearizability checker: is there one order of the recorded operations of a key,
//! consistent with real time and with the order of each client, in which the sequential model
//! gives every reply?
use crate::model::*;
use crate::resp::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Op {
    pub client: usize,
    pub inv: u64,
    pub resp: u64,
    pub cmd: Vec<Vec<u8>>,
    /// None: the reply does not tell the outcome for this key
    pub out: Option<Out>,
}

pub enum Verdict {
    Ok,
    Bad(String),
    /// too many states
    Capped,
}

fn hash_entry(e: Option<&Entry>, h: &mut DefaultHasher) {
    match e {
        None => 0u8.hash(h),
        Some(e) => {
            e.exp.hash(h);
            match &e.val {
                Val::Str(s) => (1u8, s).hash(h),
                Val::List(l) => (2u8, l).hash(h),
                Val::Hash(m) => (3u8, m).hash(h),
                Val::Set(m) => (4u8, m).hash(h),
                Val::Zset(z) => {
                    5u8.hash(h);
                    for (m, s) in z {
                        (m, s.to_bits()).hash(h);
                    }
                }
            }
        }
    }
}

struct Search<'a> {
    per: Vec<Vec<&'a Op>>,
    key: &'a [u8],
    now: u64,
    seen: HashSet<(u64, u64)>,
    nodes: usize,
    cap: usize,
    best: usize,
    best_at: String,
    path: Vec<&'a Op>,
}

impl<'a> Search<'a> {
    fn go(&mut self, at: &mut Vec<usize>, m: &Model, done: usize, total: usize) -> Option<bool> {
        if done == total {
            return Some(true);
        }
        let mut h = DefaultHasher::new();
        at.hash(&mut h);
        hash_entry(m.map.get(self.key), &mut h);
        let h1 = h.finish();
        0x5bd1_e995u64.hash(&mut h);
        if !self.seen.insert((h1, h.finish())) {
            return Some(false);
        }
        self.nodes += 1;
        if self.nodes > self.cap {
            return None;
        }
        let first = self
            .per
            .iter()
            .zip(at.iter())
            .filter_map(|(p, i)| p.get(*i).map(|o| o.resp))
            .min()
            .unwrap_or(u64::MAX);
        let mut why = vec![];
        for c in 0..self.per.len() {
            let op = match self.per[c].get(at[c]) {
                Some(o) => *o,
                None => continue,
            };
            if op.inv > first {
                continue;
            }
            let mut n = m.clone();
            let e = n.apply(&op.cmd, self.now, op.out.as_ref());
            if let Some(o) = &op.out {
                if !e.ok(o) {
                    why.push(format!(
                        "client {}: {} answered {}, here it would be {}",
                        c,
                        crate::util::esc_cmd(&op.cmd),
                        o.show(),
                        e.show()
                    ));
                    continue;
                }
            }
            at[c] += 1;
            self.path.push(op);
            let r = self.go(at, &n, done + 1, total);
            self.path.pop();
            at[c] -= 1;
            match r {
                Some(false) => (),
                r => return r,
            }
        }
        if done >= self.best && !why.is_empty() {
            self.best = done;
            self.best_at = format!(
                "longest consistent order: {} of {} operations; then the key is {} and\n{}\nthat order:\n{}",
                done,
                total,
                m.map.get(self.key).map_or("absent".into(), |e| e.val.show()),
                why.join("\n"),
                self.path
                    .iter()
                    .map(|o| format!(
                        "  client {} {} -> {}",
                        o.client,
                        crate::util::esc_cmd(&o.cmd),
                        o.out.as_ref().map_or("?".into(), Out::show)
                    ))
                    .collect::<Vec<_>>()
                    .join("\n")
            );
        }
        Some(false)
    }
}

/// operations of one key, starting from `init`
pub fn check(ops: &[Op], key: &[u8], init: Option<Entry>, now: u64, cap: usize) -> (Verdict, usize) {
    let nc = ops.iter().map(|o| o.client + 1).max().unwrap_or(0);
    let mut per: Vec<Vec<&Op>> = vec![vec![]; nc];
    for o in ops {
        per[o.client].push(o);
    }
    for p in &mut per {
        // stable: the order of sending
        p.sort_by_key(|o| o.inv);
    }
    let mut m = Model::new();
    if let Some(e) = init {
        m.map.insert(key.to_vec(), e);
    }
    let mut s = Search { per, key, now, seen: HashSet::new(), nodes: 0, cap, best: 0, best_at: String::new(), path: vec![] };
    let r = s.go(&mut vec![0; nc], &m, 0, ops.len());
    let n = s.nodes;
    match r {
        Some(true) => (Verdict::Ok, n),
        Some(false) => {
            let mut all: Vec<&Op> = ops.iter().collect();
            all.sort_by_key(|o| o.inv);
            let h: Vec<String> = all
                .iter()
                .map(|o| {
                    format!(
                        "  [{:>9} {:>9}] client {} {} -> {}",
                        o.inv / 1000,
                        o.resp / 1000,
                        o.client,
                        crate::util::esc_cmd(&o.cmd),
                        o.out.as_ref().map_or("?".into(), Out::show)
                    )
                })
                .collect();
            (Verdict::Bad(format!("{}\nhistory (us):\n{}", s.best_at, h.join("\n"))), n)
        }
        None => (Verdict::Capped, n),
    }
}
