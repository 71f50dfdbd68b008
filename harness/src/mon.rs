//! Monitor verdicts, coverage accounting and the random source.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn pick_c<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.idx(v.len())].clone()
    }
}

#[derive(Default, Clone)]
pub struct Stat {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub kinds: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub msg: String,
    pub step: usize,
}

/// Collects the verdicts of all monitors of one execution.
#[derive(Default)]
pub struct Mon {
    pub stats: BTreeMap<&'static str, Stat>,
    pub viols: Vec<Viol>,
    pub silenced: BTreeSet<&'static str>,
    pub known: BTreeMap<(&'static str, &'static str), String>,
    pub step: usize,
    pub focus: &'static str,
    /// the transaction being judged, for samples
    pub ctx: String,
}

pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Mon {
    pub fn new(focus: &'static str) -> Mon {
        Mon {
            focus,
            ..Default::default()
        }
    }
    /// One evaluation of a monitor. `cov` identifies the situation it was evaluated in.
    pub fn check<C: Hash>(&mut self, prop: &'static str, kind: &str, cov: C, ok: bool, msg: impl FnOnce() -> String) {
        if prop == self.focus || self.focus.is_empty() {
            let st = self.stats.entry(prop).or_default();
            st.evals += 1;
            let n = st.kinds.entry(kind.to_string()).or_default();
            *n += 1;
            if *n == 1 && st.samples.len() < 6 && !self.ctx.is_empty() {
                st.samples.push(format!("[{kind}] {}", self.ctx));
            }
            st.distinct.insert(h(&(kind, &cov)));
        }
        if !ok && !self.silenced.contains(prop) {
            self.silenced.insert(prop);
            self.viols.push(Viol {
                prop,
                msg: format!("[{kind}] {}", msg()),
                step: self.step,
            });
        }
    }
    pub fn sample(&mut self, prop: &'static str, s: impl FnOnce() -> String) {
        if prop == self.focus {
            let st = self.stats.entry(prop).or_default();
            if st.samples.len() < 3 {
                st.samples.push(s());
            }
        }
    }
    pub fn fail(&mut self, prop: &'static str, kind: &str, msg: String) {
        self.check(prop, kind, 0u8, false, || msg);
    }
    /// A violation that may be one of the recorded findings (decided at the end of the run).
    pub fn known(&mut self, prop: &'static str, id: &'static str, msg: String) {
        self.known.entry((prop, id)).or_insert(msg);
    }
}
