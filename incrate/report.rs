// Shared reporting primitives: seeded RNG, evidence counters, violation records.
use std::collections::{BTreeMap, HashSet};

/// splitmix64 generator; every workload case is a pure function of its seed.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.idx(i + 1);
            items.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub workload: String,
    pub case_seed: u64,
    pub message: String,
    pub trace: Vec<String>,
}

/// What the monitors observed while a workload ran.
#[derive(Default, Debug)]
pub struct Report {
    pub workload: String,
    pub case_seed: u64,
    /// Monitor evaluations (oracle comparisons that actually ran).
    pub evals: u64,
    /// Fingerprints of distinct non-trivial situations judged.
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub notes: HashSet<String>,
    pub trace: Vec<String>,
    pub thorough: bool,
}

impl Report {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn start_case(&mut self, workload: &str, seed: u64) {
        self.workload = workload.to_string();
        self.case_seed = seed;
        self.trace.clear();
    }
    /// One oracle evaluation over a situation with the given fingerprint.
    pub fn eval(&mut self, fingerprint: u64) {
        self.evals += 1;
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(fingerprint);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(format!("{}.{}", self.workload, name)).or_default() += n;
    }
    pub fn sample(&mut self, text: String) {
        if self.samples.len() < 12 {
            self.samples.push(text);
        }
    }
    pub fn note(&mut self, text: &str) {
        self.notes.insert(text.to_string());
    }
    pub fn log(&mut self, text: String) {
        if self.trace.len() < 4000 {
            self.trace.push(text);
        }
    }
    pub fn violate(&mut self, message: String) {
        if self.violations.len() < 50 {
            let n = self.trace.len();
            let tail = self.trace[n.saturating_sub(400)..].to_vec();
            self.violations.push(Violation {
                workload: self.workload.clone(),
                case_seed: self.case_seed,
                message,
                trace: tail,
            });
        }
    }
    /// Evaluate an assertion: counts it and records a violation when false.
    pub fn check(&mut self, fingerprint: u64, ok: bool, message: impl FnOnce() -> String) -> bool {
        self.eval(fingerprint);
        if !ok {
            self.violate(message());
        }
        ok
    }
    pub fn merge(&mut self, other: Report) {
        self.evals += other.evals;
        self.distinct.extend(other.distinct);
        for (k, v) in other.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in other.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        self.violations.extend(other.violations);
        self.notes.extend(other.notes);
    }
}

/// FNV-1a fingerprint.
pub fn fp(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}
pub fn fps(text: &str) -> u64 {
    fp(text.as_bytes())
}
pub fn fpn(parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}

/// Future that yields once to the scheduler.
pub struct YieldOnce(pub bool);
impl std::future::Future for YieldOnce {
    type Output = ();
    fn poll(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<()> {
        if self.0 {
            std::task::Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
}
pub async fn yields(n: u32) {
    for _ in 0..n {
        YieldOnce(false).await;
    }
}
