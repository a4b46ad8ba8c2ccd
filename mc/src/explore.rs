//! The explorer: runs a property oracle on every element of indexed finite spaces, in parallel,
//! counts what it covered, and reports the violation with the smallest index.
use crate::model::ntru::Par;
use crate::real::{self, End, ScriptRng};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Vio {
    pub what: String,
    pub data: Vec<(String, String)>,
}

pub type Check = Result<(), Vio>;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn vio<T>(what: impl Into<String>, data: &[(&str, &[u8])]) -> Result<T, Vio> {
    Err(Vio { what: what.into(), data: data.iter().map(|(n, b)| (n.to_string(), hex(b))).collect() })
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h = 0x9e37_79b9_7f4a_7c15u64;
    for p in parts {
        h = (h ^ p.len() as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
        for c in p.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9fb2_1c65_1e98_df25);
            h ^= h >> 32;
        }
    }
    h
}

/// Per-thread recorder: every call of the implementation goes through it.
pub struct Rec {
    pub transitions: u64,
    pub states: Vec<u64>,
    pub outcomes: HashSet<u64>,
    pub tags: std::collections::BTreeMap<&'static str, u64>,
    pub out_digest: u64, // digest of the outputs of the current case
    pub salt: u64,
    slot: Arc<Slot>,
    epoch: Instant,
}

pub struct Slot {
    since: AtomicU64,
    case: Mutex<(String, u64)>,
}

impl Rec {
    fn call<F: FnOnce() -> End>(&mut self, f: F) -> End {
        self.transitions += 1;
        self.beat();
        f()
    }
    /// the time limit of a case starts anew (cases made of many calls)
    pub fn beat(&self) {
        self.slot.since.store(self.epoch.elapsed().as_millis() as u64 + 1, Release);
    }
    fn dirt(&mut self, n: usize) -> Vec<u8> {
        self.salt = self.salt.wrapping_add(1);
        let b = [0x00u8, 0xff, 0xa5, 0x3c][(self.salt % 4) as usize];
        vec![b; n]
    }
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
    pub fn state(&mut self, parts: &[&[u8]]) {
        self.states.push(hash64(parts));
    }
    pub fn outcome(&mut self, parts: &[&[u8]]) {
        let h = hash64(parts);
        self.out_digest = hash64(&[&self.out_digest.to_le_bytes(), &h.to_le_bytes()]);
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn keypair(&mut self, seed: &[u8], prf: &[u8]) -> (End, Vec<u8>, Vec<u8>, ScriptRng) {
        self.state(&[b"K", seed, prf]);
        let mut rng = ScriptRng::new([seed, prf].concat());
        let (mut pk, mut sk) = (self.dirt(real::PK), self.dirt(real::SK));
        let e = self.call(|| real::keypair(&mut rng, &mut pk, &mut sk));
        self.outcome(&[b"K", format!("{:?}", e).as_bytes(), &pk, &sk]);
        (e, pk, sk, rng)
    }
    pub fn enc(&mut self, pk: &[u8], seed: &[u8]) -> (End, Vec<u8>, Vec<u8>, ScriptRng) {
        self.state(&[b"E", pk, seed]);
        let mut rng = ScriptRng::new(seed.to_vec());
        let (mut c, mut k) = (self.dirt(real::CT), self.dirt(real::SS));
        let e = self.call(|| real::enc(&mut rng, &mut c, &mut k, pk));
        self.outcome(&[b"E", format!("{:?}", e).as_bytes(), &c, &k]);
        (e, c, k, rng)
    }
    pub fn dec(&mut self, c: &[u8], sk: &[u8]) -> (End, Vec<u8>) {
        self.state(&[b"D", c, sk]);
        let mut k = self.dirt(real::SS);
        let e = self.call(|| real::dec(&mut k, c, sk));
        self.outcome(&[b"D", format!("{:?}", e).as_bytes(), &k]);
        (e, k)
    }
}

#[derive(Default)]
pub struct SpaceStat {
    pub name: String,
    pub rule: String,
    pub total: u64,
    pub done: u64,
    pub tags: std::collections::BTreeMap<&'static str, u64>,
}

pub struct Explorer {
    pub prop: String,
    pub variant: &'static str,
    pub par: Par,
    pub tier: Tier,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub digest_dir: Option<String>,
    pub stats: Vec<SpaceStat>,
    pub transitions: u64,
    pub traces: u64,
    pub states: Vec<u64>,
    pub outcomes: HashSet<u64>,
    pub model_states: u64,
    pub model_transitions: u64,
    pub violation: Option<(String, u64, Vio)>,
    pub out: String,
    pub started: Instant,
    pub until: Option<std::time::SystemTime>,
}

pub const HANG_S: u64 = 120;

impl Explorer {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// past the soft deadline (MC_UNTIL, seconds since the epoch): what is left is not explored
    /// and reported as such
    pub fn late(&self) -> bool {
        self.until.map_or(false, |u| std::time::SystemTime::now() > u)
    }
    /// the last space was explored completely
    pub fn complete(&self) -> bool {
        self.stats.last().map_or(false, |s| s.done == s.total)
    }
    /// pick a bound by tier
    pub fn by<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    /// Evaluate `f` on every index 0..total. Stops early once a violation is known, but always
    /// finishes all smaller indices so that the reported counterexample is the first one.
    pub fn space<F>(&mut self, name: &str, rule: &str, total: u64, f: F)
    where
        F: Fn(u64, &mut Rec) -> Check + Sync,
    {
        if self.violation.is_some() {
            return;
        }
        let (lo, hi) = match &self.only {
            Some((n, i)) => {
                if n != name {
                    return;
                }
                (*i, *i + 1)
            }
            None => (0, total),
        };
        let next = AtomicU64::new(lo);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, Vio)>> = Mutex::new(None);
        let digests: Option<Vec<AtomicU64>> = self.digest_dir.as_ref().map(|_| (0..total).map(|_| AtomicU64::new(0)).collect());
        let nthreads = self.threads.min((hi - lo).max(1) as usize);
        let step = ((hi - lo) / (nthreads as u64 * 16)).clamp(1, 64);
        let epoch = self.started;
        let slots: Vec<Arc<Slot>> =
            (0..nthreads).map(|_| Arc::new(Slot { since: AtomicU64::new(0), case: Mutex::new((name.to_string(), 0)) })).collect();
        let done = std::sync::atomic::AtomicBool::new(false);
        let mut recs: Vec<(Rec, u64)> = Vec::new();
        let this = &*self;
        std::thread::scope(|s| {
            let dogslots = slots.clone();
            let doneref = &done;
            let dog = s.spawn(move || loop {
                if doneref.load(Acquire) {
                    return;
                }
                let now = epoch.elapsed().as_millis() as u64;
                for sl in &dogslots {
                    let t = sl.since.load(Acquire);
                    if t != 0 && now > t + HANG_S * 1000 {
                        let c = sl.case.lock().unwrap().clone();
                        this.write_result(Some((c.0, c.1, Vio { what: format!("no result within {} s: the call does not terminate", HANG_S), data: vec![] })));
                        std::process::exit(1);
                    }
                }
                std::thread::park_timeout(Duration::from_millis(200));
            });
            let mut hs = Vec::new();
            for t in 0..nthreads {
                let (f, next, best, found, digests) = (&f, &next, &best, &found, &digests);
                let slot = slots[t].clone();
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut rec = Rec {
                                transitions: 0,
                                states: Vec::new(),
                                outcomes: HashSet::new(),
                                tags: Default::default(),
                                out_digest: 0,
                                salt: 0,
                                slot: slot.clone(),
                                epoch,
                            };
                            let mut n = 0u64;
                            loop {
                                let a = next.fetch_add(step, AcqRel);
                                if a >= hi || a >= best.load(Acquire) || this.late() {
                                    break;
                                }
                                for i in a..(a + step).min(hi) {
                                    if i >= best.load(Acquire) {
                                        break;
                                    }
                                    slot.case.lock().unwrap().1 = i;
                                    rec.beat();
                                    rec.out_digest = 0;
                                    rec.salt = i.wrapping_mul(3);
                                    let r = f(i, &mut rec);
                                    slot.since.store(0, Release);
                                    n += 1;
                                    if let Some(d) = digests {
                                        d[i as usize].store(rec.out_digest, Relaxed);
                                    }
                                    if let Err(v) = r {
                                        let mut g = found.lock().unwrap();
                                        if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                            *g = Some((i, v));
                                            best.fetch_min(i, AcqRel);
                                        }
                                    }
                                }
                            }
                            (rec, n)
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                recs.push(h.join().unwrap_or_else(|_| {
                    eprintln!("explorer thread panicked (error of the check itself)");
                    std::process::exit(3)
                }));
            }
            done.store(true, Release);
            dog.thread().unpark();
        });
        let mut st = SpaceStat { name: name.into(), rule: rule.into(), total: hi - lo, ..Default::default() };
        for (r, n) in recs {
            self.transitions += r.transitions;
            self.states.extend(r.states);
            if self.states.len() > 4_000_000 {
                self.states.sort_unstable();
                self.states.dedup();
            }
            self.outcomes.extend(r.outcomes);
            for (k, v) in r.tags {
                *st.tags.entry(k).or_insert(0) += v;
            }
            st.done += n;
        }
        let skipped = st.tags.get("skipped").copied().unwrap_or(0);
        st.done -= skipped;
        st.total -= skipped;
        self.traces += st.done;
        if let (Some(dir), Some(d)) = (&self.digest_dir, &digests) {
            let bytes: Vec<u8> = d.iter().flat_map(|x| x.load(Relaxed).to_le_bytes()).collect();
            std::fs::create_dir_all(dir).unwrap();
            std::fs::write(format!("{}/{}.bin", dir, name), bytes).unwrap();
        }
        eprintln!("[{} {}] {:7.2}s {:<22} {:>8}/{:<8} {:?}", self.prop, self.variant, self.started.elapsed().as_secs_f64(), name, st.done, st.total, st.tags);
        self.stats.push(st);
        if let Some((i, v)) = found.into_inner().unwrap() {
            self.violation = Some((name.to_string(), i, v));
        }
    }

    pub fn write_result(&self, v: Option<(String, u64, Vio)>) {
        let esc = |s: &str| -> String {
            s.chars()
                .map(|c| match c {
                    '"' => "\\\"".to_string(),
                    '\\' => "\\\\".to_string(),
                    '\n' => "\\n".to_string(),
                    c if (c as u32) < 32 => " ".to_string(),
                    c => c.to_string(),
                })
                .collect()
        };
        let mut st = self.states.clone();
        st.sort_unstable();
        st.dedup();
        let spaces: Vec<String> = self
            .stats
            .iter()
            .map(|s| {
                let tags: Vec<String> = s.tags.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
                format!("{{\"space\":\"{}\",\"rule\":\"{}\",\"size\":{},\"explored\":{},\"outcome_classes\":{{{}}}}}", esc(&s.name), esc(&s.rule), s.total, s.done, tags.join(","))
            })
            .collect();
        let vj = match &v {
            None => "null".to_string(),
            Some((sp, i, v)) => {
                let data: Vec<String> = v.data.iter().map(|(k, d)| format!("\"{}\":\"{}\"", esc(k), esc(d))).collect();
                format!("{{\"space\":\"{}\",\"index\":{},\"what\":\"{}\",\"data\":{{{}}}}}", esc(sp), i, esc(&v.what), data.join(","))
            }
        };
        let j = format!(
            "{{\"property\":\"{}\",\"variant\":\"{}\",\"tier\":\"{:?}\",\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"model_states\":{},\"model_transitions\":{},\"wall_s\":{:.3},\"spaces\":[{}],\"violation\":{}}}\n",
            self.prop, self.variant, self.tier, st.len(), self.transitions, self.traces, self.outcomes.len(), self.model_states, self.model_transitions,
            self.started.elapsed().as_secs_f64(), spaces.join(","), vj
        );
        std::fs::write(&self.out, j).expect("cannot write result");
    }
}
