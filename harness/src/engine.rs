//! Property-based testing engine: recorded choice sequences, generic shrinking,
//! process-isolated workers, watchdog, replay files and evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// A source of choices. Every choice is recorded; smaller values are simpler.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, rec: vec![] }
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.rng.is_none() {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            if v >= n { n - 1 } else { v }
        } else {
            self.rng.as_mut().unwrap().next() % n
        };
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.below(u64::MAX) as i64;
        }
        (lo as i128 + self.below(span as u64) as i128) as i64
    }
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        // biased to small
        let a = self.below((hi - lo + 1) as u64) as usize;
        if a > 3 && self.below(2) == 0 { lo + a / 2 } else { lo + a }
    }
    /// true with probability pct/100 (false is the simple choice)
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn pick_opt<'a, T>(&mut self, xs: &'a [T]) -> Option<&'a T> {
        if xs.is_empty() { None } else { Some(self.pick(xs)) }
    }
    pub fn opt<T>(&mut self, pct: u64, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.chance(pct) { Some(f(self)) } else { None }
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.len(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        self.vec(lo, hi, |s| s.below(256) as u8)
    }
    /// pseudo-random bytes from one recorded seed (cheap, large)
    pub fn blob(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.len(lo, hi);
        let mut r = Rng::new(self.below(1 << 20));
        (0..n).map(|_| r.next() as u8).collect()
    }
}

// ---------------------------------------------------------------- outcomes
#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail { msg: s }
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail { msg: format!($($a)*) }); } };
}

pub struct Ctx {
    pub s: Src,
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    pub sample: String,
    pub want_sample: bool,
    pub scratch: PathBuf,
}
impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.insert(l.into());
    }
    /// record the case (text is only kept for the evidence and replay)
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut t = f();
            if t.len() > 6000 {
                let mut k = 6000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push('…');
            }
            self.sample.push_str(&t);
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.scratch.join(name)
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub run: fn(&mut Ctx) -> Res,
}
pub struct Probe {
    pub key: &'static str,
    pub run: fn() -> Res,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub probes: Vec<Probe>,
}

// ---------------------------------------------------------------- panics
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("panic at {loc}: {msg}");
        }
    }));
}
/// Run code under test; a panic becomes an Err with the message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| Fail { msg: LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default() })
}

// ---------------------------------------------------------------- known findings
pub struct Known {
    pub open: BTreeMap<String, String>,
}
static KNOWN: Mutex<Option<BTreeSet<String>>> = Mutex::new(None);
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn known_lines() -> Vec<Value> {
    let p = verif_dir().join("known_findings.jsonl");
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(l).expect("known_findings.jsonl"))
        .collect()
}
/// Is the defect class `key` an open (recorded, unrepaired) finding? Generators exclude open classes.
pub fn open_finding(key: &str) -> bool {
    let mut g = KNOWN.lock().unwrap();
    if g.is_none() {
        *g = Some(
            known_lines()
                .iter()
                .filter(|v| v["status"] == "open")
                .map(|v| v["key"].as_str().unwrap_or("").to_string())
                .collect(),
        );
    }
    g.as_ref().unwrap().contains(key)
}

// ---------------------------------------------------------------- running one case
pub struct Outcome {
    pub fail: Option<Fail>,
    pub rec: Vec<u64>,
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    pub sample: String,
}
fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ fnv(prop.as_bytes()) ^ fnv(sub.as_bytes()).rotate_left(17) ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}
static CASE_START: AtomicU64 = AtomicU64::new(0);
static EPOCH: Mutex<Option<Instant>> = Mutex::new(None);
fn now_ms() -> u64 {
    let mut g = EPOCH.lock().unwrap();
    let e = g.get_or_insert_with(Instant::now);
    e.elapsed().as_millis() as u64 + 1
}
pub fn run_case(sub: &Sub, src: Src, want_sample: bool, scratch: &Path) -> Outcome {
    let mut ctx = Ctx { s: src, labels: BTreeSet::new(), nontrivial: false, sample: String::new(), want_sample, scratch: scratch.to_path_buf() };
    CASE_START.store(now_ms(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| (sub.run)(&mut ctx)));
    CASE_START.store(0, Ordering::SeqCst);
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => Some(Fail { msg: LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default() }),
    };
    Outcome { fail, rec: ctx.s.rec, labels: ctx.labels, nontrivial: ctx.nontrivial, sample: ctx.sample }
}

// ---------------------------------------------------------------- shrinking
fn shortlex(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
pub fn shrink(sub: &Sub, rec: Vec<u64>, scratch: &Path, budget: Duration) -> (Vec<u64>, Fail, u64) {
    let start = Instant::now();
    let mut best = rec;
    let mut last = run_case(sub, Src::replay(best.clone()), false, scratch).fail;
    if last.is_none() {
        return (best, Fail { msg: "(not reproducible)".into() }, 1);
    }
    let mut tries = 0u64;
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, last: &mut Option<Fail>, tries: &mut u64| -> bool {
        if start.elapsed() > budget {
            return false;
        }
        *tries += 1;
        let o = run_case(sub, Src::replay(cand), false, scratch);
        if let Some(f) = o.fail {
            if shortlex(&o.rec, best) {
                *best = o.rec;
                *last = Some(f);
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                attempt(c, &mut best, &mut last, &mut tries);
                i = lo.min(best.len());
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero blocks
        let mut k = 8usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..hi] {
                        *x = 0;
                    }
                    attempt(c, &mut best, &mut last, &mut tries);
                }
                i += k;
            }
            k /= 2;
        }
        // minimise values; also value-1 with one deletion after (shortening lists)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let (mut lo, mut hi) = (0u64, best[i]);
                while lo < hi && i < best.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt(c, &mut best, &mut last, &mut tries) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                    if start.elapsed() > budget {
                        break;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    for del in [1usize, 2, 3, 5, 8] {
                        for off in 1..4usize {
                            if i + off + del <= best.len() && best[i] > 0 {
                                let mut c = best.clone();
                                c[i] -= 1;
                                c.drain(i + off..i + off + del);
                                attempt(c, &mut best, &mut last, &mut tries);
                                if i >= best.len() {
                                    break;
                                }
                            }
                        }
                        if i >= best.len() {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, last.unwrap(), tries)
}

// ---------------------------------------------------------------- worker
fn write_replay(prop: &str, sub: &str, rec: &[u64], f: &Fail, sample: &str, extra: Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    rec.hash(&mut h);
    let p = dir.join(format!("{prop}-{sub}-{:016x}.json", h.finish()));
    let v = json!({"property":prop,"sub":sub,"choices":rec,"message":f.msg,"case":sample,"extra":extra,
        "how":"./check.sh replay <this file>"});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

pub fn mult(tier: &str) -> u64 {
    if let Ok(m) = std::env::var("VERIF_MULT") {
        if let Ok(m) = m.parse() {
            return m;
        }
    }
    if tier == "thorough" { 25 } else { 1 }
}

pub fn worker(p: &Prop, tier: &str, seed: u64, shard: u64, nshards: u64, out: &Path) {
    install_hook();
    let scratch = out.join(format!("scratch{shard}"));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("TMPDIR", &scratch);
    std::env::set_current_dir(&scratch).unwrap();
    let prog = out.join(format!("progress{shard}"));
    let mut progf = std::fs::File::create(&prog).unwrap();
    let hang = out.join(format!("hang{shard}"));
    let limit = 90_000;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > limit {
            let _ = std::fs::write(&hang, "hang");
            std::process::exit(77);
        }
    });
    let only = std::env::var("VERIF_SUB").ok();
    let mut stats = BTreeMap::new();
    let mut fails = vec![];
    for (si, sub) in p.subs.iter().enumerate() {
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        let n = sub.quick * mult(tier);
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut distinct: HashSet<u64> = HashSet::new();
        let (mut evals, mut nontriv) = (0u64, 0u64);
        let mut samples: Vec<Value> = vec![];
        let t0 = Instant::now();
        let mut i = shard;
        let mut failed = false;
        while i < n {
            use std::os::unix::fs::FileExt;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            let _ = progf.write_at(&b, 0);
            let want = samples.len() < 1 && i / nshards >= 2;
            let o = run_case(sub, Src::random(case_seed(seed, p.id, sub.name, i)), want, &scratch);
            evals += 1;
            if o.nontrivial {
                nontriv += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                o.rec.hash(&mut h);
                distinct.insert(h.finish());
            }
            for l in o.labels {
                *labels.entry(l).or_default() += 1;
            }
            if want && o.nontrivial && o.fail.is_none() && !o.sample.is_empty() {
                samples.push(json!({"sub":sub.name,"case":i,"input":o.sample.chars().take(1500).collect::<String>()}));
            }
            if let Some(f0) = o.fail {
                failed = true;
                let (best, f, tries) = shrink(sub, o.rec.clone(), &scratch, Duration::from_secs(if tier == "thorough" { 60 } else { 20 }));
                let (best, f) = if f.msg == "(not reproducible)" { (o.rec, f0) } else { (best, f) };
                let o2 = run_case(sub, Src::replay(best.clone()), true, &scratch);
                let path = write_replay(p.id, sub.name, &best, &f, &o2.sample, json!({"case":i,"shrink_tries":tries,"seed":seed}));
                fails.push(json!({"sub":sub.name,"msg":f.msg,"replay":path,"sample":o2.sample}));
                break;
            }
            i += nshards;
        }
        let _ = failed;
        let d: Vec<u64> = distinct.into_iter().collect();
        stats.insert(sub.name.to_string(), json!({"evals":evals,"nontrivial":nontriv,"distinct":d,"labels":labels,"samples":samples,"secs":t0.elapsed().as_secs_f64()}));
    }
    let _ = progf.flush();
    std::fs::write(out.join(format!("result{shard}.json")), serde_json::to_string(&json!({"stats":stats,"fails":fails})).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
}

// ---------------------------------------------------------------- driver
pub fn run(p: &Prop, tier: &str, seed: u64) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let mut violations: Vec<String> = vec![];
    // probes: known findings and fixed findings
    let mut known_printed = vec![];
    let lines = known_lines();
    for pr in &p.probes {
        let open = lines.iter().find(|v| v["key"] == pr.key && v["status"] == "open" && v["property"] == p.id);
        let r = catch_unwind(AssertUnwindSafe(|| (pr.run)()));
        let f = match r {
            Ok(Ok(())) => None,
            Ok(Err(f)) => Some(f),
            Err(_) => Some(Fail { msg: LAST_PANIC.lock().unwrap().clone() }),
        };
        if let Some(f) = f {
            if let Some(k) = open {
                println!("KNOWN-FINDING: property={} {}", p.id, k["what"].as_str().unwrap_or(pr.key));
                known_printed.push(pr.key);
            } else {
                let path = write_replay(p.id, &format!("probe-{}", pr.key), &[], &f, "", json!({"probe":pr.key}));
                println!("VIOLATION property={} replay={}", p.id, path.display());
                println!("  probe {}: {}", pr.key, f.msg);
                violations.push(f.msg);
            }
        }
    }
    let nshards: u64 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = std::env::temp_dir().join(format!("vh-{}-{}-{}", p.id, std::process::id(), seed));
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..nshards)
        .map(|k| {
            std::process::Command::new(&exe)
                .args(["worker", p.id, tier, &seed.to_string(), &k.to_string(), &nshards.to_string()])
                .arg(&out)
                .stdout(std::process::Stdio::null())
                .stderr(std::fs::File::create(out.join(format!("stderr{k}"))).unwrap())
                .spawn()
                .expect("spawn worker")
        })
        .collect();
    let mut infra = false;
    let mut agg: BTreeMap<String, (u64, u64, HashSet<u64>, BTreeMap<String, u64>, Vec<Value>, f64)> = BTreeMap::new();
    for (k, kid) in kids.iter_mut().enumerate() {
        let st = kid.wait().expect("wait");
        let rf = out.join(format!("result{k}.json"));
        match std::fs::read_to_string(&rf).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            Some(v) if st.success() => {
                for (name, s) in v["stats"].as_object().unwrap() {
                    let e = agg.entry(name.clone()).or_default();
                    e.0 += s["evals"].as_u64().unwrap();
                    e.1 += s["nontrivial"].as_u64().unwrap();
                    e.2.extend(s["distinct"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                    for (l, c) in s["labels"].as_object().unwrap() {
                        *e.3.entry(l.clone()).or_default() += c.as_u64().unwrap();
                    }
                    if e.4.len() < 2 {
                        e.4.extend(s["samples"].as_array().unwrap().iter().cloned());
                    }
                    e.5 = e.5.max(s["secs"].as_f64().unwrap());
                }
                for f in v["fails"].as_array().unwrap() {
                    println!("VIOLATION property={} replay={}", p.id, f["replay"].as_str().unwrap());
                    println!("  sub={} {}", f["sub"].as_str().unwrap(), f["msg"].as_str().unwrap());
                    if std::env::var("VERIF_VERBOSE").is_ok() {
                        println!("  case: {}", f["sample"].as_str().unwrap_or(""));
                    }
                    violations.push(f["msg"].as_str().unwrap().into());
                }
            }
            _ => {
                // died: find the case
                let b = std::fs::read(out.join(format!("progress{k}"))).unwrap_or_default();
                let err = std::fs::read_to_string(out.join(format!("stderr{k}"))).unwrap_or_default();
                if b.len() == 16 {
                    let si = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
                    let i = u64::from_le_bytes(b[8..].try_into().unwrap());
                    let hang = out.join(format!("hang{k}")).exists();
                    let f = Fail { msg: if hang { "case did not finish within 90 s".into() } else { format!("worker died ({st}): {}", err.chars().take(400).collect::<String>()) } };
                    let path = write_replay(p.id, p.subs[si].name, &[], &f, "", json!({"seed":seed,"case":i,"random":true}));
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    println!("  sub={} case={} {}", p.subs[si].name, i, f.msg);
                    violations.push(f.msg);
                } else {
                    eprintln!("worker {k} failed without progress: {st} {err}");
                    infra = true;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&out);
    // evidence
    let evals: u64 = agg.values().map(|e| e.0).sum();
    let nt: usize = agg.values().map(|e| e.2.len()).sum();
    let mut subs = serde_json::Map::new();
    let mut samples = vec![];
    for (n, e) in &agg {
        subs.insert(n.clone(), json!({"evaluations":e.0,"nontrivial":e.1,"distinct_nontrivial":e.2.len(),"labels":e.3,"max_shard_secs":e.5}));
        samples.extend(e.4.iter().take(2).cloned());
    }
    let ev = json!({"property":p.id,"tier":tier,"seed":seed,"level":"exploration",
        "coverage":{"evaluations":evals,"distinct_nontrivial":nt,"rule":p.rule,"samples":samples,"subchecks":subs,
            "probes":p.probes.iter().map(|x|x.key).collect::<Vec<_>>(),"known_findings":known_printed},
        "assumptions":p.assumptions,"wall_s":t0.elapsed().as_secs_f64(),"violations":violations.len()});
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1}s", p.id, tier, evals, nt, violations.len(), t0.elapsed().as_secs_f64());
    if std::env::var("VERIF_VERBOSE").is_ok() {
        for (n, e) in &agg {
            println!("  {n}: {} evals, {} nontrivial, {:.1}s, {:?}", e.0, e.2.len(), e.5, e.3);
        }
    }
    if !violations.is_empty() {
        1
    } else if infra {
        2
    } else {
        0
    }
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("json");
    let p = props.iter().find(|p| v["property"] == p.id).expect("property");
    if let Some(k) = v["extra"]["probe"].as_str() {
        let pr = p.probes.iter().find(|x| x.key == k).expect("probe");
        return match guard(|| (pr.run)()).and_then(|r| r) {
            Ok(()) => 0,
            Err(f) => {
                println!("VIOLATION property={} replay={}\n  {}", p.id, file, f.msg);
                1
            }
        };
    }
    let sub = p.subs.iter().find(|s| v["sub"] == s.name).expect("sub");
    let scratch = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("TMPDIR", &scratch);
    let src = if v["extra"]["random"] == true {
        Src::random(case_seed(v["extra"]["seed"].as_u64().unwrap(), p.id, sub.name, v["extra"]["case"].as_u64().unwrap()))
    } else {
        Src::replay(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())
    };
    let o = run_case(sub, src, true, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    println!("case: {}", o.sample);
    match o.fail {
        Some(f) => {
            println!("VIOLATION property={} replay={}\n  {}", p.id, file, f.msg);
            1
        }
        None => {
            println!("no failure");
            0
        }
    }
}

/// Development aid: run cases without stopping, group failures by message shape.
pub fn scan(p: &Prop, n: u64, seed: u64) {
    install_hook();
    let scratch = std::env::temp_dir().join(format!("vh-scan-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("TMPDIR", &scratch);
    std::env::set_current_dir(&scratch).unwrap();
    let only = std::env::var("VERIF_SUB").ok();
    for sub in &p.subs {
        if only.as_deref().map_or(false, |o| o != sub.name) {
            continue;
        }
        let mut g: BTreeMap<String, (u64, Vec<u64>, String)> = BTreeMap::new();
        let t = Instant::now();
        let mut nt = 0;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        for i in 0..n {
            let o = run_case(sub, Src::random(case_seed(seed, p.id, sub.name, i)), false, &scratch);
            nt += o.nontrivial as u64;
            for l in o.labels {
                *labels.entry(l).or_default() += 1;
            }
            if let Some(f) = o.fail {
                let k: String = {
                    let mut k = String::new();
                    let mut q = false;
                    let m = f.msg.split(" at byte").next().unwrap();
                    for c in m.chars().take(400) {
                        if c == '"' {
                            q = !q;
                            k.push(c);
                        } else if q {
                        } else if c.is_ascii_digit() {
                            if !k.ends_with('#') {
                                k.push('#');
                            }
                        } else {
                            k.push(c);
                        }
                    }
                    k.chars().take(110).collect()
                };
                let e = g.entry(k).or_insert((0, o.rec.clone(), f.msg.clone()));
                e.0 += 1;
                if o.rec.len() < e.1.len() {
                    e.1 = o.rec;
                    e.2 = f.msg;
                }
            }
        }
        println!("== {} {}: {n} cases, {nt} nontrivial, {:.1}s, {:?}", p.id, sub.name, t.elapsed().as_secs_f64(), labels);
        let mut v: Vec<_> = g.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        println!("  {} failure classes", v.len());
        for (_, (cnt, rec, msg)) in v.into_iter().take(14) {
            println!("  [{cnt}x, {} choices] {}", rec.len(), msg.chars().take(330).collect::<String>());
            if std::env::var("VERIF_SHRINK").is_ok() {
                let (b, f, _) = shrink(sub, rec, &scratch, Duration::from_secs(5));
                let o = run_case(sub, Src::replay(b), true, &scratch);
                println!("     shrunk: {}\n{}", f.msg.chars().take(600).collect::<String>(), o.sample.chars().take(1500).collect::<String>());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
}
