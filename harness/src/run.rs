//! Check runner: worker processes, breadcrumbs, crash/hang attribution, evidence.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Viol {
    /// stable signature: what fails, without case numbering
    pub sig: String,
    pub detail: Value,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(sig: impl Into<String>, detail: Value) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), detail })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
}
pub struct Cx {
    pub seed: u64,
    pub tier: Tier,
    pub st: Stats,
    pub stage: &'static str,
    pub verbose: bool,
}
impl Cx {
    /// counts nothing that is kept
    pub fn quiet() -> Cx {
        Cx { seed: 0, tier: Tier::Quick, st: Stats::default(), stage: "", verbose: false }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(x) = self.st.counts.get_mut(k) {
                *x += n;
            } else {
                self.st.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.st.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// one evaluated case; `key` identifies it when it is non-trivial
    pub fn case<K: Hash>(&mut self, key: K, nontrivial: bool) {
        self.st.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.st.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.st.samples.len() < 3 {
            let v = f();
            let t = v.to_string();
            let v = if t.len() > 600 { json!(t.chars().take(600).collect::<String>()) } else { v };
            self.st.samples.push(v);
        }
    }
}

pub type CaseFn = fn(&mut Cx, u64, &mut crate::rng::Rng) -> Res;
pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// run all cases of the stage in one worker (histories, thread pools, measurements)
    pub solo: bool,
}
pub fn stage(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stage {
    Stage { name, quick, thorough, f, solo: false }
}
pub fn solo(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stage {
    Stage { name, quick, thorough, f, solo: true }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub stages: Vec<Stage>,
}
impl Stage {
    pub fn n(&self, t: Tier) -> u64 {
        let n = if t == Tier::Quick { self.quick } else { self.thorough };
        match std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<u64>().ok()) {
            Some(pct) if !self.solo => (n * pct / 100).max(1),
            _ => n,
        }
    }
}

// ------------------------------------------------------------------ calls into the code under test

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_SUT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    /// where the last panic outside of `sut` came from, if that was code under test
    static STRAY: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// the innermost frame that belongs to no library
fn own_frame() -> Option<String> {
    let b = std::backtrace::Backtrace::force_capture().to_string();
    let at = |l: &str| l.trim_start().strip_prefix("at ").map(str::to_string);
    // (the frames of this hook come first: skip to the panic machinery)
    let mut lines = b.lines().skip_while(|l| !l.contains("panicking"));
    lines.by_ref().find_map(|l| at(l).filter(|p| !["/rustc/", ".rustup", ".cargo", "/library/"].iter().any(|x| p.contains(x))))
}
/// one case; a panic of code under test that escaped from it is a violation too
fn case(s: &Stage, cx: &mut Cx, i: u64, r: &mut crate::rng::Rng) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (s.f)(cx, i, r))) {
        Ok(r) => r,
        Err(e) => match STRAY.with(|p| p.borrow_mut().take()) {
            Some(at) => viol(format!("panic at {}", at.rsplit_once("crates/").map_or(&*at, |x| x.1)), serde_json::json!({"panic": LAST_PANIC.with(|p| p.borrow_mut().take()), "at": at})),
            None => std::panic::resume_unwind(e),
        },
    }
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        if IN_SUT.with(|c| c.get()) == 0 {
            let at = own_frame().filter(|p| p.contains("crates/jsonpath_rfc9535"));
            STRAY.with(|p| *p.borrow_mut() = at);
            old(info);
        }
    }));
}
/// run code under test; a panic in it is an outcome, not a harness failure
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(c.get() - 1));
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        let mut m: String = m.replace('\n', " ");
        if m.len() > 400 {
            m = m.chars().take(400).collect();
        }
        m
    })
}

// ------------------------------------------------------------------ worker

/// memory-mapped breadcrumb: [stage, index, ticks]
struct Crumb(*mut u64);
impl Crumb {
    fn open(p: &Path) -> Crumb {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
        f.set_len(64).unwrap();
        unsafe {
            let m = libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
            assert!(m != libc::MAP_FAILED);
            Crumb(m as *mut u64)
        }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
}
unsafe impl Send for Crumb {}

pub fn case_rng(seed: u64, stage: &str, idx: u64) -> crate::rng::Rng {
    let mut h = 0xcbf29ce484222325u64;
    for b in stage.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    crate::rng::Rng::new(crate::rng::mix(seed ^ h).wrapping_add(crate::rng::mix(idx)))
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join()
}

/// worker: writes DIR/w<i>.json (result), DIR/w<i>.hash (distinct hashes)
pub fn worker(prop: Prop, seed: u64, tier: Tier, w: u64, nw: u64, dir: PathBuf, skip: BTreeSet<(usize, u64)>, from: (usize, u64)) -> i32 {
    limit_memory(12 << 30);
    let crumb = Crumb::open(&dir.join(format!("w{w}.crumb")));
    let keep = std::env::var("VH_KEEP").is_ok();
    let deadline = std::env::var("VH_DEADLINE_MS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX);
    let r = big_stack(move || {
        let t0 = Instant::now();
        let mut cx = Cx { seed, tier, st: Stats::default(), stage: "", verbose: false };
        let mut viols: Vec<Value> = vec![];
        let mut seen = HashSet::new();
        let known = known_sigs(prop.id);
        let mut known_hit = BTreeSet::new();
        let mut cut = vec![];
        'out: for (si, s) in prop.stages.iter().enumerate() {
            cx.stage = s.name;
            let n = s.n(tier);
            let (mut i, step) = if s.solo {
                // solo stages: case i goes whole to worker i mod nw
                ((si as u64 + nw - w) % nw, nw)
            } else {
                (w, nw)
            };
            let mut done = 0u64;
            while i < n {
                if (si, i) < from || skip.contains(&(si, i)) {
                    i += step;
                    continue;
                }
                if t0.elapsed().as_millis() as u64 > deadline {
                    cut.push(json!({"stage": s.name, "done": done}));
                    break;
                }
                crumb.set(0, si as u64);
                crumb.set(1, i);
                crumb.set(2, crumb.get(2) + 1);
                let mut rng = case_rng(seed, s.name, i);
                let c0 = Instant::now();
                let res = case(s, &mut cx, i, &mut rng);
                if c0.elapsed().as_millis() > 1500 && std::env::var("VH_VERBOSE").is_ok() {
                    eprintln!("slow case {} {}: {:?}", s.name, i, c0.elapsed());
                    let _ = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/vh-slow.txt")
                        .and_then(|mut f| writeln!(f, "{} {} {} {:?}", prop.id, s.name, i, c0.elapsed()));
                }
                if let Err(v) = res {
                    if known.contains(&v.sig) {
                        known_hit.insert(v.sig);
                    } else if seen.insert(v.sig.clone()) {
                        viols.push(json!({"sig": v.sig, "detail": v.detail, "stage": s.name, "index": i}));
                        if !keep || viols.len() > 60 {
                            break 'out;
                        }
                    }
                }
                done += 1;
                i += step;
            }
            cx.count(&format!("cases.{}", s.name), done);
        }
        crumb.set(3, 1);
        let mut hashes = Vec::with_capacity(cx.st.distinct.len() * 8);
        for h in &cx.st.distinct {
            hashes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(dir.join(format!("w{w}.{}.hash", std::process::id())), hashes).unwrap();
        let out = json!({
            "evaluations": cx.st.evaluations, "counts": cx.st.counts, "maxes": cx.st.maxes, "samples": cx.st.samples,
            "viols": viols, "known": known_hit, "cut": cut,
        });
        let tmp = dir.join(format!("w{w}.tmp"));
        std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
        std::fs::rename(&tmp, dir.join(format!("w{w}.{}.json", std::process::id()))).unwrap();
    });
    match r {
        Ok(()) => 0,
        Err(_) => 70, // harness panic
    }
}
fn limit_memory(bytes: u64) {
    if cfg!(vh_sanitize) || std::env::var("VH_NOLIMIT").is_ok() {
        return;
    }
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// run one case in isolation; exit 0 held, 1 violated (JSON on stdout), 70 harness failure
pub fn one(prop: Prop, seed: u64, tier: Tier, si: usize, idx: u64) -> i32 {
    limit_memory(12 << 30);
    let r = big_stack(move || {
        let s = &prop.stages[si];
        let mut cx = Cx { seed, tier, st: Stats::default(), stage: s.name, verbose: std::env::var("VH_VERBOSE").is_ok() };
        let mut rng = case_rng(seed, s.name, idx);
        match case(s, &mut cx, idx, &mut rng) {
            Ok(()) => 0,
            Err(v) => {
                println!("{}", json!({"sig": v.sig, "detail": v.detail}));
                1
            }
        }
    });
    r.unwrap_or(70)
}

// ------------------------------------------------------------------ known findings

pub fn verif_dir() -> PathBuf {
    std::env::var("VH_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn known_findings() -> Vec<Value> {
    let p = verif_dir().join("known_findings.json");
    match std::fs::read(&p) {
        Ok(b) => serde_json::from_slice::<Value>(&b).unwrap()["findings"].as_array().unwrap().clone(),
        Err(_) => vec![],
    }
}
pub fn known_sigs(id: &str) -> BTreeSet<String> {
    known_findings()
        .iter()
        .filter(|f| f["property"] == id && f["status"] == "known")
        .map(|f| f["signature"].as_str().unwrap().to_string())
        .collect()
}

// ------------------------------------------------------------------ parent

fn cpu_ms(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t * 10)
}
const HANG_CPU_MS: u64 = 20_000;
const HANG_CPU_ISOLATED_MS: u64 = 30_000;

struct W {
    child: Child,
    w: u64,
    crumb: Crumb,
    tick: u64,
    cpu_at_tick: u64,
}
enum End {
    Ok,
    Crash(String),
    Hang,
    Harness,
}

fn spawn(prop: &str, seed: u64, tier: Tier, w: u64, nw: u64, dir: &Path, skip: &BTreeSet<(usize, u64)>, from: (usize, u64), deadline_ms: u64) -> W {
    let crumb = Crumb::open(&dir.join(format!("w{w}.crumb")));
    let err = std::fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("w{w}.err"))).unwrap();
    let sk: Vec<String> = skip.iter().map(|(a, b)| format!("{a}:{b}")).collect();
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop, &seed.to_string(), tier_name(tier), &w.to_string(), &nw.to_string()])
        .arg(dir)
        .arg(sk.join(","))
        .arg(format!("{}:{}", from.0, from.1))
        .env("VH_DEADLINE_MS", deadline_ms.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap();
    let tick = crumb.get(2);
    W { child, w, crumb, tick, cpu_at_tick: 0 }
}
pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}
fn status_text(s: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(6) => "process aborted (SIGABRT: stack overflow, double panic, or out of memory)".into(),
        Some(11) => "process crashed (SIGSEGV: stack overflow or invalid memory access)".into(),
        Some(n) => format!("process killed by signal {n}"),
        None => format!("process exited with status {:?}", s.code()),
    }
}
/// isolated re-run of one case
fn confirm(prop: &str, seed: u64, tier: Tier, si: usize, idx: u64, dir: &Path) -> End {
    let err = std::fs::File::create(dir.join("confirm.err")).unwrap();
    let out = std::fs::File::create(dir.join("confirm.out")).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["one", prop, &seed.to_string(), tier_name(tier), &si.to_string(), &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err)
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return match s.code() {
                Some(0) | Some(1) => End::Ok,
                Some(70) => End::Harness,
                _ => End::Crash(status_text(s)),
            };
        }
        if cpu_ms(c.id()).unwrap_or(0) > HANG_CPU_ISOLATED_MS {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang;
        }
        if t0.elapsed() > Duration::from_secs(300) {
            let _ = c.kill();
            let _ = c.wait();
            return End::Harness;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub struct Outcome {
    pub exit: i32,
}

pub fn check(mk: impl Fn() -> Prop, seed: u64, tier: Tier, extra: impl FnOnce(&mut Map<String, Value>) -> Vec<Value>) -> i32 {
    let t0 = Instant::now();
    let prop = mk();
    let id = prop.id;
    let dir = std::env::temp_dir().join(format!("vh-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let nw: u64 = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let deadline_ms: u64 = std::env::var("VH_DEADLINE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240_000,
        Tier::Thorough => 3_000_000,
    });
    let mut ws: Vec<W> = (0..nw).map(|w| spawn(id, seed, tier, w, nw, &dir, &BTreeSet::new(), (0, 0), deadline_ms)).collect();
    let mut viols: Vec<Value> = vec![];
    let mut inconclusive: Vec<Value> = vec![];
    let mut skips: Vec<BTreeSet<(usize, u64)>> = vec![BTreeSet::new(); nw as usize];
    let known = known_sigs(id);
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut harness_err: Option<String> = None;
    let keep = std::env::var("VH_KEEP").is_ok();
    let mut done_workers: BTreeSet<u32> = BTreeSet::new();
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(25));
        let mut next = vec![];
        for mut w in std::mem::take(&mut ws) {
            let mut end = None;
            if let Some(s) = w.child.try_wait().unwrap() {
                end = Some(match s.code() {
                    Some(0) => End::Ok,
                    Some(70) => End::Harness,
                    _ => End::Crash(status_text(s)),
                });
            } else {
                let t = w.crumb.get(2);
                let cpu = cpu_ms(w.child.id()).unwrap_or(0);
                if t != w.tick {
                    w.tick = t;
                    w.cpu_at_tick = cpu;
                } else if cpu.saturating_sub(w.cpu_at_tick) > hang_limit(&prop, w.crumb.get(0) as usize) && w.crumb.get(3) == 0 {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    end = Some(End::Hang);
                }
            }
            match end {
                None => next.push(w),
                Some(End::Ok) => {
                    done_workers.insert(w.child.id());
                }
                Some(End::Harness) => {
                    harness_err = Some(tail(&dir.join(format!("w{}.err", w.w))));
                }
                Some(e) => {
                    let (si, idx) = (w.crumb.get(0) as usize, w.crumb.get(1));
                    let what = match &e {
                        End::Crash(s) => s.clone(),
                        _ => "no result: the call does not return".to_string(),
                    };
                    let again = confirm(id, seed, tier, si, idx, &dir);
                    match again {
                        End::Crash(_) | End::Hang => {
                            let kind = if matches!(again, End::Hang) { "hang" } else { "crash" };
                            let stage = prop.stages[si].name;
                            let sig = format!("{kind}|{stage}|{}", describe(id, stage, seed, idx));
                            if known.contains(&sig) {
                                known_hit.insert(sig);
                            } else {
                                viols.push(json!({"sig": sig, "stage": stage, "index": idx,
                                    "detail": {"what": what, "stderr": tail(&dir.join("confirm.err"))}}));
                            }
                        }
                        _ => inconclusive.push(json!({"stage": prop.stages[si].name, "index": idx, "what": what, "note": "not reproduced in isolation"})),
                    }
                    skips[w.w as usize].insert((si, idx));
                    if (viols.is_empty() || keep) && skips[w.w as usize].len() < 20 {
                        let from = (si, 0);
                        next.push(spawn(id, seed, tier, w.w, nw, &dir, &skips[w.w as usize], from, deadline_ms.saturating_sub(t0.elapsed().as_millis() as u64)));
                    }
                }
            }
        }
        ws = next;
        if (!viols.is_empty() && !keep) || harness_err.is_some() {
            for w in &mut ws {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            ws.clear();
        }
        // a worker that found a violation ends early: stop the others too
        if !keep && !ws.is_empty() && early_violation(&dir) {
            for w in &mut ws {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            ws.clear();
        }
    }
    // merge
    let mut evaluations = 0;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut cut = vec![];
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let p = e.path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.ends_with(".hash") {
            for c in std::fs::read(&p).unwrap().chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else if n.ends_with(".json") {
            let v: Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
            evaluations += v["evaluations"].as_u64().unwrap();
            for (k, n) in v["counts"].as_object().unwrap() {
                *counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for (k, n) in v["maxes"].as_object().unwrap() {
                let e = maxes.entry(k.clone()).or_insert(0);
                *e = (*e).max(n.as_u64().unwrap());
            }
            if samples.len() < 8 {
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            }
            viols.extend(v["viols"].as_array().unwrap().iter().cloned());
            known_hit.extend(v["known"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()));
            cut.extend(v["cut"].as_array().unwrap().iter().cloned());
        }
    }
    samples.truncate(8);
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(evaluations));
    cov.insert("distinct_nontrivial".into(), json!(distinct.len()));
    cov.insert("rule".into(), json!(prop.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("observed".into(), json!(counts));
    cov.insert("maxima".into(), json!(maxes));
    cov.insert("workers".into(), json!(nw));
    if !cut.is_empty() {
        cov.insert("stopped_by_time_cap".into(), json!(cut));
    }
    if !inconclusive.is_empty() {
        cov.insert("inconclusive".into(), json!(inconclusive));
    }
    if viols.is_empty() && harness_err.is_none() {
        viols.extend(extra(&mut cov));
    }
    // write evidence
    let ev = json!({
        "property": id, "tier": tier_name(tier), "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": viols.len(),
    });
    let evp = verif_dir().join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(evp.parent().unwrap()).unwrap();
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    for f in known_findings() {
        if f["property"] == id && f["status"] == "known" && known_hit.contains(f["signature"].as_str().unwrap()) {
            println!("KNOWN-FINDING: property={id} {}", f["what"].as_str().unwrap_or(""));
        }
    }
    let code = if !viols.is_empty() {
        let rd = verif_dir().join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        let mut seen = HashSet::new();
        for (k, v) in viols.iter().enumerate() {
            if !seen.insert(v["sig"].to_string()) {
                continue;
            }
            if seen.len() > if keep { 80 } else { 5 } {
                break;
            }
            let rp = rd.join(format!("{id}-{seed}-{k}.json"));
            let mut o = v.as_object().unwrap().clone();
            o.insert("property".into(), json!(id));
            o.insert("seed".into(), json!(seed));
            o.insert("tier".into(), json!(tier_name(tier)));
            o.insert("replay_cmd".into(), json!(format!("/verif/run.sh replay {}", rp.display())));
            std::fs::write(&rp, serde_json::to_string_pretty(&o).unwrap()).unwrap();
            println!("VIOLATION property={id} replay={}", rp.display());
            let d = v["detail"].to_string();
            println!("  what: {}", v["sig"].as_str().unwrap_or(""));
            println!("  detail: {}", d.chars().take(1500).collect::<String>());
        }
        1
    } else if let Some(e) = harness_err {
        eprintln!("harness error: {e}");
        2
    } else if evaluations == 0 {
        eprintln!("nothing was observed");
        2
    } else {
        0
    };
    if std::env::var("VH_KEEPDIR").is_err() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    eprintln!(
        "{id} {}: {} evaluations, {} distinct non-trivial, {:.1} s, exit {code}",
        tier_name(tier),
        evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}
fn hang_limit(p: &Prop, si: usize) -> u64 {
    if p.stages.get(si).is_some_and(|s| s.solo) {
        HANG_CPU_MS * 30
    } else {
        HANG_CPU_MS
    }
}
fn early_violation(dir: &Path) -> bool {
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let p = e.path();
        if p.extension().is_some_and(|x| x == "json") {
            if let Ok(b) = std::fs::read(&p) {
                if let Ok(v) = serde_json::from_slice::<Value>(&b) {
                    if v["viols"].as_array().is_some_and(|a| !a.is_empty()) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
fn tail(p: &Path) -> String {
    let t = String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let n = t.chars().count();
    t.chars().skip(n.saturating_sub(1500)).collect()
}
fn describe(_id: &str, _stage: &str, _seed: u64, idx: u64) -> String {
    format!("case {idx}")
}
pub fn flush() {
    let _ = std::io::stdout().flush();
}
