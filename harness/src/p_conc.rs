//! C16: concurrent use. A process of its own starts threads at a barrier before anything else was
//! parsed or evaluated in it; every result is compared with the fresh-process baseline of C15.
use crate::adapt::{self, Cr, Parsed, EVAL};
use crate::custom::{self, Body};
use crate::entry::{self, positions, show, show_parse, Envs};
use crate::p_hist::{self, World};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C16" => Prop {
            id: "C16",
            rule: "8 threads started together in a new process (cold start included) parse and evaluate a shared pool of queries, patterns and documents through shared environments, compiled queries and parsers, with registered functions that yield, sleep, meet another thread inside a call, evaluate again, or panic on one thread; 40 threads push more patterns than the caches hold while signals stop them at arbitrary instructions; each result is compared with the result of the operation alone in a process; a watchdog reports calls that do not return; the event log gives overlaps and distinct interleavings; the same program runs under ThreadSanitizer; non-trivial: an operation that overlapped another thread's",
            assumptions: &["data races are judged by ThreadSanitizer on the interleavings that occur"],
            stages: vec![solo("threads", 200, 4_000, threads), solo("pressure", 32, 400, pressure)],
        },
        _ => return None,
    })
}
const THREADS: usize = 8;
/// a call that takes this long (it normally takes milliseconds) will not return
const STUCK_S: u64 = 60;

struct Shared {
    w: World,
    base: Vec<String>,
    envs: Envs,
    /// environments with the functions of this module
    custom: Envs,
    compiled: HashMap<(Cr, usize), Result<Parsed, adapt::PErr>>,
    parsers: Vec<(Cr, adapt::Parser)>,
    hooks: Vec<(Cr, Vec<Option<Parsed>>)>,
    hook_doc: Value,
}
// compiled queries, parsers and environments are shared by reference: the compiler checks that they are Sync

/// log of operations: bit 63 end, thread in the low bits
struct Log {
    next: AtomicU64,
    at: Vec<AtomicU32>,
}
impl Log {
    fn put(&self, t: usize, end: bool) -> u64 {
        let k = self.next.fetch_add(1, SeqCst);
        if let Some(a) = self.at.get(k as usize) {
            a.store(1 + t as u32 * 2 + end as u32, Relaxed);
        }
        k
    }
}

/// functions registered for this check
const HOOKS: &[&str] = &[
    "$[?slow(@.a) == 1]",
    "$[?meet(@.a) == 1]",
    "$[?again(@.a) == 1]",
    "$[?match(@.b, 'a.*') && slow(@.a) == 1]",
    "$[?boom(@.a) == 1]",
    "$[?match(bang(@.b), 'x')]",
    "$[?search(@.b, bang(@.b))]",
];
static WAITING: Mutex<u64> = Mutex::new(0);
static MET: AtomicU64 = AtomicU64::new(0);
static SHAKE: AtomicU64 = AtomicU64::new(1);
fn hook_body(c: Cr) -> Arc<Body> {
    Arc::new(move |name: &str, args: &[custom::NArg]| {
        let one = custom::NRet::Int(1);
        match name {
            "slow" => {
                let x = SHAKE.fetch_add(0x9E3779B97F4A7C15, Relaxed) >> 40;
                if x % 3 == 0 {
                    std::thread::sleep(Duration::from_micros(x % 200));
                } else {
                    std::thread::yield_now();
                }
                one
            }
            "meet" => {
                // stay inside this call until another thread is inside one too (or gives up soon)
                let me = {
                    let mut w = WAITING.lock().unwrap_or_else(|e| e.into_inner());
                    *w += 1;
                    *w
                };
                let t0 = Instant::now();
                while t0.elapsed() < Duration::from_millis(2) {
                    if *WAITING.lock().unwrap_or_else(|e| e.into_inner()) > me {
                        MET.fetch_add(1, Relaxed);
                        break;
                    }
                    std::thread::yield_now();
                }
                one
            }
            "again" => {
                // a registered function that uses the library itself, patterns and all
                let d = json!([{"a": "aab"}, {"a": "b"}]);
                let n = adapt::find(c, "$[?match(@.a,'a+b') || search(@.a,'^x')]", &d).map(|v| v.len());
                let bad = adapt::find(c, "$[?", &d).is_err();
                custom::NRet::Int(if n == Ok(1) && bad { 1 } else { 0 })
            }
            "boom" => panic!("injected fault"),
            "bang" => {
                if args.iter().any(|a| matches!(a, custom::NArg::Str(s) if s == "ab")) {
                    panic!("injected fault")
                }
                custom::NRet::Str("x".into())
            }
            _ => custom::NRet::Nothing,
        }
    })
}
fn hook_sigs() -> Vec<(String, crate::model::Sig)> {
    use crate::model::Ty::*;
    ["slow", "meet", "again", "boom", "bang"].iter().map(|n| (n.to_string(), (vec![Value], Value))).collect()
}
/// what a hook query returns for `hook_doc`
fn hook_expected(k: usize) -> &'static str {
    match k {
        0..=2 => "3 nodes #1@$[0] #4@$[1] #7@$[2]",
        3 => "2 nodes #1@$[0] #7@$[2]",
        _ => "panic injected fault",
    }
}

/// subcommand: the multi-threaded program. Prints one JSON line.
pub fn program(seed: u64, idx: u64, scale: u64) -> i32 {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let base: Vec<String> = serde_json::from_str(&text).unwrap();
    let mut r = case_rng(seed, "threads program", idx);
    let w = p_hist::world_of("threads", seed, idx);
    assert_eq!(w.ops.len(), base.len());
    let envs = Envs::new();
    let sigs = hook_sigs();
    let custom = custom::envs(&sigs, &hook_body);
    // with `cold`, nothing of the crates has run when the threads start
    let cold = r.pct(50);
    let mut sh = Shared { w, base, envs, custom, compiled: HashMap::new(), parsers: vec![], hooks: vec![], hook_doc: json!([{"a": 1, "b": "a"}, {"a": 2, "b": "bb"}, {"a": 3, "b": "ab"}]) };
    if !cold {
        for op in &sh.w.ops {
            if op.2.is_some() {
                sh.compiled.entry((op.0, op.1)).or_insert_with(|| adapt::standard(op.0, &sh.w.queries[op.1]));
            }
        }
        for c in adapt::ALL {
            sh.parsers.push((c, adapt::parser(c)));
        }
        for c in EVAL {
            let mut p = adapt::parser(c);
            for (n, s) in &sigs {
                p.add(n, s);
            }
            sh.hooks.push((c, HOOKS.iter().map(|t| p.parse(t).ok()).collect()));
        }
    }
    let n = (if cold { 60 } else { 250 } * scale / 100).max(10) as usize;
    // scripts: often the same operations on all threads at the same time
    let common: Vec<usize> = (0..n).map(|_| r.below(sh.w.ops.len())).collect();
    let lockstep = r.pct(60);
    let same_op = r.below(sh.w.ops.len());
    let seeds: Vec<u64> = (0..THREADS).map(|_| r.next()).collect();
    let log = Log { next: AtomicU64::new(0), at: (0..(n * THREADS * 2 + 64)).map(|_| AtomicU32::new(0)).collect() };
    let bad: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let started: Vec<AtomicU64> = (0..THREADS).map(|_| AtomicU64::new(0)).collect();
    let doing: Vec<AtomicU64> = (0..THREADS).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let barrier = Barrier::new(THREADS);
    let t0 = Instant::now();
    let (faults, hooks_ok, overlapped) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    // stop threads at arbitrary instructions (the sanitizers defer signals, so not there)
    let stalls = cfg!(not(vh_sanitize)) && r.pct(35);
    let (ids, finished, stall_done, stall_seed): (Vec<AtomicU64>, AtomicU64, AtomicBool, u64) = ((0..THREADS).map(|_| AtomicU64::new(0)).collect(), AtomicU64::new(0), AtomicBool::new(!stalls), r.next());
    let panicking = if r.pct(60) { r.below(THREADS) } else { usize::MAX };
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for t in 0..THREADS {
                    let st = started[t].load(Relaxed);
                    if st > 0 && now.saturating_sub(st) > STUCK_S * 1000 {
                        let k = doing[t].load(Relaxed);
                        println!("{}", json!({"bad": [{"sig": "a call does not return", "detail": {"thread": t, "operation": describe(&sh, k), "seconds": STUCK_S}}]}));
                        flush();
                        std::process::exit(0);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let (sh, log, bad, started, doing, barrier, common, seeds) = (&sh, &log, &bad, &started, &doing, &barrier, &common, &seeds);
                let (faults, hooks_ok, overlapped) = (&faults, &hooks_ok, &overlapped);
                let (ids, finished, stall_done) = (&ids, &finished, &stall_done);
                s.spawn(move || {
                    let mut r = Rng::new(seeds[t]);
                    ids[t].store(unsafe { libc::pthread_self() } as u64, Relaxed);
                    let _ending = Ending(finished);
                    barrier.wait();
                    for j in 0..n {
                        let k = if j == 0 { same_op } else if lockstep && r.pct(70) { common[j] } else { r.below(sh.w.ops.len()) };
                        let hook = !sh.hooks.is_empty() && r.pct(if t == panicking { 50 } else { 12 });
                        let h = if t == panicking { r.below(HOOKS.len()) } else { r.below(4) };
                        let code = if hook { 1_000_000 + h as u64 } else { k as u64 };
                        doing[t].store(code, Relaxed);
                        started[t].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                        let a = log.put(t, false);
                        let (got, want, name) = if hook {
                            let (c, qs) = &sh.hooks[r.below(sh.hooks.len())];
                            let pos = positions(&sh.hook_doc);
                            let g = match &qs[h] {
                                Some(q) => sut(|| show(&entry::run(q, &sh.hook_doc, &sh.custom), &pos)).unwrap_or_else(|p| format!("panic {}", p.split(" at ").next().unwrap_or(""))),
                                None => hook_expected(h).to_string(),
                            };
                            if g.starts_with("panic injected") {
                                faults.fetch_add(1, Relaxed);
                            } else {
                                hooks_ok.fetch_add(1, Relaxed);
                            }
                            (g, hook_expected(h).to_string(), format!("{}: {}", c.name(), HOOKS[h]))
                        } else {
                            let op = sh.w.ops[k];
                            let (g, way) = perform(sh, op, r.below(5));
                            (g, sh.base[k].clone(), format!("{} ({way}): {}", op.0.name(), clip(&sh.w.queries[op.1], 150)))
                        };
                        let b = log.put(t, true);
                        started[t].store(0, Relaxed);
                        if b > a + 1 {
                            overlapped.fetch_add(1, Relaxed);
                        }
                        if got != want {
                            let mut v = bad.lock().unwrap();
                            if v.len() < 3 {
                                v.push(json!({"sig": format!("{name} differs under concurrency"), "detail": {"thread": t, "step": j, "alone": clip(&want, 1200), "concurrent": clip(&got, 1200)}}));
                            }
                        }
                    }
                    drop(_ending);
                    // alive until nobody sends signals any more
                    while !stall_done.load(Relaxed) {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                })
            })
            .collect();
        if stalls {
            let over = AtomicBool::new(false);
            std::thread::scope(|s| {
                s.spawn(|| stall(&ids, &over, stall_seed));
                while finished.load(Relaxed) < THREADS as u64 {
                    std::thread::sleep(Duration::from_millis(1));
                }
                over.store(true, Relaxed);
            });
            stall_done.store(true, Relaxed);
        }
        for h in hs {
            if h.join().is_err() {
                bad.lock().unwrap().push(json!({"sig": "a thread panicked outside the calls", "detail": {}}));
            }
        }
        done.store(true, Relaxed);
    });
    // after the threads (one of which may have panicked inside calls): everything still works
    let mut after = 0;
    if r.pct(50) {
        for (k, op) in sh.w.ops.iter().enumerate().take(60) {
            let (g, way) = perform(&sh, *op, 0);
            after += 1;
            if g != sh.base[k] {
                bad.lock().unwrap().push(json!({"sig": format!("{} ({way}): {} differs after concurrent use", op.0.name(), clip(&sh.w.queries[op.1], 150)), "detail": {"alone": clip(&sh.base[k], 1200), "after": clip(&g, 1200)}}));
                break;
            }
        }
    }
    // the observed interleaving
    let ev: Vec<u32> = log.at.iter().map(|a| a.load(Relaxed)).take_while(|x| *x != 0).collect();
    let mut open: u32 = 0;
    let mut max_open = 0;
    let mut switches = 0;
    for (i, e) in ev.iter().enumerate() {
        if (e - 1) % 2 == 0 {
            open += 1;
        } else {
            open -= 1;
        }
        max_open = max_open.max(open);
        if i > 0 && (ev[i - 1] - 1) / 2 != (e - 1) / 2 {
            switches += 1;
        }
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(&ev, &mut h);
    println!(
        "{}",
        json!({
            "bad": *bad.lock().unwrap(), "operations": n * THREADS, "overlapped": overlapped.load(Relaxed), "max_open": max_open, "switches": switches,
            "interleaving": format!("{:x}", std::hash::Hasher::finish(&h)), "cold": cold, "faults": faults.load(Relaxed), "hooks": hooks_ok.load(Relaxed),
            "stalls": STALLS.load(Relaxed), "met": MET.load(Relaxed), "after": after, "events": ev.len(),
        })
    );
    0
}
fn describe(sh: &Shared, k: u64) -> String {
    if k >= 1_000_000 {
        HOOKS[(k - 1_000_000) as usize].to_string()
    } else {
        let op = sh.w.ops[k as usize];
        format!("{}: {}", op.0.name(), sh.w.queries[op.1])
    }
}
fn perform(sh: &Shared, op: (Cr, usize, Option<usize>), way: usize) -> (String, &'static str) {
    let (c, qk, dk) = op;
    let t = &sh.w.queries[qk];
    let f = |r: Result<String, String>| r.unwrap_or_else(|p| format!("panic {p}"));
    match dk {
        None => match (way, sh.parsers.iter().find(|p| p.0 == c)) {
            (1 | 2, Some((_, p))) => (f(sut(|| show_parse(&p.parse(t)))), "shared parser"),
            _ => (f(sut(|| show_parse(&adapt::standard(c, t)))), "Query::standard"),
        },
        Some(d) => {
            let doc = &sh.w.docs[d];
            let pos = positions(doc);
            match (way, sh.compiled.get(&(c, qk))) {
                (1 | 2, Some(Ok(q))) => (f(sut(|| show(&entry::run_by(q, c, t, doc, &sh.envs), &pos))), "shared compiled query"),
                (3, _) => (f(sut(|| show(&entry::env_find_by(c, t, doc, &sh.envs), &pos))), "shared environment"),
                _ => (f(sut(|| show(&entry::find_by(c, t, doc), &pos))), "find"),
            }
        }
    }
}

struct Ending<'a>(&'a AtomicU64);
impl Drop for Ending<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, Relaxed);
    }
}
// ------------------------------------------------------------------ stalls at arbitrary points

static STALL_NS: AtomicU64 = AtomicU64::new(0);
static STALL_MAX: AtomicU64 = AtomicU64::new(1);
static STALLS: AtomicU64 = AtomicU64::new(0);
extern "C" fn on_stall(_: libc::c_int) {
    // only async-signal-safe work: sleep for a while wherever the thread happens to be
    unsafe {
        let errno = *libc::__errno_location();
        let n = STALL_NS.fetch_add(0x9E3779B97F4A7C15, Relaxed);
        let ts = libc::timespec { tv_sec: 0, tv_nsec: (30_000 + (n >> 40) % STALL_MAX.load(Relaxed)) as i64 };
        libc::nanosleep(&ts, std::ptr::null_mut());
        STALLS.fetch_add(1, Relaxed);
        *libc::__errno_location() = errno;
    }
}
/// Stops random threads of `ids` for up to 2.5 ms at whatever instruction they are, until `done`.
/// The threads stay alive until this returns.
fn stall(ids: &[AtomicU64], done: &AtomicBool, seed: u64) {
    let mut r = Rng::new(seed);
    let every_us = *r.pick(&[20u64, 40, 80, 200, 400]);
    STALL_MAX.store(*r.pick(&[300_000u64, 900_000, 2_500_000]), Relaxed);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_stall as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    while !done.load(Relaxed) {
        let id = ids[r.below(ids.len())].load(Relaxed);
        if id != 0 {
            unsafe { libc::pthread_kill(id as libc::pthread_t, libc::SIGUSR1) };
        }
        let t = Instant::now();
        while (t.elapsed().as_micros() as u64) < every_us {
            if every_us > 60 {
                std::thread::sleep(Duration::from_micros(every_us / 2));
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

const CROWD: usize = 40;
/// subcommand: many threads keep pushing patterns through the same caches while threads are
/// stopped at random points for longer than the others need to turn a cache over
pub fn pressure_program(seed: u64, idx: u64, ms: u64) -> i32 {
    let mut r = case_rng(seed, "pressure", idx);
    let c = EVAL[idx as usize % 4];
    let own_env = r.pct(70);
    let envs = Envs::new();
    // strings s0..s7; pattern k selects string k % 8 only
    let doc = Value::Array((0..8).map(|j| json!(format!("s{j}"))).collect());
    let funcs: &[&str] = match r.below(4) {
        0 => &["match"],
        1 | 2 => &["search"],
        _ => &["match", "search"],
    };
    let per = 4 + r.below(40);
    let shared = if r.pct(50) { r.below(30) } else { 0 };
    let invalid = if r.pct(40) { 10 } else { 0 };
    let text = |f: &str, k: usize, bad: bool| {
        let p = if bad { format!("s{}|(t{k}", k % 8) } else { format!("s{}|t{k}", k % 8) };
        (format!("$[?{f}(@, '{p}')]"), if bad { "0 nodes".to_string() } else { format!("1 nodes #{}@$[{}]", 1 + k % 8, k % 8) })
    };
    let mine: Vec<Vec<(String, String, Option<Parsed>)>> = (0..CROWD)
        .map(|t| {
            (0..per + shared)
                .map(|k| {
                    let id = if k < shared { k } else { 1000 * (t + 1) + k };
                    let (q, want) = text(r.pick(funcs), id, r.pct(invalid));
                    let p = if own_env { adapt::standard(c, &q).ok() } else { None };
                    (q, want, p)
                })
                .collect()
        })
        .collect();
    let (seeds, sseed): (Vec<u64>, u64) = ((0..CROWD).map(|_| r.next()).collect(), r.next());
    let ids: Vec<AtomicU64> = (0..CROWD).map(|_| AtomicU64::new(0)).collect();
    let started: Vec<AtomicU64> = (0..CROWD).map(|_| AtomicU64::new(0)).collect();
    let (stop, done) = (AtomicBool::new(false), AtomicBool::new(false));
    let ops = AtomicU64::new(0);
    let bad: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let (go, end) = (Barrier::new(CROWD + 1), Barrier::new(CROWD + 1));
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for t in 0..CROWD {
            let (mine, seeds, ids, started, stop, ops, bad, go, end) = (&mine, &seeds, &ids, &started, &stop, &ops, &bad, &go, &end);
            let (doc, envs) = (&doc, &envs);
            s.spawn(move || {
                let mut r = Rng::new(seeds[t]);
                ids[t].store(unsafe { libc::pthread_self() } as u64, Relaxed);
                let pos = &positions(doc);
                let seq = r.pct(70);
                let mut k = r.below(mine[t].len());
                go.wait();
                let mut n = 0;
                while !stop.load(Relaxed) {
                    k = if seq { (k + 1) % mine[t].len() } else { r.below(mine[t].len()) };
                    let (q, want, p) = &mine[t][k];
                    started[t].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                    let got = sut(|| match p {
                        Some(p) => show(&entry::run_by(p, c, q, doc, envs), pos),
                        None => show(&entry::find_by(c, q, doc), pos),
                    })
                    .unwrap_or_else(|p| format!("panic {p}"));
                    started[t].store(0, Relaxed);
                    n += 1;
                    if got != *want {
                        let mut v = bad.lock().unwrap();
                        if v.len() < 3 {
                            v.push(json!({"sig": format!("{}: {q} differs under concurrency and pressure on the pattern cache", c.name()), "detail": {"thread": t, "call": n, "alone": want, "concurrent": clip(&got, 1200)}}));
                        }
                        stop.store(true, Relaxed);
                    }
                }
                ops.fetch_add(n, Relaxed);
                end.wait();
            });
        }
        let st = s.spawn(|| stall(&ids, &done, sseed));
        go.wait();
        let mut late = 0;
        while !stop.load(Relaxed) && (t0.elapsed().as_millis() as u64) < ms {
            std::thread::sleep(Duration::from_millis(20));
        }
        stop.store(true, Relaxed);
        done.store(true, Relaxed);
        st.join().unwrap();
        // everything in flight has to come back
        loop {
            let now = t0.elapsed().as_millis() as u64;
            let stuck = started.iter().any(|a| {
                let x = a.load(Relaxed);
                x > 0 && now.saturating_sub(x) > STUCK_S * 1000
            });
            if stuck {
                println!("{}", json!({"bad": [{"sig": format!("{}: a call does not return under pressure", c.name()), "detail": {"seconds": STUCK_S}}]}));
                flush();
                std::process::exit(0);
            }
            if started.iter().all(|a| a.load(Relaxed) == 0) {
                late += 1;
                if late > 2 {
                    break;
                }
            } else {
                late = 0;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        end.wait();
    });
    println!("{}", json!({"bad": *bad.lock().unwrap(), "operations": ops.load(Relaxed), "stalls": STALLS.load(Relaxed), "patterns": CROWD * per + shared, "crate": c.name(), "own environment": own_env}));
    0
}

// ------------------------------------------------------------------ parent side

fn pressure(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let exe = std::env::current_exe().unwrap();
    let ms = if cx.tier == Tier::Quick { 2_000 } else { 8_000 };
    let (out, err, status) = launch_as("pressure", &exe, cx.seed, i, ms, "", &[]);
    let Ok(v) = serde_json::from_str::<Value>(out.trim()) else {
        return viol(format!("pressure: the process died ({status})"), json!({"status": status, "stderr": clip(&err, 2000)}));
    };
    if let Some(b) = v["bad"].as_array().and_then(|b| b.first()) {
        return viol(b["sig"].as_str().unwrap_or("").to_string(), b["detail"].clone());
    }
    let n = v["operations"].as_u64().unwrap();
    cx.count("operations under cache pressure", n);
    cx.count("threads stopped at an arbitrary instruction", v["stalls"].as_u64().unwrap());
    cx.max("patterns competing for one cache", v["patterns"].as_u64().unwrap());
    cx.case(("pressure", i), v["stalls"].as_u64().unwrap() > 0);
    cx.st.evaluations += n.max(1) - 1;
    cx.sample(|| v.clone());
    Ok(())
}

fn threads(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let base = p_hist::baseline("threads", cx.seed, i);
    let text = serde_json::to_string(&base).unwrap();
    let exe = std::env::current_exe().unwrap();
    let (out, err, status) = launch(&exe, cx.seed, i, 100, &text, &[]);
    let Ok(v) = serde_json::from_str::<Value>(out.trim()) else {
        return viol(
            format!("threads: the process died ({status})"),
            json!({"status": status, "stderr": clip(&err, 2000)}),
        );
    };
    if let Some(b) = v["bad"].as_array().and_then(|b| b.first()) {
        return viol(b["sig"].as_str().unwrap_or("").to_string(), b["detail"].clone());
    }
    let n = v["operations"].as_u64().unwrap();
    cx.count("operations", n);
    cx.count("operations overlapping another thread's", v["overlapped"].as_u64().unwrap());
    cx.count("thread switches in event logs", v["switches"].as_u64().unwrap());
    cx.count("calls of delaying or re-entrant functions", v["hooks"].as_u64().unwrap());
    cx.count("injected panics survived", v["faults"].as_u64().unwrap());
    cx.count("threads stopped at an arbitrary instruction", v["stalls"].as_u64().unwrap());
    cx.count("meetings inside calls", v["met"].as_u64().unwrap());
    cx.count("calls checked after the threads ended", v["after"].as_u64().unwrap());
    cx.count(if v["cold"] == true { "cold starts" } else { "warm starts" }, 1);
    cx.max("threads inside calls at once", v["max_open"].as_u64().unwrap());
    cx.case(v["interleaving"].to_string(), v["overlapped"].as_u64().unwrap() > 0);
    cx.st.evaluations += n - 1;
    cx.sample(|| v.clone());
    Ok(())
}
fn launch(exe: &std::path::Path, seed: u64, idx: u64, scale: u64, stdin: &str, env: &[(&str, &str)]) -> (String, String, String) {
    launch_as("threads", exe, seed, idx, scale, stdin, env)
}
fn launch_as(what: &str, exe: &std::path::Path, seed: u64, idx: u64, scale: u64, stdin: &str, env: &[(&str, &str)]) -> (String, String, String) {
    let mut c = Command::new(exe);
    c.args([what, &seed.to_string(), &idx.to_string(), &scale.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut ch = c.spawn().unwrap();
    let mut si = ch.stdin.take().unwrap();
    let text = stdin.to_string();
    let h = std::thread::spawn(move || {
        let _ = std::io::Write::write_all(&mut si, text.as_bytes());
    });
    let o = ch.wait_with_output().unwrap();
    let _ = h.join();
    (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string(), format!("{}", o.status))
}

/// build with a sanitizer; Err only when the tool itself is unavailable or the build breaks
pub fn sanitized(kind: &str) -> Result<std::path::PathBuf, String> {
    // target/debug/vh
    let h = std::env::current_exe().unwrap().ancestors().nth(3).unwrap().to_path_buf();
    let target = h.join("target").join(format!("san-{kind}"));
    let o = Command::new("cargo")
        .args(["+nightly", "build", "--offline", "--release", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"])
        .current_dir(&h)
        .env("RUSTFLAGS", format!("-Zsanitizer={kind} --cfg vh_sanitize -Cdebug-assertions=on -Coverflow-checks=on -Cdebuginfo=line-tables-only"))
        .env("CARGO_TARGET_DIR", &target)
        .env_remove("RUSTUP_TOOLCHAIN")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(clip(&String::from_utf8_lossy(&o.stderr), 3000));
    }
    Ok(target.join("x86_64-unknown-linux-gnu/release/vh"))
}
/// the same program under ThreadSanitizer
pub fn tsan(cov: &mut Map<String, Value>, seed: u64, tier: Tier) -> Vec<Value> {
    let exe = match sanitized("thread") {
        Ok(p) => p,
        Err(e) => {
            eprintln!("ThreadSanitizer build failed, going without: {e}");
            cov.insert("thread_sanitizer".into(), json!("not available: build failed"));
            return vec![];
        }
    };
    let runs: u64 = if tier == Tier::Quick { 40 } else { 800 };
    let next = AtomicU64::new(0);
    let res: Mutex<(Vec<Value>, u64, u64)> = Mutex::new((vec![], 0, 0));
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= runs || !res.lock().unwrap().0.is_empty() {
                    break;
                }
                let idx = 10_000 + k;
                let base = p_hist::baseline("threads", seed, idx);
                let (out, err, status) = launch(&exe, seed, idx, 60, &serde_json::to_string(&base).unwrap(), &[("TSAN_OPTIONS", "halt_on_error=0:exitcode=0:report_signal_unsafe=0")]);
                let mut g = res.lock().unwrap();
                if let Some(p) = err.find("WARNING: ThreadSanitizer") {
                    let what = err[p..].lines().next().unwrap_or("").split(" (pid").next().unwrap_or("").to_string();
                    let site = err[p..].lines().find(|l| l.contains("jsonpath_rfc9535")).unwrap_or("").trim().to_string();
                    g.0.push(json!({"sig": format!("{what} {}", clip(&site, 160)), "stage": "ThreadSanitizer", "index": idx, "detail": {"report": clip(&err[p..], 4000)}}));
                    continue;
                }
                match serde_json::from_str::<Value>(out.trim()) {
                    Ok(v) => {
                        if let Some(b) = v["bad"].as_array().and_then(|b| b.first()) {
                            g.0.push(json!({"sig": format!("under ThreadSanitizer: {}", b["sig"].as_str().unwrap_or("")), "stage": "ThreadSanitizer", "index": idx, "detail": b["detail"]}));
                        }
                        g.1 += v["operations"].as_u64().unwrap_or(0);
                        g.2 += v["overlapped"].as_u64().unwrap_or(0);
                    }
                    Err(_) => g.0.push(json!({"sig": format!("under ThreadSanitizer: the process died ({status})"), "stage": "ThreadSanitizer", "index": idx, "detail": {"stderr": clip(&err, 3000)}})),
                }
            });
        }
    });
    let (v, ops, over) = res.into_inner().unwrap();
    cov.insert("thread_sanitizer".into(), json!({"runs": runs, "operations": ops, "overlapping": over, "reports": v.len()}));
    v
}
