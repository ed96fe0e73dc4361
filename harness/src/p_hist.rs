//! C15: results do not depend on history. The expected result of an operation is what it gives
//! as the only operation of a process: a pristine child forks once per operation.
use crate::adapt::{self, Cr, Parsed, ALL, EVAL};
use crate::entry::{self, positions, show, show_parse, Envs};
use crate::gen;
use crate::p_parse::{gen_edited, gen_valid};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C15" => Prop {
            id: "C15",
            rule: "histories of thousands of parses and evaluations over a pool of queries (valid, invalid, ill-typed, near-identical texts, up to 400 patterns) and documents (also rewritten in place at one address); each operation's rendered result is compared with what it gives as the only operation of a fresh process; documents are also changed in place between evaluations, node by node, and each result judged by the reference evaluator; soak runs repeat two operations past 70,000 calls; non-trivial: an operation that follows a different one",
            assumptions: &["rendered results: syntax tree and printed form, or error kind, span and text, or positions and locations of all nodes"],
            stages: vec![
                solo("histories", 200, 6_000, history),
                stage("documents changed in place", 1_200, 40_000, in_place),
                solo("soak", SOAK as u64, SOAK as u64 * 3, soak),
            ],
        },
        _ => return None,
    })
}

/// what operations are made of
pub struct World {
    pub queries: Vec<String>,
    pub docs: Vec<Value>,
    /// operations whose result is known: (crate, query, document); no document means parsing
    pub ops: Vec<(Cr, usize, Option<usize>)>,
    pub patterns: usize,
}
fn pattern(r: &mut Rng, k: usize) -> String {
    // families that agree on long prefixes, suffixes, lengths or letters
    match r.below(9) {
        0 => format!("{}{}", "a".repeat(1 + k % 90), if r.pct(50) { "b" } else { "" }),
        1 => format!("common-prefix-that-is-rather-long-and-always-the-same-{}", k % 200),
        2 => format!("{}-same-suffix", k % 200),
        3 => format!("[a-{}]+", (b'b' + (k % 24) as u8) as char),
        4 => format!("a{{{}}}", k % 40),
        5 => format!("({}|{})", (b'a' + (k % 26) as u8) as char, (b'a' + (k / 26 % 26) as u8) as char),
        6 => ["A", "a", "B", "b", ".", "..", "a.", ".a", "a*", "a+", "a?", "[ab]", "[^a]", "\\\\.", ".*", ""][k % 16].to_string(),
        7 => ["(", "[", "a**", "a{", "\\\\d", "(?i)a", "a{2,1}", "^a", "a$", "]", "*", "[b-a]"][k % 12].to_string(),
        _ => gen::PATTERNS[k % gen::PATTERNS.len()].replace('\\', "\\\\"),
    }
}
/// texts a cache key might wrongly identify with `b`
fn variants(b: &str) -> Vec<String> {
    let c: Vec<char> = b.chars().collect();
    let mut v = vec![
        b.to_string(),
        format!(" {b}"),
        format!("{b} "),
        format!("  {b}  "),
        b.to_uppercase(),
        b.to_lowercase(),
        c.iter().rev().collect(),
        format!("{b}{b}"),
        format!("({b})"),
        format!("{b}|"),
        format!("[{b}]"),
        format!("{b}*"),
        format!("{b}?"),
        format!("{b}."),
        format!(".{b}"),
        format!("({b}"),
        c[..c.len() / 2].iter().collect(),
        c[c.len() / 2..].iter().collect(),
        c.iter().map(|c| format!("{c} ")).collect(),
        b.replace('.', "\\\\."),
        b.replace('a', "."),
        b.replace('a', "b"),
        b.replace('a', "\u{430}"),
        b.replace('e', "\u{e9}"),
        b.replace('e', "e\u{301}"),
        format!("{b}\\\\n"),
        format!("{b}\\n"),
        format!("{b}\\t"),
        format!("\u{feff}{b}"),
        format!("{b}\u{a0}"),
        format!("{b}\u{200d}"),
        format!("{b}0"),
        format!("{b}\\u0000"),
    ];
    v.sort();
    v.dedup();
    v
}
pub fn world(r: &mut Rng, wide: bool) -> World {
    let mut queries: Vec<String> = vec![];
    let mut docs: Vec<Value> = vec![];
    for _ in 0..8 {
        let (q, t) = gen_valid(r);
        let d = gen::guided_doc(r, &q, 20);
        if too_much(&q, &d) {
            continue;
        }
        // near misses of the same text
        for _ in 0..2 {
            let mut b: Vec<char> = t.chars().collect();
            if !b.is_empty() {
                let k = r.below(b.len());
                b[k] = *r.pick(&['a', 'b', '1', '0', '*', '.', ' ', '\'']);
                queries.push(b.into_iter().collect());
            }
        }
        match r.below(5) {
            0 => queries.push(format!("{t} ")),
            1 => queries.push(format!(" {t}")),
            2 => queries.push(t.to_uppercase()),
            3 => queries.push(t.replace('\'', "\"")),
            _ => queries.push(t.replace("..", ".")),
        }
        queries.push(t);
        docs.push(d);
    }
    for _ in 0..6 {
        queries.push(gen_edited(r));
    }
    // the singular crate's own queries: (query, document)
    let mut own: Vec<(usize, usize)> = vec![];
    for _ in 0..4 {
        let (q, t, d) = crate::p_sing::ext_or_implicit(r, 20);
        if !too_much(&q, &d) {
            own.push((queries.len(), docs.len()));
            queries.push(t);
            docs.push(d);
        }
    }
    for t in ["$[?nosuch(@.a)]", "$[?length(@.a)]", "$[?count(1)>1]", "$.a[", "$[?@.a==]", "", "$", "$.a", "$.b", "$..*", "$[99999999999999999999]", "$['\\ud800']", "$[?length(@.a,1)==1]", "$[?match(@.a,'a')==true]"] {
        queries.push(t.to_string());
    }
    docs.push(json!({"a": [{"a": "a", "b": 1}, {"a": "ab", "b": 2}, {"a": "b"}], "b": {"a": "aa", "p": "a+"}}));
    docs.push(json!([{"a": "aaaa", "p": "a*"}, {"a": "b", "p": "a*"}, {"a": "b", "p": "["}, {"a": "b", "p": "b"}, {"a": "B", "p": "b"}]));
    // documents that differ in one place only
    let near = docs.len();
    docs.push(json!([{"a": "aaaa", "p": "a*"}, {"a": "b", "p": "b*"}, {"a": "b", "p": "["}, {"a": "c", "p": "b"}, {"a": "B", "p": "B"}]));
    let plain = queries.len();
    let patterns = if wide { 130 + r.below(280) } else { 10 + r.below(30) };
    for k in 0..patterns {
        let p = pattern(r, k);
        let f = if r.pct(50) { "match" } else { "search" };
        queries.push(match r.below(5) {
            0 => format!("$[?!{f}(@.a,'{p}')]"),
            1 => format!("$.a[?{f}(@.a,\"{p}\")]"),
            _ => format!("$[?{f}(@.a,'{p}')]"),
        });
        if r.pct(15) {
            let g = if f == "match" { "search" } else { "match" };
            queries.push(format!("$[?{g}(@.a,'{p}')]"));
        }
    }
    // families of patterns that a sloppy cache key would take for one another
    let family = docs.len();
    let fam_at = queries.len();
    let base = *r.pick(&["a", "ab", "a.b", "ae", "b-1", "[ab]", "a{2}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"]);
    let vs = variants(base);
    let fs: &[&str] = match r.below(3) {
        0 => &["match"],
        1 => &["search"],
        _ => &["match", "search"],
    };
    for v in &vs {
        for f in fs {
            queries.push(format!("$[?{f}(@.a,'{v}')]"));
        }
    }
    docs.push(Value::Array(vs.iter().map(|v| json!({"a": serde_json::from_str::<String>(&format!("\"{v}\"")).unwrap_or_else(|_| v.replace("\\\\", "\\")), "p": "x"})).collect()));
    // the same families as member names and string literals
    for v in vs.iter().filter(|_| r.pct(40)) {
        queries.push(format!("$[?@.a=='{v}']"));
        queries.push(format!("$['{v}']"));
    }
    docs.push(Value::Object(vs.iter().map(|v| (v.replace("\\\\", "\\"), json!(v))).collect()));
    let fam_end = queries.len();
    queries.push("$[?match(@.a,@.p)]".into());
    queries.push("$[?search(@.a,@.p)]".into());
    for k in 0..2 {
        docs.push(Value::Array(
            (0..6)
                .map(|i| json!({"a": match r.below(5) { 0 => "a".repeat(i * 7 + k), 1 => format!("common-prefix-that-is-rather-long-and-always-the-same-{}", r.below(200)), 2 => format!("{}-same-suffix", r.below(200)), _ => r.pick(gen::STRS).to_string() }, "p": pattern(r, i + k)}))
                .collect(),
        ));
    }
    let mut ops = vec![];
    let one = *r.pick(&EVAL);
    for (k, q) in queries.iter().enumerate() {
        let c = if (wide && k >= plain) || (fam_at..fam_end).contains(&k) { one } else { *r.pick(&ALL) };
        if !EVAL.contains(&c) || r.pct(25) {
            ops.push((c, k, None));
        }
        let c = if EVAL.contains(&c) { c } else { *r.pick(&EVAL) };
        let n = if k >= plain { 1 } else { 2 };
        for _ in 0..n {
            let d = if (fam_at..fam_end).contains(&k) {
                family + usize::from(queries[k].starts_with("$['"))
            } else if k >= plain { near - 1 + r.below(docs.len() + 1 - near) } else { r.below(docs.len()) };
            // a valid query on a foreign document: keep the work small
            if let Ok(p) = ref_std(q, c == Cr::Sing) {
                if too_much(&p.query, &docs[d]) {
                    continue;
                }
            }
            ops.push((c, k, Some(d)));
        }
    }
    for (a, _) in &own {
        ops.push((Cr::Sing, *a, None));
        for (_, b) in &own {
            if matches!(ref_std(&queries[*a], true), Ok(p) if !too_much(&p.query, &docs[*b])) {
                ops.push((Cr::Sing, *a, Some(*b)));
            }
        }
    }
    World { queries, docs, ops, patterns }
}
/// the rendered result of one operation, through the module-level entry points
pub fn perform(w: &World, op: (Cr, usize, Option<usize>)) -> String {
    let t = &w.queries[op.1];
    let r = match op.2 {
        None => sut(|| show_parse(&adapt::standard(op.0, t))),
        Some(d) => sut(|| show(&entry::find_by(op.0, t, &w.docs[d]), &positions(&w.docs[d]))),
    };
    r.unwrap_or_else(|p| format!("panic {p}"))
}
/// subcommand: print the result of every operation of a world, each from a process of its own
pub fn fresh(stage: &'static str, seed: u64, idx: u64) -> i32 {
    let w = world_of(stage, seed, idx);
    let mut out = vec![];
    for op in &w.ops {
        out.push(forked(|| perform(&w, *op)));
    }
    print!("{}", json!(out));
    0
}
fn forked(f: impl FnOnce() -> String) -> String {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fd[0]);
            let s = f();
            let mut o = std::os::fd::FromRawFd::from_raw_fd(fd[1]);
            let _ = std::fs::File::write_all(&mut o, s.as_bytes());
            drop(o);
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut i: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fd[0]);
        let mut b = vec![];
        let _ = i.read_to_end(&mut b);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st != 0 {
            return format!("process ended with status {st}");
        }
        String::from_utf8_lossy(&b).to_string()
    }
}
pub fn world_of(stage: &'static str, seed: u64, idx: u64) -> World {
    let mut r = case_rng(seed, stage, idx);
    world(&mut r, idx % 2 == 0)
}
pub fn baseline(stage: &str, seed: u64, idx: u64) -> Vec<String> {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["fresh", stage, &seed.to_string(), &idx.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::inherit())
        .output()
        .unwrap();
    serde_json::from_slice(&o.stdout).expect("baseline process")
}

/// one way to perform an operation whose result must be the baseline's
struct Rig {
    envs: Envs,
    parsers: HashMap<Cr, adapt::Parser>,
    compiled: HashMap<(Cr, usize), Result<Parsed, adapt::PErr>>,
    slot: Box<Value>,
    text: String,
}
fn history(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let w = world_of("histories", cx.seed, i);
    let base = baseline("histories", cx.seed, i);
    assert_eq!(base.len(), w.ops.len());
    let before: Vec<String> = w.docs.iter().map(|d| d.to_string()).collect();
    let mut rig = Rig {
        envs: Envs::new(),
        parsers: ALL.iter().map(|c| (*c, adapt::parser(*c))).collect(),
        compiled: HashMap::new(),
        slot: Box::new(Value::Null),
        text: String::with_capacity(4000),
    };
    let n = if cx.tier == Tier::Quick { 1500 } else { 6000 };
    let mut script: Vec<usize> = vec![];
    while script.len() < n {
        let k = r.below(w.ops.len());
        match r.below(8) {
            // everything in turn, forwards or backwards: more patterns than a cache holds
            0 => {
                let mut all: Vec<usize> = (0..w.ops.len()).collect();
                if r.pct(50) {
                    all.reverse();
                }
                script.extend(all);
            }
            1 => script.extend(std::iter::repeat_n(k, 1 + r.below(20))),
            2 => {
                // two alternating
                let m = r.below(w.ops.len());
                for _ in 0..1 + r.below(10) {
                    script.extend([k, m]);
                }
            }
            3 => {
                // one between many others
                let mut v: Vec<usize> = (0..w.ops.len()).filter(|_| r.pct(70)).collect();
                v.insert(0, k);
                v.push(k);
                script.extend(v);
            }
            _ => script.extend((0..30).map(|_| r.below(w.ops.len()))),
        }
    }
    let mut prev = usize::MAX;
    for (step, k) in script.iter().enumerate() {
        let op = w.ops[*k];
        let way = r.below(7);
        let (got, name) = step_result(&w, op, &mut rig, way);
        cx.case((i, prev, *k), prev != *k);
        prev = *k;
        cx.count(&format!("by {name}"), 1);
        cx.count("operations compared with a fresh process", 1);
        if got.starts_with("error") {
            cx.count("failing operations in histories", 1);
        }
        if got != base[*k] {
            let tail: Vec<String> = script[step.saturating_sub(6)..step].iter().map(|k| w.queries[w.ops[*k].1].clone()).collect();
            return viol(
                format!("{}: result depends on history ({name}): {}", op.0.name(), clip(&w.queries[op.1], 150)),
                json!({"crate": op.0.name(), "query": w.queries[op.1], "document": op.2.map(|d| doc_text(&w.docs[d])), "way": name, "step": step, "fresh process": clip(&base[*k], 1500), "in history": clip(&got, 1500), "operations before": tail}),
            );
        }
    }
    cx.max("patterns in one history", w.patterns as u64);
    cx.max("longest history", script.len() as u64);
    let after: Vec<String> = w.docs.iter().map(|d| d.to_string()).collect();
    if before != after {
        return viol("a document changed", json!({"before": before, "after": after}));
    }
    cx.sample(|| json!({"operations": w.ops.len(), "steps": script.len(), "patterns": w.patterns, "query": w.queries[w.ops[script[0]].1]}));
    Ok(())
}
fn step_result(w: &World, op: (Cr, usize, Option<usize>), rig: &mut Rig, way: usize) -> (String, &'static str) {
    let (c, qk, dk) = op;
    let text = w.queries[qk].clone();
    let catch = |r: Result<String, String>| r.unwrap_or_else(|p| format!("panic {p}"));
    match dk {
        None => match way {
            0 | 1 => (catch(sut(|| show_parse(&rig.parsers[&c].parse(&text)))), "one long-lived parser"),
            2 => (catch(sut(|| show_parse(&adapt::parser(c).parse(&text)))), "a new parser"),
            3 => {
                // the same buffer holds one text after the other
                rig.text.clear();
                rig.text.push_str(&text);
                (catch(sut(|| show_parse(&adapt::standard(c, &rig.text)))), "Query::standard on a reused buffer")
            }
            4 => (
                std::thread::scope(|s| s.spawn(|| catch(sut(|| show_parse(&adapt::standard(c, &text))))).join().unwrap()),
                "Query::standard on a new thread",
            ),
            _ => (perform(w, op), "Query::standard"),
        },
        Some(d) => {
            let doc = &w.docs[d];
            match way {
                0 => (catch(sut(|| show(&entry::env_find_by(c, &text, doc, &rig.envs), &positions(doc)))), "one long-lived environment"),
                1 => {
                    // documents one after the other at the same address
                    *rig.slot = doc.clone();
                    let s = &rig.slot;
                    (catch(sut(|| show(&entry::find_by(c, &text, s), &positions(s)))), "find on a rewritten document")
                }
                2 | 3 => {
                    let e = rig.envs;
                    let q = match rig.compiled.entry((c, qk)) {
                        std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
                        std::collections::hash_map::Entry::Vacant(v) => match sut(|| adapt::standard(c, &text)) {
                            Ok(q) => v.insert(q),
                            Err(p) => return (format!("panic {p}"), "a compiled query"),
                        },
                    };
                    match q {
                        Ok(q) if way == 3 => {
                            *rig.slot = doc.clone();
                            let s = &rig.slot;
                            (catch(sut(|| show(&entry::run_by(q, c, &text, s, &e), &positions(s)))), "a compiled query on a rewritten document")
                        }
                        Ok(q) => (catch(sut(|| show(&entry::run_by(q, c, &text, doc, &e), &positions(doc)))), "a compiled query"),
                        Err(e) => (format!("error {}", e.display), "a compiled query"),
                    }
                }
                4 => {
                    rig.text.clear();
                    rig.text.push_str(&text);
                    (catch(sut(|| show(&entry::find_by(c, &rig.text, doc), &positions(doc)))), "find with a reused buffer")
                }
                5 => (
                    std::thread::scope(|s| s.spawn(|| catch(sut(|| show(&entry::find_by(c, &text, doc), &positions(doc))))).join().unwrap()),
                    "find on a new thread",
                ),
                _ => (perform(w, op), "find"),
            }
        }
    }
}

// ------------------------------------------------------------------ changed in place

const PLACEQ: &[&str] = &[
    "$[?length(@)==2]", "$[?length(@)>length($[0])]", "$..[?length(@)==1]", "$[?count(@.*)==2]", "$[?count(@..*)>3]", "$[?value(@.*)==1]", "$[?value(@..a)=='a']", "$[?match(@.a,@.p)]", "$[?search(@.a,@.p)]", "$[?search(@,'a')]",
    "$[?@==$[0]]", "$[?@!=$[-1]]", "$[?@.a==@.b]", "$[?@<$[1]]", "$[?$[0].a==@.a]", "$[?@[?@==1]]", "$[?@[?length(@)==1]]", "$[0]", "$[-1]", "$[1:]", "$[::-1]", "$.*", "$..*", "$.a", "$..a", "$[*].a", "$[?@.a]", "$[?!@.a]", "$[?@==null||@==true]",
    "$[?match(@,$[0])]", "$..[?search(@.a,'b')]", "$[?@.*]", "$[?@..a]", "$[?length(@.a)==1&&@.b]", "$[?length(value(@.a))<3]",
];
/// for the singular crate
const PLACEX: &[&str] = &["$[$[0]]", "$.b[$.p]", "b[p]", "$[p]", "$..[$.p]", "$..[$[0]]", "$[$[1][0]]", "$.a[$.b.a]", "a[b.a]", "$..[b.a]", "$[?@[$[0]]]", "$[?@[$.p]==1]", "$.b[$.a[0],a[2][0]]", "$[$[3].a]", "[0]", "a", "$..[$[4]['b']]"];
/// change something without moving what stays: buffers and nodes keep their addresses where they can
fn touch(v: &mut Value, r: &mut Rng) {
    // descend at random
    match v {
        Value::Array(a) if !a.is_empty() && r.pct(65) => {
            let k = r.below(a.len());
            return touch(&mut a[k], r);
        }
        Value::Object(o) if !o.is_empty() && r.pct(65) => {
            let k = r.below(o.len());
            if let Some(x) = o.values_mut().nth(k) {
                return touch(x, r);
            }
        }
        _ => {}
    }
    let leaf = |r: &mut Rng| match r.below(7) {
        0 => json!(1),
        1 => json!("a"),
        2 => json!([1]),
        3 => json!({"a": "a", "p": "a*"}),
        4 => json!(null),
        5 => json!({"a": {"a": 1}, "b": [1, 2]}),
        _ => gen::scalar(r, 20),
    };
    match v {
        Value::String(s) if r.pct(80) => match r.below(5) {
            0 => s.push('b'),
            1 => {
                s.pop();
            }
            2 => {
                // other text of the same length in the same buffer
                let n = s.chars().count();
                s.clear();
                (0..n).for_each(|_| s.push(*r.pick(&['a', 'b', '.'])));
            }
            _ => {
                s.clear();
                s.push_str(r.pick::<&str>(&["a", "ab", "b", "", "a*", "[", ".", "é", "aa"]));
            }
        },
        Value::Array(a) if r.pct(85) => match r.below(6) {
            0 | 1 => a.push(leaf(r)),
            2 => {
                a.pop();
            }
            3 if a.len() > 1 => {
                let (i, j) = (r.below(a.len()), r.below(a.len()));
                a.swap(i, j);
            }
            4 if !a.is_empty() => {
                let k = r.below(a.len());
                a[k] = leaf(r);
            }
            _ => {
                let n = a.len();
                a.clear();
                (0..n).for_each(|_| a.push(leaf(r)));
            }
        },
        Value::Object(o) if r.pct(85) => match r.below(4) {
            0 | 1 => {
                o.insert(r.pick::<&str>(&["a", "b", "p", "c"]).to_string(), leaf(r));
            }
            2 => {
                let k = r.pick::<&str>(&["a", "b", "p", "c"]).to_string();
                if let Some(x) = o.remove(&k) {
                    if r.pct(50) {
                        o.insert(format!("{k}a"), x);
                    }
                }
            }
            _ => {
                if let Some(x) = o.values_mut().next() {
                    *x = leaf(r);
                }
            }
        },
        Value::Number(_) if r.pct(60) => *v = json!(r.below(4)),
        Value::Bool(b) => *b = !*b,
        _ => *v = leaf(r),
    }
}
fn in_place(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let mut doc = Box::new(match r.below(4) {
        0 => gen::records(r, 10),
        1 => json!(["a", [1], {"a": "a", "p": "a*"}, [1, 2], {"a": 1, "b": 1}]),
        2 => json!({"a": ["a", "ab", [1]], "b": {"a": 1, "p": "b"}, "p": "a"}),
        _ => gen::doc(r, 3, 5, 10),
    });
    let mut qs: Vec<(String, crate::model::Query)> = vec![];
    let c = EVAL[i as usize % 4];
    for _ in 0..6 {
        let t = if c == Cr::Sing && r.pct(50) {
            r.pick::<&str>(PLACEX).to_string()
        } else if r.pct(75) {
            r.pick::<&str>(PLACEQ).to_string()
        } else {
            let (q, t) = gen_valid(r);
            if too_much(&q, &doc) {
                continue;
            }
            t
        };
        if let Ok(p) = ref_std(&t, c == Cr::Sing) {
            if p.sem.is_empty() {
                qs.push((t, p.query));
            }
        }
    }
    if qs.is_empty() {
        return Ok(());
    }
    let e = entry::envs();
    let compiled: Vec<Option<Parsed>> = qs.iter().map(|(t, _)| sut(|| adapt::standard(c, t).ok()).unwrap_or(None)).collect();
    let mut states: Vec<String> = vec![];
    for step in 0..40 {
        let before = doc.to_string();
        let k = r.below(qs.len());
        let (t, q) = &qs[k];
        let Some(exp) = expect(q, &doc) else {
            touch(&mut doc, r);
            continue;
        };
        let (how, got) = match r.below(3) {
            0 => ("find", sut(|| adapt::find(c, t, &doc))),
            1 if c == Cr::Serde => ("find_loop", sut(|| adapt::find_loop(t, &doc))),
            1 => ("Environment::find", sut(|| entry::env_find(c, t, &doc, &e))),
            _ => match &compiled[k] {
                Some(q) => ("a compiled query", sut(|| entry::run(q, &doc, &e))),
                None => ("find", sut(|| adapt::find(c, t, &doc))),
            },
        };
        cx.case((t, &before), step > 0);
        cx.count("evaluations between changes", 1);
        let mut wrong = judge_nodes(&got, &exp);
        if let (None, Ok(Ok(v))) = (&wrong, &got) {
            if let Some((g, w)) = v.iter().zip(&exp).find(|(g, w)| g.loc != crate::eval::normalized(&w.1)) {
                wrong = Some(("wrong location", format!("{} for {}", g.loc, crate::eval::normalized(&w.1))));
            }
        }
        if let Some((what, o)) = wrong {
            return viol(
                format!("{}: {what} on a document changed in place ({how}): {t}", c.name()),
                json!({"crate": c.name(), "way": how, "query": t, "document": doc_text(&doc), "document states before": states.iter().rev().take(4).map(|s| clip(s, 400)).collect::<Vec<_>>(), "expected": paths(&exp), "outcome": o}),
            );
        }
        drop(got);
        if doc.to_string() != before {
            return viol(format!("{}: evaluation changed the document: {t}", c.name()), json!({"before": before, "after": doc_text(&doc)}));
        }
        states.push(before);
        if r.pct(60) {
            touch(&mut doc, r);
            cx.count("changes in place", 1);
        }
        if r.pct(5) {
            // another document at the same address
            let mut other = doc.clone();
            touch(&mut other, r);
            *doc = *other;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ soak

const SOAK: usize = 11;
/// the same two operations, again and again: no counter may run over or out
fn soak(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = if cx.tier == Tier::Quick { 70_000 } else { 300_000 };
    let k = i as usize % SOAK;
    let (c, eval) = if k < 7 { (ALL[k], false) } else { (EVAL[k - 7], true) };
    let good = *r.pick(&["$.a", "$['a']", "$[?@.a]", "$..a"]);
    let bad = *r.pick(&["$.a[", "$[?", "$..", "$[?nosuch(@)]"]);
    let d = json!({"a": [{"a": 1}], "b": 2});
    let pos = positions(&d);
    let go = |t: &str| {
        sut(|| if eval { show(&entry::find_by(c, t, &d), &pos) } else { show_parse(&adapt::standard(c, t)) }).unwrap_or_else(|p| format!("panic {p}"))
    };
    let (a, b) = (go(good), go(bad));
    let rx: Vec<String> = (0..300).map(|k| format!("$[?search(@.a,'a{k}')]")).collect();
    for j in 0..n {
        let (t, want) = if j % 8 == 3 { (bad, &b) } else { (good, &a) };
        let got = go(t);
        if got != *want {
            return viol(
                format!("{}: call {j} differs: {t}", c.name()),
                json!({"crate": c.name(), "query": t, "call": j, "first": clip(want, 800), "now": clip(&got, 800)}),
            );
        }
        if eval && j % 16 == 0 {
            let _ = go(&rx[(j / 16) % rx.len()]);
        }
    }
    cx.case((c, eval), true);
    cx.count("soak calls", n as u64);
    Ok(())
}
