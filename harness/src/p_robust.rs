//! C13, C14, C22: no panic, abort, hang or blow-up in parsing and evaluation.
use crate::entry;
use crate::adapt::{self, Cr};
use crate::alloc;
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::p_parse::{corpus, gen_corpus, gen_edited, number_query, parse_std, string_query, want_std, Want};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::{json, Map, Value};

/// the default stack of a spawned thread
/// threads' default; the unoptimised build gets its own
pub fn stack() -> usize {
    std::env::var("VH_STACK_MB").ok().and_then(|v| v.parse().ok()).unwrap_or(2) << 20
}

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C13" => Prop {
            id: "C13",
            rule: "arbitrary strings (all short token sequences, random bytes and Unicode, edits of valid queries and of the repository's own, every nesting construct up to 64 levels, every repeatable construct up to hundreds of kilobytes, truncated and unclosed) parsed by all seven parsers and tokenized, on a 2 MiB stack with debug assertions and overflow checks; non-trivial: a string not seen before",
            assumptions: &["nesting at most 64 levels", "&& and || chains of at most 1,000 operands"],
            stages: vec![
                stage("short sequences", (TOK.len() * TOK.len()) as u64, (TOK.len() * TOK.len() * 8) as u64, c13_short),
                stage("nesting", (NESTS.len() * NEST_LEAF.len() * 3) as u64, (NESTS.len() * NEST_LEAF.len() * 64) as u64, c13_nest),
                stage("mixed nesting", 3_000, 100_000, c13_mixed),
                stage("long", (LONGS.len() * 5) as u64, (LONGS.len() * 8) as u64, c13_long),
                stage("long random", 400, 20_000, c13_longrand),
                stage("random text", 20_000, 1_000_000, c13_text),
                stage("edited", 25_000, 1_000_000, c13_edited),
                stage("truncated", 6_000, 200_000, c13_trunc),
            ],
        },
        "C14" => Prop {
            id: "C14",
            rule: "valid queries evaluated by the four engines on hostile documents (extreme numbers, depth up to 128, 100,000-element arrays and objects, hostile names) on a 2 MiB stack with debug assertions and overflow checks; non-trivial: the reference selects at least one node, or the document is wide or deep",
            assumptions: &["nesting of queries at most 64 levels", "evaluations that need more than the work budget of the reference evaluator are skipped"],
            stages: vec![
                stage("random", 10_000, 400_000, c14_random),
                stage("numbers", 10_000, 400_000, c14_numbers),
                stage("number table", (EXT.len() * EXT.len()) as u64, (EXT.len() * EXT.len()) as u64, c14_table),
                stage("extreme slices", 6_000, 200_000, c14_slices),
                stage("embedded queries", 8_000, 200_000, c14_embedded),
                stage("deep", (DEEPQ.len() * 4) as u64, (DEEPQ.len() * 4 * 6) as u64, c14_deep),
                stage("wide", (WIDEQ.len() * 3) as u64, (WIDEQ.len() * WIDE_KINDS) as u64, c14_wide),
                stage("long values", LONGV_N, LONGV_N * 8, c14_long),
                stage("query shapes", (NESTS.len() * NEST_LEAF.len()) as u64, (NESTS.len() * NEST_LEAF.len() * 12) as u64, c14_shapes),
                stage("regex", 6_000, 200_000, c14_regex),
            ],
        },
        // workloads for the unoptimised build
        "PLAIN-C13" => Prop {
            id: "PLAIN-C13",
            rule: "",
            assumptions: &[],
            stages: vec![
                stage("nesting", (NESTS.len() * NEST_LEAF.len()) as u64, (NESTS.len() * NEST_LEAF.len() * 16) as u64, c13_nest),
                stage("mixed nesting", 600, 20_000, c13_mixed),
                stage("long", (LONGS.len() * 2) as u64, (LONGS.len() * 8) as u64, c13_long),
                stage("long random", 100, 4_000, c13_longrand),
                stage("random text", 2_000, 100_000, c13_text),
                stage("edited", 2_000, 100_000, c13_edited),
            ],
        },
        "PLAIN-C14" => Prop {
            id: "PLAIN-C14",
            rule: "",
            assumptions: &[],
            stages: vec![
                stage("random", 2_000, 40_000, c14_random),
                stage("numbers", 2_000, 40_000, c14_numbers),
                stage("deep", (DEEPQ.len() * 2) as u64, (DEEPQ.len() * 4 * 6) as u64, c14_deep),
                stage("wide", (WIDEQ.len() * 2) as u64, (WIDEQ.len() * WIDE_KINDS) as u64, c14_wide),
                stage("long values", LONGV_N, LONGV_N * 2, c14_long),
                stage("query shapes", (NESTS.len() * NEST_LEAF.len()) as u64, (NESTS.len() * NEST_LEAF.len() * 12) as u64, c14_shapes),
            ],
        },
        "C22" => Prop {
            id: "C22",
            rule: "families of queries (repeatable and nesting constructs, valid, unclosed and invalid) and of documents (wide, deep, balanced) in growing sizes; grammar-rule calls (by bisecting pest's call limit), allocations, allocated bytes and CPU time are measured and their growth compared with quadratic growth; non-trivial: every family measured at four or more sizes",
            assumptions: &["growth over a factor of four in size: more than 24-fold in deterministic measures or 60-fold in CPU time counts as more than quadratic"],
            stages: vec![
                stage("parse nesting", (NESTS.len() * NEST_LEAF.len()) as u64, (NESTS.len() * NEST_LEAF.len()) as u64, c22_nest),
                stage("parse mixed nesting", 200, 5_000, c22_mixed),
                stage("parse length", LONGS.len() as u64, LONGS.len() as u64, c22_long),
                stage("evaluate nesting", (NESTS.len() * FILTER_LEAF.len() * 4) as u64, (NESTS.len() * FILTER_LEAF.len() * 4) as u64, c22_filter),
                stage("evaluate", (GROWQ.len() * GROW_KINDS) as u64, (GROWQ.len() * GROW_KINDS) as u64, c22_eval),
            ],
        },
        _ => return None,
    })
}

// ------------------------------------------------------------------ parsing

/// parse with everything, on a small stack; a panic, abort or hang is the violation
fn parse_all(cx: &mut Cx, ts: &[String]) -> Res {
    let bad = alloc::on_stack(stack(), || {
        for t in ts {
            for c in adapt::ALL {
                if let Err(p) = sut(|| parse_std(c, t).map(drop)).and_then(|r| r) {
                    return Some((c.name(), t.clone(), p));
                }
            }
            if let Err(p) = sut(|| jsonpath_rfc9535::lexer::tokenize(t)) {
                return Some(("tokenize", t.clone(), p));
            }
        }
        None
    });
    for t in ts {
        cx.case(t, true);
        cx.max("longest string, bytes", t.len() as u64);
    }
    cx.count("parses and tokenizations that returned", ts.len() as u64 * 8);
    if let Some(t) = ts.first() {
        cx.sample(|| json!(clip(t, 150)));
    }
    match bad {
        Some((c, t, p)) => {
            let place = p.rsplit(" at ").next().unwrap_or("").to_string();
            viol(format!("{c}: panic at {place}: {}", clip(&t, 120)), json!({"parser": c, "query": clip(&t, 5000), "bytes": t.len(), "panic": p}))
        }
        None => Ok(()),
    }
}

const TOK: &[&str] = &[
    "$", "@", "[", "]", "(", ")", ".", "..", "*", "?", "!", "&&", "||", "==", "<", ",", ":", "'", "\"", "\\", "a", "-", "0", "1", "9223372036854775808", "1e9", ".5", "E", "e", " ", "\n", "null", "true",
    "count(", "length(@)", "f", "\\u", "\\ud83d", "é", "\u{10ffff}", "\u{0}", "#", "'a'", "[?", "@.a", "!=", ">=", "=", "&", "|",
];
fn c13_short(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = TOK.len() as u64;
    let (a, b) = (TOK[(i % n) as usize], TOK[(i / n % n) as usize]);
    let pre = ["$[?", "$[", "", "$", "$[?@", "$['", "$[?count(", "$[?@.a=="];
    let mut ts = vec![];
    for (j, c) in TOK.iter().enumerate() {
        // quick: rotate the prefix; thorough (i >= n*n): the other prefixes
        let p = pre[((i / (n * n)) as usize + j + (i % n) as usize) % pre.len()];
        ts.push(format!("{p}{a}{b}{c}"));
        ts.push(format!("{p}{a}{b}{c}{}", r.pick(TOK)));
    }
    parse_all(cx, &ts)
}

/// nesting constructs: (open, close)
const NESTS: &[(&str, &str)] = &[
    ("(", ")"),
    ("!(", ")"),
    ("( ", "\n)"),
    ("@[?", "]"),
    ("$..[?", "]"),
    ("@[?(", ")]"),
    ("@[0,?!", ",1]"),
    ("count(@[?", "])>0"),
    ("length(value(@[?", "]))==1"),
    ("1==value(@[?", "])"),
    ("@.a&&(", ")"),
    ("@.a||!(", "||@.b)"),
    ("(@.a==1&&", ")||@.b"),
    ("!@[?@[?", "],?1==1]"),
    ("match(@.a,'a')&&(", ")"),
    ("count($[?@.a==1||", "])<=count(@.*)"),
];
const NEST_LEAF: &[&str] = &["@", "@.a==1", "match(@,'a')", "", "1", "@.a &", "(", "@['", "length(@)", "nosuch(@)", "@.*==1"];
/// "#" goes into call arguments
const CALLS: &[(&str, &str, &str)] = &[("$[?length(", "@", ")==1]"), ("$[?length(value(", "@", ")==1]")];

fn nest(k: usize, leaf: usize, depth: usize, close: bool) -> String {
    let (o, c) = NESTS[k];
    let mut s = String::from("$[?");
    for _ in 0..depth {
        s.push_str(o);
    }
    s.push_str(NEST_LEAF[leaf]);
    if close {
        for _ in 0..depth {
            s.push_str(c);
        }
        s.push(']');
    }
    s
}
/// how many brackets and parentheses are open at once
fn levels(t: &str) -> usize {
    let (mut d, mut m) = (0usize, 0usize);
    for c in t.chars() {
        match c {
            '(' | '[' => {
                d += 1;
                m = m.max(d)
            }
            ')' | ']' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}
fn deepest(f: impl Fn(usize) -> String) -> usize {
    let mut d = 64;
    while d > 1 && levels(&f(d)) > 64 {
        d -= 1;
    }
    d
}
fn c13_nest(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (nk, nl) = (NESTS.len() as u64, NEST_LEAF.len() as u64);
    let (k, l, j) = ((i % nk) as usize, (i / nk % nl) as usize, i / (nk * nl));
    let dmax = deepest(|d| nest(k, l, d, true));
    let d = match (cx.tier, j) {
        (Tier::Quick, 0) => dmax,
        (Tier::Quick, 1) => dmax / 2,
        (Tier::Quick, _) => 9.min(dmax),
        (_, j) => (j as usize + 1).min(dmax),
    };
    let full = nest(k, l, d, true);
    cx.max("deepest nesting", levels(&full) as u64);
    let mut short = full.clone();
    short.pop();
    short.pop();
    let mut calls = vec![];
    if k < CALLS.len() && l == 0 {
        let (o, m, c) = CALLS[k];
        let inner = "length(".repeat(d.min(60)) + m + &")".repeat(d.min(60));
        calls.push(format!("{o}{inner}{c}"));
        calls.push(format!("{o}{inner}"));
    }
    let mut ts = vec![full.clone(), nest(k, l, d, false), short, format!("{full}]"), full.replace("$[?", "$[? ").replace(')', " ) ")];
    ts.extend(calls);
    parse_all(cx, &ts)
}
/// a random valid or broken nest of at most 64 levels
pub fn mixed(r: &mut Rng, depth: usize) -> String {
    let mut s = String::from("$[?");
    let mut close = vec![];
    while levels(&s) < depth.saturating_sub(3) && close.len() < 64 {
        let (o, c) = *r.pick(NESTS);
        s.push_str(o);
        close.push(c);
    }
    s.push_str(*r.pick(NEST_LEAF));
    while let Some(c) = close.pop() {
        s.push_str(c);
    }
    s.push(']');
    s
}
fn c13_mixed(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let d = 4 + r.below(61);
    let mut ts = vec![];
    for _ in 0..3 {
        let t = mixed(r, d);
        cx.max("deepest nesting", levels(&t) as u64);
        let e = match r.below(4) {
            0 => gen::mutate(r, &t),
            1 => {
                let n = t.chars().count();
                t.chars().take(r.below(n)).collect()
            }
            _ => t.clone(),
        };
        if levels(&e) <= 64 {
            ts.push(e);
        }
    }
    parse_all(cx, &ts)
}

/// repeatable constructs: prefix, unit, separator, suffix, largest count
type Long = (&'static str, &'static str, &'static str, &'static str, usize);
const LONGS: &[Long] = &[
    ("$", ".a", "", "", 100_000),
    ("$", "[0]", "", "", 100_000),
    ("$", "..*", "", "", 50_000),
    ("$", "['a']", "", "", 50_000),
    ("$", "[?@.a]", "", "", 20_000),
    ("$", " \n[ 'a' , 1 ]", "", "", 20_000),
    ("$[", "0", ",", "]", 100_000),
    ("$[", "'a'", ",", "]", 100_000),
    ("$[", "1:2:3", ",", "]", 50_000),
    ("$[", "?@.a==1", ",", "]", 20_000),
    ("$[", "*", " , ", "]", 50_000),
    ("$[", ":", ",", "]", 50_000),
    ("$[?", "@.a", "&&", "]", 1_000),
    ("$[?", "@.a==1", "||", "]", 1_000),
    ("$[?", "!@.a", " && ", "]", 1_000),
    ("$[?", "@.a&&@.b", "||", "]", 500),
    ("$[?", "(@.a||@.b)", "&&", "]", 500),
    ("$[?", "match(@.a,'b')", "||", "]", 1_000),
    ("$[?@", ".a", "", "==1]", 50_000),
    ("$[?@", "[0]['a']", "", "]", 20_000),
    ("$[?count(@", "[0,1]", "", ")>1]", 20_000),
    ("$['", "a", "", "']", 500_000),
    ("$[\"", "☺", "", "\"]", 200_000),
    ("$['", "\\u0041", "", "']", 50_000),
    ("$['", "\\ud834\\udd1e", "", "']", 50_000),
    ("$['", "\\'", "", "']", 100_000),
    ("$[\"", "\\\\", "", "\"]", 100_000),
    ("$[?@.a=='", "é", "", "']", 200_000),
    ("$[?@.a=='", "\\n", "", "']", 100_000),
    ("$.", "a", "", "", 500_000),
    ("$.", "日", "", "", 200_000),
    ("$", " ", "", "", 200_000),
    ("$[", "\n", "", "0]", 200_000),
    ("$[?", " ", "", "@]", 200_000),
    ("$[?@ ", " ", "", "== 1]", 200_000),
    ("$[", "1", "", "]", 100_000),
    ("$[-", "9", "", ":]", 100_000),
    ("$[", "0", "", "]", 100_000),
    ("$[?@==", "1", "", "]", 100_000),
    ("$[?@==-1.", "0", "", "]", 100_000),
    ("$[?@==1.", "9", "", "e10]", 100_000),
    ("$[?@==1e", "0", "", "]", 100_000),
    ("$[?@==1e-", "9", "", "]", 10_000),
    ("$[?match(", "@.a", ",", ")]", 50_000),
    ("$[?nosuch(", "1", ",", ")]", 50_000),
    ("$[?count(", "@.a&&@.b", ",", ")]", 20_000),
    ("$[?", "!", "", "@.a]", 50_000),
    ("$[?", "-", "", "1]", 100_000),
    ("$[?@.a", "==1", "", "]", 20_000),
    ("$[?@.a", "<@.a", "", "]", 20_000),
    ("$[?", "@.a ", "", "]", 50_000),
    ("$[?", "@", "", "]", 100_000),
    ("$", "$", "", "", 100_000),
    ("$", ".", "", "", 100_000),
    ("$[", "'", "", "", 100_000),
    ("$['", "\\", "", "", 100_000),
    ("$['", "\\u", "", "']", 100_000),
    ("$[?@.a", "]", "", "", 100_000),
    ("$[?@.a", ")", "", "]", 100_000),
    ("$[", ",", "", "]", 100_000),
    ("$[", ":", "", "]", 100_000),
    ("$[?", "?", "", "]", 100_000),
    ("$[?", "&&", "", "]", 1_000),
    ("$[?@", "||", "", "]", 1_000),
    ("$[?", "true", "", "]", 100_000),
    ("$[?", "f", "", "(@)]", 200_000),
    ("$[?", "f_1", "", "]", 100_000),
    ("$[?'", "a", "", "'=='']", 200_000),
    ("$[?1==", "null==", "", "1]", 20_000),
    ("", "☺", "", "", 100_000),
    ("$", "\u{0}", "", "", 100_000),
    ("$[?match(@,'", "(a|b)*", "", "')]", 20_000),
    // the singular crate's embedded queries and implicit root
    ("$", "[$.a]", "", "", 20_000),
    ("$.t[$", ".a", "", "]", 20_000),
    ("t[a", "[0]", "", "]", 20_000),
    ("a", ".a", "", "", 50_000),
    ("['a']", "[1]", "", "", 20_000),
    ("$[", "$.a", ",", "]", 20_000),
    ("$[", "a['b']", " , ", "]", 20_000),
];
fn long(l: &Long, n: usize) -> String {
    let mut s = String::from(l.0);
    for i in 0..n {
        if i > 0 {
            s.push_str(l.2);
        }
        s.push_str(l.1);
    }
    s + l.3
}
fn c13_long(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let l = &LONGS[i as usize % LONGS.len()];
    let j = i as usize / LONGS.len();
    let n = match j {
        0 => l.4,
        1 => l.4 / 7,
        2 => l.4 / 90,
        3 => 66.min(l.4),
        _ => 1 + r.below(l.4),
    };
    // quick: at most some hundred kilobytes
    let n = if cx.tier == Tier::Quick { n.min(120_000 / (l.1.len() + l.2.len())) } else { n }.max(1);
    let t = long(l, n);
    let mut ts = vec![t.clone()];
    // cut at the end
    let m = t.chars().count();
    ts.push(t.chars().take(m - 1 - r.below(m.min(8))).collect());
    if cx.tier == Tier::Thorough || j > 1 {
        ts.push(format!("{t}\u{0}"));
        ts.push(gen::mutate(r, &t));
    }
    parse_all(cx, &ts)
}
fn c13_longrand(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let n = 200 + r.below(if cx.tier == Tier::Quick { 3_000 } else { 30_000 });
    let mut s = String::from(*r.pick(&["$", "$[", "$[?", "$['", "$[?@.a=='", ""]));
    let mode = r.below(3);
    let mut open = 0;
    for _ in 0..n {
        match mode {
            0 => s.push(gen::rand_char(r)),
            1 => {
                let t = *r.pick(TOK);
                if t.contains(['(', '[']) {
                    open += 1;
                    if open > 60 {
                        continue;
                    }
                }
                if matches!(t, "&&" | "||" | "!") && r.pct(80) {
                    continue;
                }
                s.push_str(t)
            }
            _ => s.push((r.below(96) as u8 + 32) as char),
        }
    }
    if levels(&s) > 64 || s.matches("&&").count() + s.matches("||").count() > 1000 {
        return Ok(());
    }
    parse_all(cx, &[s])
}
fn c13_text(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut ts = vec![];
    for _ in 0..6 {
        let n = r.below(30);
        let s = match r.below(5) {
            0 => (0..n).map(|_| gen::rand_char(r)).collect::<String>(),
            1 => {
                let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
                String::from_utf8_lossy(&b).to_string()
            }
            2 => gen::soup(r),
            3 => (0..n).map(|_| *r.pick(TOK)).collect::<String>(),
            _ => {
                let pre = *r.pick(&["$", "$[?", "$[", "$['", "$[?@==", "$.", "$[?count(", "$[1:", "$[?'\\"]);
                let body: String = (0..n / 2).map(|_| if r.pct(50) { r.pick(TOK).to_string() } else { gen::rand_char(r).to_string() }).collect();
                format!("{pre}{body}")
            }
        };
        ts.push(s);
    }
    parse_all(cx, &ts)
}
fn c13_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let ts: Vec<String> = (0..4)
        .map(|_| match r.below(5) {
            0 => gen_corpus(r),
            1 => string_query(r),
            2 => number_query(r),
            3 => {
                // embedded queries and implicit root
                let mut t = crate::p_sing::ext_text(r);
                for _ in 0..r.below(3) {
                    t = gen::mutate(r, &t);
                }
                t
            }
            _ => gen_edited(r),
        })
        .collect();
    parse_all(cx, &ts)
}
/// every prefix and suffix of a query
fn c13_trunc(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = if r.pct(50) { r.pick(corpus()).clone() } else { gen_edited(r) };
    let cs: Vec<char> = t.chars().collect();
    if cs.len() > 200 {
        return Ok(());
    }
    let mut ts = vec![];
    for k in 0..=cs.len() {
        ts.push(cs[..k].iter().collect());
        if k % 3 == 0 {
            ts.push(cs[k..].iter().collect());
        }
    }
    parse_all(cx, &ts)
}

// ------------------------------------------------------------------ evaluation

/// evaluate in all engines on a small stack; anything but a nodelist is a violation
fn eval_all(cx: &mut Cx, t: &str, doc: &Value, key: &str, nontrivial: bool) -> Res {
    eval_in(cx, t, doc, key, nontrivial, &adapt::EVAL)
}
fn eval_in(cx: &mut Cx, t: &str, doc: &Value, key: &str, nontrivial: bool, crates: &[Cr]) -> Res {
    cx.case((t, key), nontrivial);
    let out = alloc::on_stack(stack(), || {
        let mut out = vec![];
        for &c in crates {
            out.push((c.name(), sut(|| adapt::find(c, t, doc).map(|v| v.len()))));
            if c == Cr::Serde {
                out.push(("serde find_loop", sut(|| adapt::find_loop(t, doc).map(|v| v.len()))));
            }
        }
        out
    });
    for (c, r) in out {
        match r {
            Ok(Ok(n)) => {
                cx.count("evaluations completed", 1);
                cx.count("nodes returned", n as u64);
                cx.max("longest nodelist", n as u64);
            }
            Ok(Err(e)) => return viol(format!("{c}: error: {}", clip(t, 150)), json!({"engine": c, "query": clip(t, 2000), "document": key, "error": e})),
            Err(p) => {
                let place = p.rsplit(" at ").next().unwrap_or("").to_string();
                return viol(format!("{c}: panic at {place}: {}", clip(t, 150)), json!({"engine": c, "query": clip(t, 2000), "document": key, "panic": p}));
            }
        }
    }
    Ok(())
}
const EXT: &[&str] = &[
    "0", "-0", "0.0", "-0.0", "1", "-1", "1.0", "0.1", "-1.5", "2", "9007199254740991", "-9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807",
    "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "1e308", "-1e308", "1.7976931348623157e308", "-1.7976931348623157e308", "5e-324",
    "-5e-324", "2.2250738585072014e-308", "1e19", "1.8446744073709552e19", "-9.223372036854775808e18", "9.223372036854775807e18", "4294967296", "2147483648", "-2147483649",
];
fn ext(r: &mut Rng) -> Value {
    serde_json::from_str(*r.pick(EXT)).unwrap()
}
/// replace scalars by extreme numbers
fn extreme(r: &mut Rng, v: Value, pct: u64) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(|x| extreme(r, x, pct)).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, x)| (k, extreme(r, x, pct))).collect()),
        x => {
            if r.pct(pct) {
                ext(r)
            } else {
                x
            }
        }
    }
}
fn checked(cx: &mut Cx, q: &Query, t: &str, doc: &Value) -> Res {
    if too_much(q, doc) {
        cx.count("skipped: too much work", 1);
        return Ok(());
    }
    let nt = expect(q, doc).is_none_or(|e| !e.is_empty());
    if nt {
        cx.sample(|| json!({"query": t, "document": clip(&doc.to_string(), 200)}));
    }
    eval_all(cx, t, doc, &doc_text(doc), nt)
}
fn c14_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 40, calls: 25, big_ints: 15, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    let d = gen::guided_doc(r, &q, 20);
    let d = extreme(r, d, 25);
    checked(cx, &q, &t, &d)
}
/// the singular crate's embedded queries: every kind of value as a name or an index
fn c14_embedded(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    if i % 4 == 0 {
        // an extreme position in a short array
        let (a, b) = (ext(r), ext(r));
        let n = r.below(5);
        let doc = json!({"a": a, "b": b, "t": vec![json!([1, {"a": 2}]); n], "c": [a, [b]]});
        let t = *r.pick(&["$.t[$.a]", "t[a]", "$.t[a, b]", "$.t[*][$.b]", "$..[$.a]", "$..[a,b]", "$.t[?@[$.a]]", "$.t[?@[$.a]||!@[$.b]]", "$.t[$.c[0]]", "$.t[$.c[1][0]][$.a]", "$[?count(@[$.a,$.b])>0]", "['t'][c[-1][-1]]"]);
        return eval_in(cx, t, &doc, &doc.to_string(), n > 0, &[Cr::Sing]);
    }
    let hostile = if r.pct(30) { 60 } else { 0 };
    let (q, t, d) = crate::p_sing::ext_or_implicit(r, hostile);
    let pct = *r.pick(&[0, 15, 60]);
    let d = extreme(r, d, pct);
    if too_much(&q, &d) {
        cx.count("skipped: too much work", 1);
        return Ok(());
    }
    let nt = expect(&q, &d).is_none_or(|e| !e.is_empty());
    eval_in(cx, &t, &d, &doc_text(&d), nt, &[Cr::Sing])
}
fn c14_numbers(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 90, calls: 25, big_ints: 60, max_segs: 1, max_depth: 1, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    let d = gen::guided_doc(r, &q, 5);
    let d = extreme(r, d, 80);
    checked(cx, &q, &t, &d)
}
fn c14_table(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (a, b) = (EXT[i as usize % EXT.len()], EXT[i as usize / EXT.len()]);
    let doc: Value = serde_json::from_str(&format!("[{a},{b},[{a},{b}],{{\"a\":{a}}}]")).unwrap();
    let key = doc.to_string();
    for op in ["==", "!=", "<", "<=", ">", ">="] {
        for t in [format!("$[?@{op}{b}]"), format!("$[?{a}{op}$[1]]"), format!("$[?{a}{op}{b}]"), format!("$..[?length(@){op}{a}]"), format!("$[?@[0]{op}@['a']||$[2]{op}@]"), format!("$[?value(@.*){op}{a}]"), format!("$[?match({a},{b})||length({a}){op}{b}]")] {
            if want_std(&t) != Want::Accept {
                continue;
            }
            eval_all(cx, &t, &doc, &key, true)?;
        }
    }
    Ok(())
}
fn c14_slices(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    const B: &[i64] = &[MAXI, -MAXI, MAXI - 1, 1 - MAXI, 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) - 1, 1 << 52];
    let len = r.below(6);
    let doc = json!({"a": vec![1; len], "b": {"a": vec![0; r.below(3)]}, "c": "x"});
    let part = |r: &mut Rng| if r.pct(20) { String::new() } else { r.pick(B).to_string() };
    let sel = |r: &mut Rng| match r.below(4) {
        0 => r.pick(B).to_string(),
        1 => format!("{}:{}", part(r), part(r)),
        _ => format!("{}:{}:{}", part(r), part(r), part(r)),
    };
    let n = 1 + r.below(3);
    let s: Vec<String> = (0..n).map(|_| sel(r)).collect();
    let t = match r.below(4) {
        0 => format!("$.a[{}]", s.join(",")),
        1 => format!("$..[{}]", s.join(",")),
        2 => format!("$[?@[{}]]", s.join(",")),
        _ => format!("$[?count(@[{}])>0]", s.join(",")),
    };
    if want_std(&t) != Want::Accept {
        return viol("generator", json!(t));
    }
    let key = doc.to_string();
    eval_all(cx, &t, &doc, &key, len > 0)
}
const DEEPQ: &[&str] = &[
    "$..*", "$..[*]", "$..a", "$..[0]", "$..[-1]", "$..['a','b']", "$..[?@..*]", "$..[?@.a]", "$..*..*", "$..[?@==$]", "$..[?@==$.a]", "$..[?@.a==@[0]]", "$..[?@<=@.a]", "$[?@==$.a||@==$[0]]", "$..[::-1]", "$..[1:]",
    "$..[?length(@)>0]", "$..[?count(@..*)>100]", "$..[?count(@..a)>count($..b)]", "$..[?value(@..z)==1]", "$..[?!@[0]&&!@.a]", "$..[?@[?@[?@]]]", "$..[?match(@.a,'a')]", "$[*][*][*][*]", "#a", "#0", "#*", "#..", "#..*",
];
/// documents of depth d
fn deep(d: usize, kind: usize) -> Value {
    let mut v = match kind % 6 {
        0 | 1 => json!(1),
        2 => json!({"a": "a", "b": [1, 2]}),
        3 => json!([]),
        4 => json!(-1.5e300),
        _ => json!({}),
    };
    for k in 0..d {
        v = match kind % 6 {
            0 => json!([v]),
            1 => json!({ "a": v }),
            2 => {
                if k % 2 == 0 {
                    json!({"a": v, "b": k})
                } else {
                    json!([v, "x"])
                }
            }
            3 => json!([k, v]),
            4 => json!({"b": [], "a": v}),
            _ => json!([[], v]),
        };
    }
    v
}
fn c14_deep(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let q = DEEPQ[i as usize % DEEPQ.len()];
    let j = i as usize / DEEPQ.len();
    let depth = if j % 2 == 0 { 127 } else { 20 + r.below(100) };
    let kind = if cx.tier == Tier::Quick { (j * 5 + i as usize) % 6 } else { j % 6 };
    let doc = deep(depth, kind);
    let t = match q {
        "#a" => format!("${}", ".a".repeat(depth)),
        "#0" => format!("${}", "[0]".repeat(depth)),
        "#*" => format!("${}", "[*]".repeat(depth)),
        "#.." => "$..a..a[?@..a]".into(),
        "#..*" => format!("$[?@{}]", "[*]".repeat(60)),
        q => q.to_string(),
    };
    cx.max("document depth", depth as u64 + 1);
    eval_all(cx, &t, &doc, &format!("depth {depth} kind {kind}"), true)
}
const WIDEQ: &[&str] = &[
    "$[*]", "$..*", "$[::2]", "$[::-1]", "$[-1]", "$[99999]", "$[0:100000:3]", "$[-100000:]", "$[?@>1]", "$[?@.a==$[0].a]", "$[?@.a]", "$..a", "$[?match(@,'a.*')]", "$[?search(@.a,'b')]", "$[?length(@)>1]", "$[?count(@.*)>0]",
    "$[?!@.a]", "$..[?@.a==1]", "$[*][*]", "$[*].a", "$['k500']", "$[?@==$['k5']]", "$[?@[0]]", "$[?@==$[1]]", "$[0,1,2,0]", "$[*,*]", "$[?@.a>1,?@.a<2]", "$..[0]", "$..[?@]", "$[?@[?@>1]]", "$[?value(@.*)==1]",
    "$[?@<'z' || @>1 && !(@==2)]", "$[?@.a!=@.b][?@>1]", "$..['a','b'][0]", "$[?count($[0,1,2])>2]", "$[?length($)==100000]", "$[?@=='x']", "$[?@.*]", "$[10:20,::5000]", "$.*.*",
];
pub const WIDE_KINDS: usize = 8;
pub fn wide(n: usize, kind: usize) -> Value {
    match kind {
        0 => Value::Array((0..n).map(|i| json!(i)).collect()),
        1 => Value::Array((0..n).map(|i| json!({"a": i % 5, "b": "abc"})).collect()),
        2 => Value::Array((0..n).map(|i| json!(["a", i, [i]])).collect()),
        3 => Value::Array((0..n).map(|i| json!(format!("a{i}"))).collect()),
        4 => Value::Object((0..n).map(|i| (format!("k{i}"), json!(i))).collect::<Map<_, _>>()),
        5 => Value::Object((0..n).map(|i| (format!("k{i}"), json!({"a": [i], "b": null}))).collect::<Map<_, _>>()),
        6 => json!({"a": wide(n / 2, 0), "b": wide(n / 2, 3)}),
        _ => Value::Array((0..n).map(|i| if i % 3 == 0 { json!(u64::MAX - i as u64) } else { json!(-(i as f64) * 1e300) }).collect()),
    }
}
fn c14_wide(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let q = WIDEQ[i as usize % WIDEQ.len()];
    let j = i as usize / WIDEQ.len();
    let kind = if cx.tier == Tier::Quick { (j * 3 + i as usize + r.below(3)) % WIDE_KINDS } else { j };
    let n = 100_000;
    let doc = wide(n, kind);
    cx.max("document width", n as u64);
    cx.sample(|| json!({"query": q, "document": format!("width {n}, kind {kind}")}));
    eval_all(cx, q, &doc, &format!("width {n} kind {kind}"), true)
}
/// long strings, names, arrays and objects compared, measured, matched and selected
const LONGV: u64 = 9;
const LONGV_N: u64 = LONGV * 4;
fn long_value(kind: u64, n: usize, twist: u64) -> Value {
    // twist: 0 as is, 1 different at the end, 2 longer, 3 different at the start
    let end = if twist == 1 { "y" } else { "x" };
    let start = if twist == 3 { "y" } else { "x" };
    let rep = |s: &str, n: usize| Value::String(format!("{start}{}{end}{}", s.repeat(n), if twist == 2 { "more" } else { "" }));
    let last = json!(if twist == 1 { 7 } else { 8 });
    let first = json!(if twist == 3 { 7 } else { 8 });
    match kind {
        0 => rep("a", n),
        1 => rep("é☺\u{10ffff}", n / 4),
        2 => rep("\n", n),
        3 => rep("1 '\\\"", n / 4),
        4 | 5 => {
            let mut v = vec![first];
            v.extend((0..if kind == 5 { n / 16 } else { n / 4 }).map(|i| match kind {
                4 => json!(i),
                _ => json!([i as f64 + 0.5, {"k": "v"}]),
            }));
            v.push(last);
            if twist == 2 {
                v.push(json!(null));
            }
            Value::Array(v)
        }
        _ => {
            let mut m = serde_json::Map::new();
            m.insert("a".into(), first);
            for i in 0..n / 8 {
                m.insert(if kind == 6 { format!("k{i:06}") } else { format!("{}{i}", "é".repeat(5)) }, json!([i]));
            }
            m.insert("zz".into(), last);
            if kind == 8 {
                m.insert("n".repeat(n), json!(1));
            }
            if twist == 2 {
                m.insert("zzz".into(), json!(null));
            }
            Value::Object(m)
        }
    }
}
fn c14_long(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let (kind, twist) = (i % LONGV, i / LONGV % 4);
    let n = 400_000 - r.below(1000);
    let (a, b) = (long_value(kind, n, 0), long_value(kind, n, twist));
    let doc = if r.pct(50) { json!([{"a": a, "b": b}]) } else { json!([{"a": b, "b": a}]) };
    let key = format!("long values kind {kind} twist {twist} size {n}");
    cx.max("size of compared values", n as u64);
    cx.sample(|| json!(key.clone()));
    for t in [
        "$[?@.a < @.b || @.b < @.a]", "$[?@.a == @.b]", "$[?@.a <= @.b && @.b >= @.a]", "$[?@.a != @.b]", "$[?@ == $[0]]", "$[?length(@.a) > length(@.b)]", "$[?match(@.a,'(a|[^b])*x')]", "$[?search(@.a,'more')]",
        "$[?count(@.a.*) != count(@.b.*)]", "$[?value(@.a) == value(@..b)]", "$..['a','b'][0,-1,'zz']", "$[?'a' < @.a]", "$[?match(@.a,'x')||search('a',@.a[0])]", "$[0]['b'][?@ == 8]",
    ] {
        eval_all(cx, t, &doc, &key, true)?;
    }
    Ok(())
}
/// nested and chained queries evaluated
fn c14_shapes(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let (k, l) = (i as usize % NESTS.len(), i as usize / NESTS.len() % NEST_LEAF.len());
    let doc = json!([[[[{"a": 1, "b": [1]}, 1]], "a"], {"a": [{"a": 1}], "b": {"a": 1}}, 1, "a"]);
    let key = doc.to_string();
    let dmax = deepest(|d| nest(k, l, d, true));
    for d in [1, 2, 7, dmax / 2, dmax] {
        let t = nest(k, l, d, true);
        if let Ok(p) = ref_std(&t, false) {
            if p.sem.is_empty() && !p.lenient && !too_much(&p.query, &doc) {
                eval_all(cx, &t, &doc, &key, true)?;
                cx.max("deepest query", levels(&t) as u64);
            }
        }
    }
    // long chains
    let ls: Vec<&Long> = LONGS.iter().filter(|l| l.4 <= 1000).collect();
    let l = r.pick(&ls);
    let t = long(l, if r.pct(30) { l.4 } else { 1 + r.below(l.4) });
    if want_std(&t) == Want::Accept {
        eval_all(cx, &t, &doc, &key, true)?;
        cx.count("chains of operands", 1);
    }
    Ok(())
}
fn c14_regex(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    const P: &[&str] = &["a", "(", ")", "[", "]", "*", "+", "?", "{", "}", "{2}", "{2,3}", "{1,}", "|", ".", "\\p{L}", "\\P{Lu}", "\\p{Zz}", "\\", "^", "$", "-", "[a-z]", "[^a]", "[z-a]", "\\n", "\\d", "\\u", "☺", "\u{10ffff}", "\n", "(?i)", "(?:", "&&", "[[", "--", "{99999}", "{1000}", "\\x41", "\\b", "\u{0}", " ", "#", "e\u{301}", "/"];
    let n = r.below(7);
    let p: String = (0..n).map(|_| *r.pick(P)).collect();
    let s: String = (0..r.below(6)).map(|_| if r.pct(60) { 'a' } else { gen::rand_char(r) }).collect();
    let doc = json!([{"s": s, "p": p}, s, p, 1, [p], {"s": p, "p": s}, {"s": 1, "p": p}, {"s": s, "p": null}]);
    let key = doc.to_string();
    for t in ["$[?match(@.s,@.p)]", "$[?search(@.s,@.p)]", "$[?search(@,$[0].p)||match(@,$[2])]", "$[?!match($[1],@.p)]"] {
        eval_all(cx, t, &doc, &key, true)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ growth

#[derive(Clone, Copy, Debug)]
struct Work {
    size: usize,
    /// grammar rule calls (pest parsers only)
    calls: u64,
    allocs: u64,
    bytes: u64,
    cpu: u64,
}
fn measure(c: Cr, t: &str, calls: bool) -> Work {
    let _ = parse_std(c, t);
    let mut w = Work { size: t.len(), calls: 0, allocs: u64::MAX, bytes: u64::MAX, cpu: u64::MAX };
    for _ in 0..3 {
        let c0 = alloc::cpu();
        let m = alloc::mark();
        let r = parse_std(c, t);
        drop(r);
        let u = m.used();
        w.cpu = w.cpu.min(alloc::cpu() - c0);
        w.allocs = w.allocs.min(u.count);
        w.bytes = w.bytes.min(u.bytes);
    }
    if calls && c != Cr::Hand {
        w.calls = rule_calls(c, t);
    }
    w
}
/// the smallest call limit under which the outcome is the one without limit (0: not measurable)
fn rule_calls(c: Cr, t: &str) -> u64 {
    let outcome = || match parse_std(c, t) {
        Ok(Ok(_)) => String::new(),
        Ok(Err(e)) => e.display,
        Err(p) => p,
    };
    let free = outcome();
    let with = |n: u64| {
        pest::set_call_limit(std::num::NonZeroUsize::new(n as usize));
        let o = outcome();
        pest::set_call_limit(None);
        o
    };
    let mut hi = 1 << 16;
    while with(hi) != free {
        hi *= 4;
        if hi > 1 << 30 {
            return 0;
        }
    }
    let mut lo = 0;
    // to within 2 %
    while hi - lo > 1 + hi / 50 {
        let m = (lo + hi) / 2;
        if with(m) == free {
            hi = m
        } else {
            lo = m
        }
    }
    hi
}
/// does the work grow faster than the square of the size?
fn growth(ws: &[Work]) -> Option<(&'static str, String)> {
    let (b, before) = ws.split_last()?;
    // Faster than the square of the size is faster from wherever it is measured: a single point
    // below the others (a text which happens to be rejected early, say) does not make a growth.
    let mut found = None;
    for a in before.iter().rev().filter(|a| a.size * 4 >= b.size || a.size == before[before.len() - 1].size) {
        found = Some(grows(a, b)?);
    }
    found
}
fn grows(a: &Work, b: &Work) -> Option<(&'static str, String)> {
    // sizes grow by a known factor
    let f = (b.size as f64 / a.size as f64).max(1.0);
    let quad = f * f;
    for (name, x, y, floor) in [("grammar rule calls", a.calls, b.calls, 3_000u64), ("allocations", a.allocs, b.allocs, 600), ("allocated bytes", a.bytes, b.bytes, 200_000)] {
        if x > 0 && y > floor && y as f64 > quad * 1.5 * x.max(floor / 16) as f64 {
            return Some((name, format!("{x} at size {}, {y} at size {}", a.size, b.size)));
        }
    }
    let x = a.cpu.max(2_000_000);
    if b.cpu as f64 > quad * 3.5 * x as f64 {
        return Some(("CPU time", format!("{} us at size {}, {} us at size {}", a.cpu / 1000, a.size, b.cpu / 1000, b.size)));
    }
    None
}
fn grow_parse(cx: &mut Cx, name: &str, sizes: &[usize], make: &dyn Fn(usize) -> String, calls: bool) -> Res {
    for c in adapt::ALL {
        let mut ws: Vec<Work> = vec![];
        for n in sizes {
            let t = make(*n);
            let c0 = alloc::cpu();
            let w = match sut(|| measure(c, &t, calls)) {
                Ok(w) => w,
                // panics are C13's
                Err(_) => break,
            };
            ws.push(w);
            cx.count("parses measured", 1);
            cx.max("grammar rule calls in one parse", w.calls);
            cx.max("allocations in one parse", w.allocs);
            cx.max("CPU microseconds of one parse", w.cpu / 1000);
            if let Some((what, d)) = growth(&ws) {
                // CPU time: confirm
                if what == "CPU time" {
                    let m = ws.len();
                    ws[m - 1] = measure(c, &t, false);
                    ws[m - 2] = measure(c, &make(sizes[m - 2]), false);
                    if growth(&ws).is_none() {
                        cx.count("CPU growth not confirmed", 1);
                        continue;
                    }
                }
                return viol(format!("{}: {what} grow faster than quadratically: {name}", c.name()), json!({"crate": c.name(), "family": name, "growth": d, "measured": format!("{ws:?}"), "query": clip(&t, 300)}));
            }
            // far from quadratic already: larger sizes would not finish
            if alloc::cpu() - c0 > 20_000_000_000 {
                break;
            }
        }
        cx.case((name, c.name()), ws.len() >= 4);
    }
    cx.sample(|| json!({"family": name, "sizes": sizes}));
    Ok(())
}
fn c22_nest(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (k, l) = (i as usize % NESTS.len(), i as usize / NESTS.len());
    let dmax = deepest(|d| nest(k, l, d, true));
    let sizes: Vec<usize> = [2, 4, 6, 8, 11, 16, 22, 32, 45, 64].into_iter().filter(|d| *d <= dmax).collect();
    let (o, c) = NESTS[k];
    let name = |w: &str| format!("{o} {} {c} nested, {w}", NEST_LEAF[l]);
    grow_parse(cx, &name("closed"), &sizes, &|d| nest(k, l, d, true), true)?;
    grow_parse(cx, &name("left open"), &sizes, &|d| nest(k, l, d, false), true)?;
    if l == 0 {
        // calls in calls
        let sz = [2, 4, 6, 8, 11, 16, 22, 32, 45, 60];
        let f = ["length(", "value(", "count(", "nosuch(", "match(@,", "length(1,", "length( (", "count(!", "length(@.a=="][k % 9];
        let cl = if f.ends_with("( (") { ") )" } else { ")" };
        let inner = |d: usize| f.repeat(d.min(if f.ends_with("( (") { 30 } else { 60 })) + "@";
        grow_parse(cx, &format!("calls of {f} nested"), &sz, &|d| format!("$[?{}{}==1]", inner(d), cl.repeat(d.min(if cl.len() > 1 { 30 } else { 60 }))), true)?;
        grow_parse(cx, &format!("calls of {f} left open"), &sz, &|d| format!("$[?{}", inner(d)), true)?;
    }
    Ok(())
}
fn c22_mixed(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    // one random sequence of constructs, cut at growing depths
    let seq: Vec<usize> = (0..64).map(|_| r.below(NESTS.len())).collect();
    let leaf = *r.pick(NEST_LEAF);
    let period = 1 + r.below(4);
    let close = r.pct(60);
    let make = |d: usize| {
        let mut s = String::from("$[?");
        for j in 0..d {
            s.push_str(NESTS[seq[j % period]].0);
        }
        s.push_str(leaf);
        if close {
            for j in (0..d).rev() {
                s.push_str(NESTS[seq[j % period]].1);
            }
            s.push(']');
        }
        s
    };
    let dmax = deepest(make);
    let sizes: Vec<usize> = (1..=10).map(|k| k * dmax / 10).filter(|d| *d > 1).collect();
    let name = format!("{:?} nested{}", (0..period).map(|j| NESTS[seq[j]].0).collect::<Vec<_>>(), if close { "" } else { ", left open" });
    grow_parse(cx, &name, &sizes, &make, true)
}
fn c22_long(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let l = &LONGS[i as usize];
    let cap = l.4.min(30_000 / (l.1.len() + l.2.len())).max(8);
    let sizes: Vec<usize> = [cap / 27, cap / 9, cap / 3, cap].into_iter().filter(|n| *n > 0).collect();
    let name = format!("{}{}{}…{}", l.0, l.1, l.2, l.3);
    grow_parse(cx, &name, &sizes, &|n| long(l, n), false)?;
    grow_parse(cx, &format!("{name} cut short"), &sizes, &|n| { let mut t = long(l, n); t.pop(); t }, false)?;
    // rule calls are bisected on shorter members of the family
    let small: Vec<usize> = [4, 12, 36, 108].into_iter().filter(|n| *n <= cap).collect();
    grow_parse(cx, &format!("{name} (short)"), &small, &|n| long(l, n), true)?;
    grow_parse(cx, &format!("{name} broken (short)"), &small, &|n| long(l, n) + "#", true)
}
const FILTER_LEAF: &[&str] = &["@", "@.a==1", "match(@,'a')", "count(@.*)>0", "@[0]||$[0]", "$[?@.zz]"];
/// evaluation of ever deeper filters on a document where every construct reaches one node at most
fn c22_filter(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (k, l, kind) = (i as usize % NESTS.len(), i as usize / NESTS.len() % FILTER_LEAF.len(), i as usize / NESTS.len() / FILTER_LEAF.len());
    let (o, c) = NESTS[k];
    if o.starts_with("$..") {
        // every level visits the whole document: not linear by definition
        return Ok(());
    }
    let make = |d: usize| format!("$[?{}{}{}]", o.repeat(d), FILTER_LEAF[l], c.repeat(d));
    let dmax = deepest(make);
    let doc = match kind {
        0 => (0..100).fold(json!(1), |d, _| json!([d])),
        1 => (0..100).fold(json!(1), |d, _| json!({"a": d})),
        2 => json!([1]),
        _ => json!({"a": {"a": 1}}),
    };
    let sizes: Vec<usize> = [2, 4, 6, 8, 11, 14, 17, 20, 23, 27, 32, 45, 64].into_iter().filter(|d| *d <= dmax).collect();
    let e = entry::envs();
    for cr in adapt::EVAL {
        for looping in [false, true] {
            if looping && cr != Cr::Serde {
                continue;
            }
            let name = if looping { "serde find_loop" } else { cr.name() };
            let mut ws: Vec<Work> = vec![];
            let once = |q: &adapt::Parsed, n: usize| {
                let mut w = Work { size: n, calls: 0, allocs: u64::MAX, bytes: u64::MAX, cpu: u64::MAX };
                for _ in 0..2 {
                    let c0 = alloc::cpu();
                    let m = alloc::mark();
                    match (looping, q) {
                        (true, adapt::Parsed::Serde(q)) => drop(q.find_loop(&doc, e.serde)),
                        _ => drop(entry::run(q, &doc, &e)),
                    }
                    let u = m.used();
                    w.cpu = w.cpu.min(alloc::cpu() - c0);
                    w.allocs = w.allocs.min(u.count);
                    w.bytes = w.bytes.min(u.bytes);
                }
                w
            };
            let mut parsed = vec![];
            for d in &sizes {
                let t = make(*d);
                // what does not parse or panics is not this property's
                let Ok(Ok(q)) = sut(|| adapt::standard(cr, &t)) else { break };
                let n = t.len();
                let Ok(w) = sut(|| once(&q, n)) else { break };
                parsed.push((q, n));
                ws.push(w);
                cx.count("filter evaluations measured", 1);
                cx.max("allocations in one evaluation", w.allocs);
                if let Some((what, dt)) = growth(&ws) {
                    let m = ws.len();
                    if what == "CPU time" {
                        for j in [m - 1, m - 2] {
                            ws[j] = once(&parsed[j].0, parsed[j].1);
                        }
                        if growth(&ws).is_none() {
                            cx.count("CPU growth not confirmed", 1);
                            continue;
                        }
                    }
                    return viol(format!("{name}: {what} grow faster than quadratically with the depth of a filter: {}", make(3)), json!({"engine": name, "query": make(3), "depth": d, "document": clip(&doc.to_string(), 200), "growth": dt, "measured": format!("{ws:?}")}));
                }
            }
            cx.case((k, l, kind, name), ws.len() >= 4);
        }
    }
    cx.sample(|| json!({"query": clip(&make(3), 200), "depths": sizes}));
    Ok(())
}
const GROWQ: &[&str] = &[
    "$[*]", "$..*", "$..a", "$..[0]", "$[?@>1]", "$..[?@.a]", "$[::-1]", "$..[?@>1]", "$[?@==$[0]]", "$[?count(@.*)>1]", "$[?length(@)>1]", "$[?match(@,'a.*')]", "$[?@.a==1||@.a==2&&!@.b]", "$[?@[?@.a]]", "$..[?@==1]", "$[0,1,*]",
    "$..['a','b']", "$[?value(@..a)==1]", "$..[::2]", "$[?@..a]", "$[?@.a&&@.b&&@[0]&&@[1]]", "$[?@.a[?@.b[?@]]]", "$..[?@==@]", "$..[*,*]",
    "$..[$.a]", "$[*][$[0]]", "$..[$[0],a,$.a[0]]", "$[?@[$[0]]]", "a[a[0]]",
];
const GROW_KINDS: usize = 7;
fn grown(kind: usize, n: usize) -> Value {
    match kind {
        0 => wide(n * 30, 0),
        1 => wide(n * 20, 1),
        2 => wide(n * 20, 5),
        3 => deep((n * 2).min(127), 2),
        4 => deep((n * 2).min(127), 1),
        5 => {
            // balanced: a, b and 0, 1 at each level
            fn tree(n: usize, k: usize) -> Value {
                if n <= 1 {
                    json!(k % 3)
                } else if k % 2 == 0 {
                    json!({"a": tree(n / 2, k + 1), "b": tree(n - n / 2, k + 3)})
                } else {
                    json!([tree(n / 2, k + 1), tree(n - n / 2, k + 3)])
                }
            }
            tree(n * 20, 0)
        }
        _ => Value::Array((0..n * 4).map(|i| Value::String("ab".repeat(n * 2 + i % 2))).collect()),
    }
}
fn c22_eval(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (q, kind) = (GROWQ[i as usize % GROWQ.len()], i as usize / GROWQ.len());
    let sizes = [2usize, 4, 8, 16, 32, 60];
    let docs: Vec<Value> = sizes.iter().map(|n| grown(kind, *n)).collect();
    type F = fn(&str, &Value) -> adapt::EvalRes;
    let engines: [(&str, F); 5] = [
        ("serde", |t, d| adapt::find(Cr::Serde, t, d)),
        ("serde find_loop", adapt::find_loop),
        ("iter", |t, d| adapt::find(Cr::Iter, t, d)),
        ("locations", |t, d| adapt::find(Cr::Loc, t, d)),
        ("singular", |t, d| adapt::find(Cr::Sing, t, d)),
    ];
    for (name, f) in engines {
        let mut ws: Vec<Work> = vec![];
        let once = |d: &Value| {
            let mut w = Work { size: gen::size(d), calls: 0, allocs: u64::MAX, bytes: u64::MAX, cpu: u64::MAX };
            for _ in 0..2 {
                let c0 = alloc::cpu();
                let m = alloc::mark();
                drop(f(q, d));
                let u = m.used();
                w.cpu = w.cpu.min(alloc::cpu() - c0);
                w.allocs = w.allocs.min(u.count);
                w.bytes = w.bytes.min(u.bytes);
            }
            w
        };
        for (j, d) in docs.iter().enumerate() {
            let w = match sut(|| once(d)) {
                Ok(w) => w,
                Err(_) => break,
            };
            ws.push(w);
            cx.count("evaluations measured", 1);
            cx.max("allocations in one evaluation", w.allocs);
            cx.max("CPU microseconds of one evaluation", w.cpu / 1000);
            if let Some((what, dt)) = growth(&ws) {
                if what == "CPU time" {
                    ws[j] = once(d);
                    ws[j - 1] = once(&docs[j - 1]);
                    if growth(&ws).is_none() {
                        cx.count("CPU growth not confirmed", 1);
                        continue;
                    }
                }
                return viol(format!("{name}: {what} grow faster than quadratically: {q}"), json!({"engine": name, "query": q, "document kind": kind, "growth": dt, "measured": format!("{ws:?}")}));
            }
        }
        cx.case((q, name, kind), ws.len() >= 4);
    }
    cx.sample(|| json!({"query": q, "document sizes": docs.iter().map(gen::size).collect::<Vec<_>>()}));
    Ok(())
}

// ------------------------------------------------------------------ unoptimised build

/// the seven crates as a plain `cargo build` makes them: no tail calls, no inlining, large frames
pub fn build_plain() -> Result<std::path::PathBuf, String> {
    let h = std::env::current_exe().unwrap().ancestors().nth(3).unwrap().to_path_buf();
    let target = h.join("target").join("plain");
    let mut c = std::process::Command::new("cargo");
    c.args(["build", "--offline"]);
    for k in ["jsonpath-rfc9535", "jsonpath_rfc9535_pest", "jsonpath_rfc9535_pest_recursive", "jsonpath_rfc9535_serde", "jsonpath_rfc9535_iter", "jsonpath_rfc9535_locations", "jsonpath_rfc9535_singular"] {
        c.args(["--config", &format!("profile.dev.package.{k}.opt-level=0")]);
    }
    let o = c.current_dir(&h).env("CARGO_TARGET_DIR", &target).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(clip(&String::from_utf8_lossy(&o.stderr), 3000));
    }
    Ok(target.join("debug/vh"))
}
/// the workload PLAIN-<id> in the unoptimised build, eight processes
pub fn plain(cov: &mut serde_json::Map<String, Value>, id: &str, seed: u64, tier: Tier) -> Vec<Value> {
    let exe = match build_plain() {
        Ok(p) => p,
        Err(e) => {
            eprintln!("unoptimised build failed, going without: {e}");
            cov.insert("unoptimised_build".into(), json!("not available: build failed"));
            return vec![];
        }
    };
    let nw = 8u64;
    let dir = std::env::temp_dir().join(format!("vh-plain-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let kids: Vec<_> = (0..nw)
        .map(|w| {
            let f = dir.join(w.to_string());
            let k = std::process::Command::new(&exe)
                .args(["range", &format!("PLAIN-{id}"), &seed.to_string(), tier_name(tier), &w.to_string(), &nw.to_string()])
                .env("VH_STACK_MB", "16")
                .env("VH_PROGRESS", &f)
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .unwrap();
            (k, f)
        })
        .collect();
    let (mut viols, mut n) = (vec![], 0);
    // one pipe at a time is enough: the children print a line each
    for (k, f) in kids {
        let o = k.wait_with_output().unwrap();
        let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        let at = std::fs::read_to_string(&f).unwrap_or_default();
        let at = at.trim().to_string();
        match serde_json::from_str::<Value>(out.trim()) {
            Ok(v) => {
                n += v["evaluations"].as_u64().unwrap_or(0);
                for b in v["bad"].as_array().into_iter().flatten() {
                    viols.push(json!({"sig": format!("unoptimised build: {}", b["sig"].as_str().unwrap_or("")), "stage": "unoptimised build", "index": 0, "detail": b}));
                }
            }
            Err(_) => viols.push(json!({"sig": format!("unoptimised build: the process died ({}) at {at}", o.status), "stage": "unoptimised build", "index": 0, "detail": {"stderr": clip(&err, 3000), "case (stage index)": at, "rerun": format!("VH_STACK_MB=16 {} one PLAIN-{id} {seed} {} STAGE INDEX", exe.display(), tier_name(tier))}})),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    cov.insert("unoptimised_build".into(), json!({"processes": nw, "calls": n, "reports": viols.len(), "stack": "16 MiB"}));
    viols
}
