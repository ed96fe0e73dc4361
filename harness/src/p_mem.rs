//! C20: memory. Live bytes are read from the counting allocator.
use crate::adapt::{self, Cr, Got, Parsed, ALL, EVAL};
use crate::alloc;
use crate::entry::{self, envs, positions, same, show};
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::p_parse::{gen_edited, gen_valid};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::process::{Command, Stdio};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C20" => Prop {
            id: "C20",
            rule: "live heap bytes (counting allocator) over consecutive blocks of hundreds of ever-new queries, patterns and failing inputs per crate and kind of operation, results dropped whole, partly, in any order, or after query and parser; a block may not keep growing memory; nodes read after query, parser, environment and text are gone; bytes per node of shared locations at growing depths and widths; the reading and dropping also under AddressSanitizer; non-trivial: every block of operations",
            assumptions: &["growth must repeat in four consecutive blocks after warm-up to count", "live bytes of one process with one active thread"],
            stages: vec![
                solo("growth", (KINDS.len() * ALL.len()) as u64, (KINDS.len() * ALL.len() * 4) as u64, growth),
                solo("mixed growth", 64, 480, mixed_growth),
                solo("sharing", (SHAREQ.len() * 2) as u64, (SHAREQ.len() * 2 * 4) as u64, sharing),
                solo("long lists", 12, 60, long_lists),
                stage("outlive", 12_000, 150_000, outlive),
            ],
        },
        // workloads for the sanitizer builds
        "SAN-eval" => Prop {
            id: "SAN-eval",
            rule: "",
            assumptions: &[],
            stages: vec![stage("outlive", 400, 8_000, outlive), stage("lists", 300, 8_000, crate::p_list::histories), stage("evaluate", 1_000, 30_000, san_eval), stage("parse", 600, 20_000, san_parse)],
        },
        _ => return None,
    })
}

// ------------------------------------------------------------------ growth

/// kinds of repeated operations; k makes every text new
const KINDS: &[&str] = &[
    "valid queries", "filter queries", "syntax errors", "type errors", "deep errors", "evaluate", "evaluate filters", "evaluate partly", "match", "search", "invalid patterns", "patterns from documents",
    "new threads", "descend", "functions", "missing", "Display", "same query", "new names", "new names selected", "new names filtered", "new values compared", "new names in paths", "new query texts", "deep documents",
    "lexical errors", "unknown names", "ill-typed calls", "empty ranges", "reversed counts", "oversized patterns", "subjects of all types",
    "new environments", "new parser errors", "new embedded queries",
];
fn text(kind: usize, k: u64) -> String {
    // texts of equal length
    let k = format!("{:07}", k % 10_000_000);
    let (k1, k2) = (format!("9{k}"), &k);
    match KINDS[kind] {
        "valid queries" => format!("$.a{k}['b{k}'][{k1}, *, {k1}:-{k1}:3]..c"),
        "filter queries" => format!("$[?@.a{k} == 'x{k2}' && (!@['b'] || $.c[{k1}] < {k1}.5) || count(@..*) >= {k1}]"),
        "syntax errors" => format!("$.a{k}['b{k}'][?@.c == 'd' && (@.e < {k1}]"),
        "type errors" => format!("$.a{k}[?length(@.a{k}) == 1 && count({k1}) > 1]"),
        "deep errors" => format!("$[?((@.a{k}[?(@.b && length(value(@.c{k})) > 'x"),
        "evaluate" | "evaluate partly" | "same query" => "$.list[*,1:3]['a','b']".into(),
        "evaluate filters" => format!("$.list[?@.a != {k1} || @.b == 'k{k2}']['a','b']"),
        "match" => format!("$.list[?match(@.b,'(x|y)*padding-padding-padding-padding-padding{k}')]"),
        "search" => format!("$.list[?search(@.b,'[xy]+padding-padding-padding-padding-padding{k}')]"),
        "invalid patterns" => format!("$.list[?search(@.b,'padding-padding-padding-padding-padding-{k}(') || match(@.b,'padding-padding-padding-padding-padding-{k}[')]"),
        // well-formed I-Regexps that cannot be compiled
        "empty ranges" => format!("$.list[?search(@.b,'padding-padding-padding-padding-padding-{k}[z-a]') || match(@.b,'padding-padding-padding-padding-padding-{k}[9-0]') || search(@.b,@.q) || match(@.b,@.q)]"),
        "reversed counts" => format!("$.list[?search(@.b,'padding-padding-padding-padding-padding-{k}x{{9,2}}') || match(@.b,'padding-padding-padding-padding-padding-{k}y{{5,1}}') || match(@.b,@.r) || search(@.b,@.r)]"),
        "oversized patterns" => format!("$.list[?search(@.b,'padding-padding-padding-padding-padding-{k}(x{{999}}){{999}}{{999}}') || match(@.b,'padding-padding-padding-padding-padding-{k}x{{99999999999}}')]"),
        "subjects of all types" => format!("$.list[?search({k1},'padding-padding-padding-padding-padding-{k}') || match(@.a,'padding-padding-padding-padding-padding-{k}') || match(@.b,{k1}) || search('padding-padding-padding-padding-padding-{k}',@.a)]"),
        "patterns from documents" => "$.list[?match(@.b,@.p) || search(@.b,@.p)]".into(),
        "new threads" => format!("$.list[?match(@.b,'[a-c]*{k}')]"),
        "descend" => format!("$..*..['a','k{k2}']"),
        "functions" => format!("$.list[?length(@.b) < {k1} && count(@.*) == 3 && value(@['a','k{k2}']) == 1]"),
        "new names" => "$..*".into(),
        "new names selected" => format!("$..['name{k}', 'member-member-member-member-member-member{k}']..*"),
        "new names filtered" => format!("$..[?@.name{k} || @..['member-member-member-member-member-member{k}'] == 1 || count(@..*) > {k1}]"),
        "new values compared" => "$..[?@ == $.first || @.a < $.first || length(@) == length($.first) || @ == $.last]".into(),
        "new names in paths" => "$.*..*".into(),
        "new query texts" => format!("$.o['name{k}','{k}',{k1},-{k1}:{k1}:{k1}]"),
        "deep documents" => format!("$..['name','k{k2}'][?@ || @.k{k2}]"),
        "lexical errors" => {
            let w = format!("padding-padding-padding-padding-padding{k}");
            match k1.as_bytes()[k1.len() - 1] % 5 {
                0 => format!("$[?@ == nope_{k}]"),
                1 => format!("$.a['{w}"),
                2 => format!("$['{w}\\q']"),
                3 => format!("$.a #{w}"),
                _ => format!("$[?@.b == 'c' {w}]"),
            }
        }
        "unknown names" => {
            let w = format!("padding_padding_padding_padding_padding{k}");
            match k1.as_bytes()[k1.len() - 1] % 4 {
                0 => format!("$[?{w}(@)]"),
                1 => format!("$[?{w}() == 1]"),
                2 => format!("$[?length({w}(@.a)) == 1]"),
                _ => format!("$[?@.a == {w}(@.*, 'x')]"),
            }
        }
        "ill-typed calls" => {
            let w = format!("padding_padding_padding_padding_padding{k}");
            match k1.as_bytes()[k1.len() - 1] % 5 {
                0 => format!("$[9{k}99999999999999999999999999999999999999]"),
                1 => format!("$[?@..{w} == '{w}']"),
                2 => format!("$[?match(@.{w}) || count('{w}') == 1]"),
                3 => format!("$[?length(@.{w}, '{w}') == 1]"),
                _ => format!("$[?'{w}']"),
            }
        }
        "new embedded queries" => format!("$.o[$.key]..[last.name{k}[0], $.key, $['first'], $.l[-1], $.none{k}]"),
        "new environments" => format!("$.list[?match(@.b,'[xy]+padding-padding{k}') || search(@.b,@.p) || count(@..*) == length(@.b)]"),
        "new parser errors" => format!("$.list[?own_{k}(@.a) || !own_{k}(@.b) && length(@.c) == {k1}]"),
        "missing" => format!("$.none{k}[?@.a].b"),
        "Display" => format!("$.a{k}['\\'{k}']..[?!(@.a{k} == 1) || $..*][{k1}:2]"),
        _ => unreachable!(),
    }
}
/// every name, string and number is new
fn fresh_doc(k: u64) -> Value {
    let k = format!("{:07}", k % 10_000_000);
    let (a, b) = (format!("name{k}"), format!("member-member-member-member-member-member{k}"));
    let (s, n): (String, i64) = (format!("string-string-string-string-string-{k}"), format!("9{k}").parse().unwrap());
    json!({"o": {a.clone(): {b.clone(): [n, {a.clone(): s}]}, b.clone(): 1}, "l": [{a.clone(): n}, {b.clone(): {b.clone(): s}}, s, n], "first": s, "key": a.clone(), "last": {a: [s, n]}})
}
/// the lazy iterator dropped before its end
fn read_partly(t: &str, d: &Value, n: usize) {
    if let Ok(mut it) = jsonpath_rfc9535_iter::find(t, d) {
        drop(it.by_ref().take(n).collect::<Vec<_>>());
        drop(it);
    }
}
fn block(c: Cr, kind: usize, from: u64, n: u64) {
    for k in from..from + n {
        let t = text(kind, k);
        match KINDS[kind] {
            "valid queries" | "filter queries" | "syntax errors" | "type errors" | "deep errors" | "lexical errors" | "unknown names" | "ill-typed calls" => {
                drop(adapt::standard(c, &t).map_err(|e| (e.display, e.msg)))
            }
            "Display" => drop(adapt::standard(c, &t).map(|p| (p.display(), p.debug()))),
            "evaluate partly" if c == Cr::Iter => {
                let d = list(k);
                let mut it = jsonpath_rfc9535_iter::find(&t, &d).unwrap();
                let kept: Vec<_> = it.by_ref().take(k as usize % 5).collect();
                if k % 2 == 0 {
                    drop(it);
                }
                drop(kept);
            }
            "evaluate partly" => {
                // query gone first, then half the nodes, then the rest
                let d = list(k);
                match adapt::standard(c, &t) {
                    Ok(Parsed::Loc(q)) => {
                        let mut n = q.find(&d, envs().loc);
                        drop(q);
                        n.truncate(3);
                        let l: Vec<_> = n.iter().map(|n| n.location.append(jsonpath_rfc9535_locations::node::PathElement::Index(1))).collect();
                        drop(n);
                        drop(l);
                    }
                    Ok(Parsed::Sing(q)) => {
                        let mut n = q.find(&d, envs().sing);
                        drop(q);
                        n.truncate(3);
                        drop(n);
                    }
                    Ok(Parsed::Serde(q)) => {
                        let mut n = q.find_loop(&d, envs().serde).unwrap();
                        drop(q);
                        n.remove(0);
                        drop(n);
                    }
                    _ => {}
                }
            }
            "new threads" => {
                let d = list(k);
                std::thread::scope(|s| drop(s.spawn(|| drop(adapt::find(c, &t, &d))).join()));
            }
            "deep documents" => {
                if k % 10 == 0 {
                    let (d, path) = chain(90, k as usize, list(k));
                    drop(adapt::find(c, &t, &d));
                    drop(adapt::find(c, &format!("${path}..*"), &d));
                }
            }
            "new environments" => {
                // three crates ask for a 'static environment: lent, then taken back
                fn lend<E: 'static>(e: E, f: impl FnOnce(&'static E)) {
                    let p = Box::into_raw(Box::new(e));
                    f(unsafe { &*p });
                    drop(unsafe { Box::from_raw(p) });
                }
                let d = list(k);
                let (t, d) = (&t, &d);
                match c {
                    Cr::Serde => lend(jsonpath_rfc9535_serde::env::Environment::new(), |e| drop(e.find(t, d).map(adapt::got_serde))),
                    Cr::Iter => lend(jsonpath_rfc9535_iter::env::Environment::new(), |e| drop(e.find(t, d).map(adapt::got_iter))),
                    Cr::Loc => lend(jsonpath_rfc9535_locations::env::Environment::new(), |e| drop(e.find(t, d).map(adapt::got_loc))),
                    Cr::Sing => lend(jsonpath_rfc9535_singular::env::Environment::new(), |e| drop(e.find(t, d).map(adapt::got_sing))),
                    _ => {}
                }
            }
            "new parser errors" => {
                let mut p = adapt::parser(c);
                if k % 2 == 0 {
                    p.add(&format!("own_{:07}", k % 10_000_000), &(vec![Ty::Value], Ty::Logical));
                }
                drop(p.parse(&t).map_err(|e| (e.display, e.msg)));
            }
            "same query" => {
                let d = list(0);
                drop(adapt::find(c, &t, &d));
            }
            "new names in paths" => {
                let d = fresh_doc(k);
                let t = &t;
                match c {
                    Cr::Loc => drop(jsonpath_rfc9535_locations::find(t, &d).map(|n| n.iter().map(|n| format!("{:?}", n.location)).collect::<Vec<_>>())),
                    Cr::Sing => drop(jsonpath_rfc9535_singular::find(t, &d).map(|n| n.iter().map(|n| format!("{:?}", n.location)).collect::<Vec<_>>())),
                    _ => drop(adapt::find(c, t, &d)),
                }
            }
            k0 => {
                let d = if k0.starts_with("new ") { fresh_doc(k) } else { list(k) };
                if c == Cr::Iter && k % 2 == 1 {
                    read_partly(&t, &d, k as usize / 2 % 4)
                } else if c == Cr::Serde && k % 3 == 1 {
                    drop(adapt::find_loop(&t, &d))
                } else {
                    drop(adapt::find(c, &t, &d))
                }
            }
        }
    }
}
fn list(k: u64) -> Value {
    let k = format!("{:07}", k % 10_000_000);
    json!({"list": [
        {"a": 1, "b": format!("xypadding-padding-padding-padding-padding{k}"), "p": format!("[xy]+padding-padding-padding-padding-padding{k}")},
        {"a": 2, "b": format!("k{k}"), "p": format!("[xy]+padding-padding-padding-padding-padding{k}.")},
        {"a": 3, "b": "b", "p": format!("[xy]+padding-padding-padding-padding-padding{k}("), "q": format!("padding-padding-padding-padding-padding{k}[y-x]"), "r": format!("padding-padding-padding-padding-padding{k}x{{7,3}}")},
    ], "x": [[1, [2]], {"y": {"a": 1}}]})
}
const BLOCK: u64 = 500;
/// bytes a block of BLOCK operations may add again and again: less than two words per operation
const TOLERANCE: i64 = 4_096;
fn judge(mut run: impl FnMut(u64)) -> (Vec<i64>, bool) {
    // warm-up: lazily built tables, caches up to their bound
    run(0);
    run(1);
    let mut lives = vec![alloc::live()];
    let mut grew = 0;
    for b in 2..12 {
        run(b);
        let l = alloc::live();
        lives.push(l);
        let d = l - lives[lives.len() - 2];
        if d <= TOLERANCE {
            // not above the start: nothing accumulates
            if l - lives[0] <= TOLERANCE {
                return (lives, true);
            }
            grew = 0;
        } else {
            grew += 1;
            if grew >= 4 {
                return (lives, false);
            }
        }
    }
    (lives, true)
}
fn growth(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let kind = i as usize % KINDS.len();
    let c = ALL[i as usize / KINDS.len() % ALL.len()];
    let parses = KINDS[kind].ends_with("errors") || matches!(KINDS[kind], "Display" | "unknown names" | "ill-typed calls");
    if kind >= 5 && !parses && !EVAL.contains(&c) {
        return Ok(());
    }
    let base = cx.seed.wrapping_mul(1_000_003).wrapping_add(i * 50_000) % 5_000_000;
    let n = if KINDS[kind] == "new threads" { BLOCK / 2 } else { BLOCK };
    let ran = sut(|| judge(|b| block(c, kind, base + b * n, n)));
    let Ok((lives, ok)) = ran else {
        cx.count("panicked (not judged here)", 1);
        return Ok(());
    };
    cx.case((c, kind, i), true);
    cx.count("operations", n * (lives.len() as u64 + 1));
    cx.max("final growth of live bytes", (lives[lives.len() - 1] - lives[0]).max(0) as u64);
    cx.sample(|| json!({"crate": c.name(), "kind": KINDS[kind], "example": text(kind, base), "live bytes after blocks": lives}));
    if !ok {
        return viol(
            format!("{}: live memory keeps growing: {}", c.name(), KINDS[kind]),
            json!({"crate": c.name(), "kind": KINDS[kind], "example": text(kind, base), "operations per block": n, "live bytes after blocks": lives}),
        );
    }
    Ok(())
}
/// random valid, invalid and evaluated queries: everything is released
fn mixed_growth(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = 250;
    let seed = r.next();
    // the same number of operations from the same distribution; long-run growth shows a leak
    let ran = sut(|| {
        judge(|b| {
            let mut r = Rng::new(seed ^ (b + 1).wrapping_mul(0x9E3779B97F4A7C15));
            for _ in 0..n {
                if r.pct(50) {
                    let t = gen_edited(&mut r);
                    drop(adapt::standard(*r.pick(&ALL), &t));
                } else {
                    let cfg = Cfg { calls: 0, ..Cfg::std() };
                    let q = gen::query(&mut r, &cfg, Root::Abs, 0);
                    let t = gen::print_plain(&q);
                    let d = gen::guided_doc(&mut r, &q, 20);
                    if too_much(&q, &d) {
                        continue;
                    }
                    if r.pct(15) {
                        read_partly(&t, &d, r.below(4));
                    } else {
                        drop(adapt::find(*r.pick(&EVAL), &t, &d));
                    }
                }
            }
        })
    });
    let Ok((lives, ok)) = ran else { return Ok(()) };
    cx.case(("mixed", i), true);
    cx.count("operations", n * (lives.len() as u64 + 1));
    if !ok {
        return viol("live memory keeps growing: mixed operations", json!({"live bytes after blocks": lives}));
    }
    Ok(())
}

// ------------------------------------------------------------------ shared locations

const SHAREQ: &[&str] = &["leaf[*]", "leaf[?@.a >= 0]", "leaf[::2]", "leaf[0, 1:, *]", "leaf.*['a','b']", "..*", "..a", "leaf..*", "..[?@.a]", "leaf[*,*,*].a"];
fn chain(depth: usize, kind: usize, leaf: Value) -> (Value, String) {
    let mut v = leaf;
    let mut path = vec![];
    for k in 0..depth {
        if (kind + k) % 2 == 0 {
            v = Value::Object(Map::from_iter([("name".to_string(), v)]));
            path.push(".name".to_string());
        } else {
            v = json!([v]);
            path.push("[0]".to_string());
        }
    }
    path.reverse();
    (v, path.concat())
}
fn sharing(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let k = i as usize % SHAREQ.len();
    let c = [Cr::Loc, Cr::Sing][i as usize / SHAREQ.len() % 2];
    let q = SHAREQ[k];
    let w = 600 + r.below(600);
    let mut rows = vec![];
    let mut first: Option<(f64, f64)> = None;
    for depth in [2usize, 30, 60, 110] {
        let leaf = Value::Array((0..w).map(|i| json!({"a": i, "b": [i]})).collect());
        let (d, path) = chain(depth, k, json!({"leaf": leaf}));
        let t = if q.starts_with("..") { format!("${q}") } else { format!("${path}.{q}") };
        // once to warm up
        let warm = match sut(|| adapt::find(c, &t, &d).map(|v| v.len())) {
            Ok(Ok(n)) => n,
            _ => return Ok(()),
        };
        if warm == 0 {
            continue;
        }
        let m = alloc::mark();
        let (n, live, peak) = match c {
            Cr::Loc => {
                let nodes = jsonpath_rfc9535_locations::find(&t, &d).unwrap();
                let u = m.used();
                (nodes.len(), u.live, u.peak)
            }
            _ => {
                let nodes = jsonpath_rfc9535_singular::find(&t, &d).unwrap();
                let u = m.used();
                (nodes.len(), u.live, u.peak)
            }
        };
        // per selected node, after what the chain itself costs (a constant number of bytes per level)
        let chain_cost = 400.0 * depth as f64;
        let (pl, pp) = ((live as f64 - chain_cost).max(0.0) / n as f64, (peak as f64 - 4.0 * chain_cost).max(0.0) / n as f64);
        rows.push(json!({"depth": depth, "nodes": n, "live bytes": live, "peak bytes": peak}));
        cx.case((c, k, depth, w), true);
        cx.count("nodes measured", n as u64);
        cx.max("live bytes per node", pl as u64);
        match first {
            None => first = Some((pl, pp)),
            Some((l0, p0)) => {
                let what = if pl > 2.0 * l0 + 100.0 {
                    "bytes kept per node"
                } else if pp > 2.5 * p0 + 400.0 {
                    "peak bytes per node"
                } else {
                    continue;
                };
                return viol(format!("{}: {what} grow with depth: {q}", c.name()), json!({"crate": c.name(), "query": t.chars().rev().take(60).collect::<String>().chars().rev().collect::<String>(), "selection": q, "measured": rows}));
            }
        }
    }
    cx.sample(|| json!({"crate": c.name(), "selection": q, "measured": rows}));
    // width: bytes per node do not grow with the number of nodes either
    Ok(())
}

/// locations of very deep nodes: built level by level, shared, dropped in any order on a small stack
fn long_lists(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let c = [Cr::Loc, Cr::Sing][i as usize % 2];
    let depth = if i < 6 { 100_000 } else { 60 + r.below(300) };
    let kind = i as usize / 2 % 3;
    macro_rules! go {
        ($m:ident) => {{
            use $m::node::PathElement;
            let d = json!({"a": [[1], {"b": 2}]});
            let nodes = $m::find("$..*", &d).unwrap();
            let mut locs: Vec<_> = nodes.iter().map(|n| n.location.append(PathElement::Index(0))).collect();
            drop(nodes);
            let mut l = locs.pop().unwrap();
            for k in 0..depth {
                l = l.append(if kind == 1 && k % 2 == 0 { PathElement::Name("name".into()) } else { PathElement::Index(k) });
                if kind == 2 && k % 1000 == 0 {
                    locs.push(l.clone());
                }
            }
            if kind == 2 {
                drop(l);
                while !locs.is_empty() {
                    let n = locs.len();
                    locs.swap_remove((n * 7 / 11) % n);
                }
            } else {
                drop(locs);
                drop(l);
            }
        }};
    }
    let run = move || {
        alloc::on_stack(2 << 20, move || match c {
            Cr::Loc => go!(jsonpath_rfc9535_locations),
            _ => go!(jsonpath_rfc9535_singular),
        })
    };
    run();
    let before = alloc::live();
    for _ in 0..3 {
        run();
    }
    let left = alloc::live() - before;
    cx.case((c, depth, kind, i), true);
    cx.count("list elements built and dropped", 4 * depth as u64);
    cx.max("live bytes left by long lists", left.max(0) as u64);
    if left > 3 * 4_096 {
        return viol(format!("{}: long location lists are not released", c.name()), json!({"crate": c.name(), "elements": depth, "kind": kind, "live bytes left after three rounds": left}));
    }
    Ok(())
}

// ------------------------------------------------------------------ results outlive what made them

fn churn(r: &mut Rng) {
    // reuse of freed memory
    let v: Vec<Vec<u8>> = (0..20).map(|_| vec![0xA5u8; 8 + r.below(200)]).collect();
    let s: Vec<String> = (0..20).map(|k| "\u{3b1}".repeat(k)).collect();
    std::hint::black_box((v, s));
}
fn outlive(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let own = r.pct(20);
    let (q, t, d) = if own {
        crate::p_sing::ext_or_implicit(r, 30)
    } else {
        let (q, t) = gen_valid(r);
        let d = gen::guided_doc(r, &q, 30);
        (q, t, d)
    };
    if too_much(&q, &d) {
        cx.count("skipped: too much work", 1);
        return Ok(());
    }
    for c in EVAL.into_iter().filter(|c| !own || *c == Cr::Sing) {
        let Ok(want) = sut(|| entry::find_by(c, &t, &d)) else { continue };
        let n = want.as_ref().map(|v| v.len()).unwrap_or(0);
        cx.case((c, &t, d.to_string()), n > 0);
        let keep: Vec<bool> = (0..n).map(|_| r.pct(50)).collect();
        let mut r2 = Rng::new(r.next());
        let kept: Option<Vec<Got>> = want.as_ref().ok().map(|v| v.iter().zip(&keep).filter(|(_, k)| **k).map(|(g, _)| g.clone()).collect());
        let got = sut(|| -> Result<Vec<Got>, String> {
            // everything that made the nodes goes away before they are looked at
            let mut text = t.clone();
            let parser = adapt::parser(c);
            let query = parser.parse(&text).map_err(|e| e.display)?;
            drop(parser);
            macro_rules! rest {
                ($nodes:expr, $conv:expr) => {{
                    let nodes = $nodes;
                    drop(query);
                    text.clear();
                    text.push_str(&"#".repeat(t.len()));
                    churn(&mut r2);
                    let mut k = keep.iter();
                    let nodes: Vec<_> = nodes.into_iter().filter(|_| *k.next().unwrap_or(&true)).collect();
                    churn(&mut r2);
                    Ok($conv(nodes))
                }};
            }
            match &query {
                Parsed::Serde(q) => {
                    // the environment is a temporary too
                    let env = jsonpath_rfc9535_serde::env::Environment::new();
                    let nodes = if entry::loops(c, &t) { q.find_loop(&d, &env) } else { q.find(&d, &env) }.map_err(|e| e.to_string())?;
                    drop(env);
                    rest!(nodes, adapt::got_serde)
                }
                Parsed::Iter(q) => {
                    let nodes: Vec<_> = jsonpath_rfc9535_iter::iter::QueryIter::new(envs().iter, &d, q.clone()).collect();
                    rest!(nodes, |v: Vec<_>| adapt::got_iter(v.into_iter()))
                }
                Parsed::Loc(q) => {
                    let nodes = q.find(&d, envs().loc);
                    rest!(nodes, adapt::got_loc)
                }
                Parsed::Sing(q) => {
                    let nodes = q.find(&d, envs().sing);
                    rest!(nodes, adapt::got_sing)
                }
                _ => unreachable!(),
            }
        });
        cx.count("nodes read after their makers were dropped", n as u64);
        let (Ok(got), Some(kept)) = (got, kept) else { continue };
        if !same(&Ok(kept.clone()), &got) {
            let pos = positions(&d);
            return viol(
                format!("{}: nodes change when query and parser are dropped: {}", c.name(), clip(&t, 200)),
                json!({"crate": c.name(), "query": t, "document": doc_text(&d), "want": clip(&show(&Ok(kept), &pos), 1200), "got": clip(&show(&got, &pos), 1200)}),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ sanitizer builds

fn san_eval(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let cfg = Cfg { filters: 40, calls: 40, hostile: 40, big_ints: 20, ..Cfg::std() };
    let (q, t, d) = if r.pct(15) {
        crate::p_sing::ext_or_implicit(r, 40)
    } else {
        let q = gen::query(r, &cfg, Root::Abs, 0);
        let st = Style::random(r);
        let t = gen::print(&q, r, st);
        let d = gen::guided_doc(r, &q, 40);
        (q, t, d)
    };
    if too_much(&q, &d) {
        return Ok(());
    }
    let pos = positions(&d);
    for c in EVAL {
        if let Ok(es) = sut(|| entry::entries(c, &t, &d, &envs())) {
            for (_, e) in es {
                std::hint::black_box(show(&e, &pos));
            }
        }
        cx.case((c, &t, d.to_string()), true);
    }
    Ok(())
}
fn san_parse(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = match r.below(6) {
        5 => crate::p_sing::ext_text(r),
        0 => gen_valid(r).1,
        1 => crate::p_parse::gen_corpus(r),
        2 => gen::soup(r),
        3 => gen::rand_string(r),
        _ => gen_edited(r),
    };
    for c in ALL {
        if let Ok(p) = sut(|| adapt::standard(c, &t)) {
            std::hint::black_box(entry::show_parse(&p));
        }
        cx.case((c, &t), true);
    }
    let _ = sut(|| std::hint::black_box(format!("{:?}", jsonpath_rfc9535::lexer::tokenize(&t))));
    Ok(())
}
/// run the SAN-eval workload in an AddressSanitizer build
pub fn asan(cov: &mut Map<String, Value>, seed: u64, tier: Tier) -> Vec<Value> {
    let exe = match crate::p_conc::sanitized("address") {
        Ok(p) => p,
        Err(e) => {
            eprintln!("AddressSanitizer build failed, going without: {e}");
            cov.insert("address_sanitizer".into(), json!("not available: build failed"));
            return vec![];
        }
    };
    let nw = 8u64;
    let kids: Vec<_> = (0..nw)
        .map(|w| {
            Command::new(&exe)
                .args(["range", "SAN-eval", &seed.to_string(), tier_name(tier), &w.to_string(), &nw.to_string()])
                .env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=0:exitcode=99")
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    let mut viols = vec![];
    let mut n = 0;
    for k in kids {
        let o = k.wait_with_output().unwrap();
        let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        if let Some(p) = err.find("AddressSanitizer") {
            let what = err[p..].lines().next().unwrap_or("").split(" on address").next().unwrap_or("").to_string();
            let site = err[p..].lines().find(|l| l.contains("jsonpath_rfc9535")).unwrap_or("").trim().to_string();
            viols.push(json!({"sig": format!("{what} {}", clip(&site, 160)), "stage": "AddressSanitizer", "index": 0, "detail": {"report": clip(&err[p..], 4000)}}));
        } else if let Ok(v) = serde_json::from_str::<Value>(out.trim()) {
            n += v["evaluations"].as_u64().unwrap_or(0);
        } else {
            viols.push(json!({"sig": format!("under AddressSanitizer: the process died ({})", o.status), "stage": "AddressSanitizer", "index": 0, "detail": {"stderr": clip(&err, 3000)}}));
        }
    }
    cov.insert("address_sanitizer".into(), json!({"processes": nw, "calls": n, "reports": viols.len()}));
    viols
}
/// subcommand: cases w, w+nw, ... of every stage, without judging
pub fn range(prop: Prop, seed: u64, tier: Tier, w: u64, nw: u64) -> i32 {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut cx = Cx { seed, tier, st: Stats::default(), stage: "", verbose: false };
            let mut bad: Vec<Value> = vec![];
            let log = std::env::var("VH_PROGRESS").ok();
            for (si, s) in prop.stages.iter().enumerate() {
                cx.stage = s.name;
                let mut i = w;
                while i < s.n(tier) {
                    let mut rng = case_rng(seed, s.name, i);
                    if let Some(l) = &log {
                        let _ = std::fs::write(l, format!("{si} {i}"));
                    }
                    if let Err(v) = (s.f)(&mut cx, i, &mut rng) {
                        if bad.len() < 3 {
                            bad.push(json!({"sig": v.sig, "detail": v.detail, "stage": s.name, "index": i}));
                        }
                    }
                    i += nw;
                }
            }
            println!("{}", json!({"evaluations": cx.st.evaluations, "bad": bad}));
        })
        .unwrap()
        .join()
        .map(|_| 0)
        .unwrap_or(70)
}
