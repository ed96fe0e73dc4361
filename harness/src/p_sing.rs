//! C18: the singular crate's embedded queries and implicit root.
use crate::adapt::{self, Cr};
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::p_parse::{self, corpus, gen_edited, model_of, parse_std, shrink_text, want, Want};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::{json, Map, Value};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C18" => Prop {
            id: "C18",
            rule: "queries with embedded singular queries and without a leading $ (generated, mutated, enumerated small), parsed and evaluated by the singular crate; acceptance, syntax tree and nodelist are compared with the independent parser and evaluator extended by the README's selector; standard queries are compared with their standard meaning and with the locations crate; non-trivial: the query uses an extension, or the nodelist is non-empty",
            assumptions: &["an embedded query that yields an integral float (1.0) is not judged; an integer beyond the array selects nothing", "an implicit-root query starts with a name or a bracketed selection"],
            stages: vec![
                stage("evaluate embedded", 120_000, 800_000, eval_sub),
                stage("long", 3_000, 40_000, long_sub),
                stage("resolution table", (KEYS.len() * TARGETS.len()) as u64, (KEYS.len() * TARGETS.len()) as u64, table),
                stage("implicit root", 60_000, 300_000, implicit),
                stage("accept edited", 240_000, 1_500_000, accept_edited),
                stage("accept tokens", 180_000, 1_000_000, accept_soup),
                stage("accept small", small_size(), small_size(), accept_small),
                stage("meaning", 72_000, 400_000, meaning),
                stage("standard", 60_000, 300_000, standard),
            ],
        },
        _ => return None,
    })
}

pub fn has_sub(q: &Query) -> bool {
    q.segs.iter().any(|s| {
        s.sels.iter().any(|x| match x {
            Sel::Sub(_) => true,
            Sel::Filter(e) => format!("{e:?}").contains("Sub("),
            _ => false,
        })
    })
}
/// documents whose strings and integers are names and positions in the same document
pub fn self_doc(r: &mut Rng, depth: usize, hostile: u64) -> Value {
    if depth == 0 || r.pct(20) {
        return match r.below(12) {
            0..=4 => json!(gen::name(r, hostile)),
            5..=8 => json!(r.range(-3, 4)),
            9 if r.pct(50) => json!(1.5),
            9 => r.pick(&[json!(u64::MAX), json!(u64::MAX - 1), json!(i64::MAX as u64 + 1), json!(i64::MIN), json!(i64::MAX), json!(1u64 << 32), json!(-(1i64 << 32))]).clone(),
            10 => Value::Null,
            _ => json!(true),
        };
    }
    if r.pct(60) {
        let mut m = Map::new();
        for _ in 0..1 + r.below(4) {
            m.insert(gen::name(r, hostile), self_doc(r, depth - 1, hostile));
        }
        Value::Object(m)
    } else {
        Value::Array((0..r.below(5)).map(|_| self_doc(r, depth - 1, hostile)).collect())
    }
}
fn eval_sub(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let hostile = if r.pct(30) { 40 } else { 0 };
    let (q, t, d) = ext_case(r, hostile);
    cx.count("queries with embedded queries", has_sub(&q) as u64);
    check_eval(cx, &q, &t, &d, &[Cr::Sing])
}
/// many embedded queries in a row, of many segments, with long keys
fn long_sub(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let child = |s: Sel| Seg { desc: false, sels: vec![s] };
    let name = |n: &str| Sel::Name(n.into());
    let abs = |segs: Vec<Seg>| Query { root: Root::Abs, segs };
    let n = 1 + match r.below(3) {
        0 => r.below(10),
        1 => 14 + r.below(22),
        _ => r.below(70),
    };
    let (q, d) = match i % 5 {
        0 | 1 => {
            // a way down that is spelled out by other members of the document
            let mut v = json!([1]);
            let mut m = serde_json::Map::new();
            let wrong = if r.pct(30) { r.below(n) } else { n };
            for k in (0..n).rev() {
                let key = gen::name(r, 30);
                let (i, len) = (r.below(4), 4);
                let as_name = r.pct(50);
                v = if as_name {
                    json!({ key.as_str(): v, "other": k })
                } else {
                    let mut a: Vec<Value> = (0..len).map(|x| json!(x)).collect();
                    a[i] = v;
                    Value::Array(a)
                };
                let way = if as_name {
                    json!(key)
                } else if r.pct(50) {
                    json!(i)
                } else {
                    json!(i as i64 - len as i64)
                };
                m.insert(format!("k{k}"), if k == wrong { r.pick(&[json!("no"), json!(9), json!(-5), json!(true), json!(0.5), json!([way])]).clone() } else { way });
            }
            m.insert("t".into(), v);
            let desc = r.pct(10);
            let mut segs = vec![child(name("t"))];
            segs.extend((0..n).map(|k| Seg { desc: desc && k == n / 2, sels: vec![Sel::Sub(abs(vec![child(name(&format!("k{k}")))]))] }));
            (abs(segs), Value::Object(m))
        }
        2 => {
            // a long path to the key, through members and elements
            let mut v = if r.pct(50) { json!("key") } else { json!(1) };
            let mut segs = vec![];
            for k in 0..n * 4 {
                if r.pct(50) {
                    v = json!({ "a": v, "b": k });
                    segs.push(child(name("a")));
                } else {
                    v = json!([k, v]);
                    segs.push(child(Sel::Index(if r.pct(50) { 1 } else { -1 })));
                }
            }
            segs.push(child(name("p")));
            segs.reverse();
            (abs(vec![child(name("t")), child(Sel::Sub(abs(segs)))]), json!({"p": v, "t": if r.pct(50) { json!({"key": 1}) } else { json!([0, 1, 2]) }}))
        }
        3 => {
            // long keys that differ in one place
            let len = *r.pick(&[31usize, 32, 64, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]);
            let u = *r.pick(&["a", "\u{e9}", "'", "\\", "\u{1}", "\u{1d11e}"]);
            let (x, y) = (u.repeat(len), format!("{}b", u.repeat(len - 1)));
            let mut m = serde_json::Map::new();
            m.insert(x.clone(), json!(1));
            if r.pct(70) {
                m.insert(y.clone(), json!(2));
            }
            m.insert(u.repeat(len + 1), json!(y));
            let e = if r.pct(50) { abs(vec![child(name("k"))]) } else { abs(vec![child(name("t")), child(Sel::Name(u.repeat(len + 1)))]) };
            (abs(vec![child(name("t")), Seg { desc: false, sels: vec![Sel::Sub(e), Sel::Wild] }]), json!({"k": r.pick(&[&x, &y]), "t": m}))
        }
        _ => {
            // many of them side by side, one after the other, in the terms of a filter
            let sub = |r: &mut Rng| match r.below(5) {
                0 => Sel::Index(r.range(-3, 3)),
                1 => name(r.pick(&["a", "b", "c"])),
                _ => Sel::Sub(abs(vec![child(name(r.pick(&["i", "j", "x", "y", "z"])))])),
            };
            let d = json!({"i": 0, "j": -1, "x": "a", "y": "b", "a": {"a": [1, {"b": 2}], "b": [3]}, "b": [[4, 5], {"a": 6}], "c": 7});
            let q = match r.below(3) {
                0 => abs(vec![Seg { desc: r.pct(50), sels: (0..n * 5).map(|_| sub(r)).collect() }]),
                1 => abs((0..n).map(|_| child(sub(r))).collect()),
                _ => {
                    let rel = |s: Sel| Query { root: Root::Rel, segs: vec![child(s)] };
                    abs(vec![Seg { desc: true, sels: vec![Sel::Filter(Expr::Or((0..n + 1).map(|k| if k % 3 == 0 { Expr::Cmp(Operand::Query(rel(Sel::Index(k as i64))), Op::Eq, Operand::Lit(Lit::Null)) } else { Expr::Test(rel(sub(r))) }).collect()))] }])
                }
            };
            (q, d)
        }
    };
    cx.max("embedded queries in a row", if i % 5 < 2 { n as u64 } else { 1 });
    let t = SIGS.with(|s| print_checked(&q, r, Style::plain(), s, true));
    check_eval(cx, &q, &t, &d, &[Cr::Sing])
}
/// a query with an embedded query and a document in which it most often finds something
pub fn ext_case(r: &mut Rng, hostile: u64) -> (Query, String, Value) {
    let c = Cfg { ext: true, hostile, filters: 20, calls: 8, max_segs: 4, max_sels: 2, ..Cfg::std() };
    let mut q = gen::query(r, &c, Root::Abs, 0);
    if !has_sub(&q) {
        let s = Seg { desc: r.pct(20), sels: vec![Sel::Sub(gen::sub_query(r, &c))] };
        let at = r.below(q.segs.len() + 1);
        q.segs.insert(at, s);
    }
    if r.pct(40) {
        q.segs.truncate(2);
    }
    let st = Style::random(r);
    let t = SIGS.with(|s| print_checked(&q, r, st, s, true));
    let mut d = Value::Null;
    for _ in 0..6 {
        d = self_doc(r, 4, hostile);
        if expect(&q, &d).is_some_and(|e| !e.is_empty()) {
            break;
        }
    }
    (q, t, d)
}
/// the same, for part of the queries without the leading `$`
pub fn ext_or_implicit(r: &mut Rng, hostile: u64) -> (Query, String, Value) {
    let (q, t, d) = ext_case(r, hostile);
    if r.pct(35) {
        if let Some(s) = without_root(&t) {
            return (q, s.to_string(), d);
        }
    }
    (q, t, d)
}
fn without_root(full: &str) -> Option<&str> {
    let body = full.trim_start_matches('$').trim_start_matches([' ', '\t', '\n', '\r']);
    match body.strip_prefix('.') {
        Some(b) if !b.starts_with(['.', '*']) => Some(b),
        None if body.starts_with('[') => Some(body),
        _ => None,
    }
}
/// value of the embedded query
const KEYS: &[&str] = &[
    "\"a\"", "\"\"", "\"0\"", "\"-1\"", "\"'\"", "\"☺\"", "\"b\"", "0", "1", "2", "3", "-1", "-2", "-3", "-4", "9007199254740991", "-9007199254740991", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "9223372036854775809", "18446744073709551612", "18446744073709551614", "18446744073709551615", "9223372036854775806", "-9223372036854775807", "4294967296", "4294967295", "-4294967296", "1e300", "-0.5", "0.5", "2.5", "1.5", "null", "true", "false", "[]",
    "[0]", "[\"a\"]", "{}", "{\"a\":\"a\"}", "{\"a\":0}",
];
const TARGETS: &[&str] = &[
    "{\"a\":1,\"\":2,\"0\":3,\"-1\":4,\"'\":5,\"☺\":6}", "[10,11,12]", "[]", "[[1]]", "{}", "\"a\"", "1", "null", "true", "{\"1\":1,\"true\":2,\"null\":3,\"1.5\":4}", "[{\"a\":1},{\"a\":2}]", "{\"a\":[1,2,3],\"b\":{\"a\":1}}",
];
fn table(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (k, t) = (KEYS[i as usize % KEYS.len()], TARGETS[i as usize / KEYS.len()]);
    let doc: Value = serde_json::from_str(&format!("{{\"k\":{k},\"t\":{t},\"n\":{{\"m\":[0,{k}]}},\"l\":[{t},{t}],\"kk\":\"k\",\"i\":1}}")).unwrap();
    for q in [
        "$.t[$.k]", "$.t[k]", "$.t[$.n.m[1]]", "$.t[n.m[1]]", "$.t[$['n'] ['m'][-1]]", "$.l[*][$.k]", "$.t[$.nosuch]", "$.t[nosuch]", "$.t[$.k,$.k]", "$..[$.k]", "$[$.kk]", "$[kk]", "t[k]", "t[$.k]", "['t'][$.k]", "$.t[$.k].a", "$.t[$.k][0]",
        "$.l[$.i][$.k]", "$.t[$.k,0]", "$.t['a',$.k]", "$.t[$]", "$[?@[$.k]]", "$[?@[$.k]==1]", "$.t[?$.t[$.k]==@]", "$.l[?@[$.k]]", "$.t[ $.k , * ]", "$.n.m[$.i]", "$.n[\"m\"][i]", "$..[k]", "$.t[$.n['m'] [1]]",
    ] {
        let Ok(p) = SIGS.with(|s| parse(q, s, true)) else { continue };
        if !p.sem.is_empty() || p.lenient {
            continue;
        }
        check_eval(cx, &p.query, q, &doc, &[Cr::Sing])?;
    }
    Ok(())
}
/// a query with its `$` left out means the same
fn implicit(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { ext: r.pct(50), hostile: if r.pct(30) { 50 } else { 0 }, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    if q.segs.is_empty() {
        return Ok(());
    }
    let st = Style::random(r);
    let full = SIGS.with(|s| print_checked(&q, r, st, s, true));
    let Some(short) = without_root(&full) else { return Ok(()) };
    if SIGS.with(|s| want(short, s, true)) != Want::Accept {
        return viol("generator", json!(short));
    }
    let d = if c.ext { self_doc(r, 4, 0) } else { gen::guided_doc(r, &q, c.hostile) };
    cx.count("implicit-root queries", 1);
    check_eval(cx, &q, short, &d, &[Cr::Sing])?;
    // and the same text embedded
    if q.segs.iter().all(|s| !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))) && !st_blank(short) {
        let t1 = format!("$..[{short}]");
        let t2 = format!("$..[{}]", full.trim());
        for t in [t1, t2] {
            if let Ok(p) = SIGS.with(|s| parse(&t, s, true)) {
                if p.sem.is_empty() && !p.lenient && has_sub(&p.query) {
                    cx.count("embedded with and without $", 1);
                    check_eval(cx, &p.query, &t, &d, &[Cr::Sing])?;
                }
            }
        }
    }
    Ok(())
}
fn st_blank(s: &str) -> bool {
    s.contains([' ', '\t', '\n', '\r'])
}
pub fn ext_text(r: &mut Rng) -> String {
    let c = Cfg { ext: true, filters: 30, max_segs: 3, max_sels: 2, max_depth: 1, hostile: 10, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let mut t = gen::print(&q, r, st);
    if r.pct(30) {
        t = t.replacen("[$.", "[", 1);
    }
    if r.pct(25) {
        t = t.trim_start_matches('$').trim_start_matches('.').to_string();
    }
    t
}
fn accept_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut t = if r.pct(75) { ext_text(r) } else { r.pick(corpus()).clone() };
    if r.pct(15) {
        // a standard or ill-formed query with a selector swapped for an embedded query
        t = t.replacen(*r.pick(&["'a'", "*", "0", "@", "\"b\""]), *r.pick(&["$.a", "$", "a", "a.b", "$['a'][0]", "$.*", "$..a", "['a']", "[0]", "@.a", "$[0,1]", "$[?@.a]", "$[$.a]", "a[b]"]), 1);
    }
    for _ in 0..r.below(3) {
        t = gen::mutate(r, &t);
    }
    p_parse::accept(cx, &t, &[Cr::Sing], true)
}
fn accept_soup(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    const T: &[&str] = &["$", "$.a", "a", "b1", ".a", "['a']", "[0]", "[", "]", ",", " ", ".", "..", "*", "0", "-1", "'a'", ":", "?", "@", "@.a", "==1", "$['a']", "$..a", "[*]", "true", "length(@)", "☺", "_"];
    let n = 1 + r.below(8);
    let mut t: String = (0..n).map(|_| *r.pick(T)).collect();
    if r.pct(60) {
        t = format!("{}[{t}]", r.pick(&["$", "$.a", "a", "", "$.", "$.."]));
    }
    p_parse::accept(cx, &t, &[Cr::Sing], true)
}
const SM: &[&str] = &["$", ".a", "a", "['a']", "[0]", "[", "]", ",", " ", "..", "*", "?@.a", "1:", "@"];
fn small_size() -> u64 {
    (SM.len() as u64).pow(3)
}
fn accept_small(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let n = SM.len() as u64;
    let (a, b, c) = (SM[(i % n) as usize], SM[(i / n % n) as usize], SM[(i / n / n) as usize]);
    for t in [format!("{a}{b}{c}"), format!("$[{a}{b}{c}]"), format!("$[0,{a}{b}{c}]"), format!("$.a[?@[{a}{b}{c}]]"), format!("a[{a}{b}{c}]"), format!("$[?@.a=={a}{b}{c}]"), format!("$[?count({a}{b}{c})==1]")] {
        p_parse::accept(cx, &t, &[Cr::Sing], true)?;
    }
    Ok(())
}
fn differs(t: &str) -> bool {
    let Ok(p) = ref_std(t, true) else { return false };
    if !p.sem.is_empty() || p.lenient {
        return false;
    }
    match parse_std(Cr::Sing, t) {
        Ok(Ok(g)) => matches!(sut(|| g.model()), Ok(Ok(m)) if adapt::canon(&m) != adapt::canon(&p.query)),
        _ => false,
    }
}
fn same_meaning(cx: &mut Cx, t: &str) -> Res {
    let Ok(p) = ref_std(t, true) else { return Ok(()) };
    if !p.sem.is_empty() || p.lenient {
        return Ok(());
    }
    cx.case(t, has_sub(&p.query) || !t.starts_with('$'));
    let Ok(Ok(g)) = parse_std(Cr::Sing, t) else {
        cx.count("not accepted", 1);
        return Ok(());
    };
    let m = SIGS.with(|s| model_of(&g, Cr::Sing, s, cx));
    cx.count("trees compared", 1);
    match m {
        Some(m) if m != adapt::canon(&p.query) => {
            let s = shrink_text(t, differs);
            viol(format!("singular: another meaning: {}", clip(&s, 200)), json!({"query": t, "smaller": s, "means": format!("{:?}", p.query), "crate parsed": format!("{m:?}")}))
        }
        Some(_) => {
            // printed form
            let d = sut(|| g.display()).unwrap_or_default();
            match ref_std(&d, true) {
                Ok(x) if adapt::canon(&x.query) == adapt::canon(&p.query) => cx.count("printed forms that mean the same", 1),
                _ => cx.count("printed forms not compared", 1),
            }
            Ok(())
        }
        None => Ok(()),
    }
}
fn meaning(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    for _ in 0..3 {
        let mut t = ext_text(r);
        if r.pct(30) {
            t = gen::mutate(r, &t);
        }
        if SIGS.with(|s| want(&t, s, true)) == Want::Accept {
            cx.sample(|| json!(t));
            return same_meaning(cx, &t);
        }
    }
    Ok(())
}
/// standard queries keep their standard meaning
fn standard(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = if r.pct(50) { Cfg::std() } else { Cfg { filters: 70, calls: 25, max_segs: 2, ..Cfg::std() } };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    let d = if r.pct(50) { gen::guided_doc(r, &q, c.hostile) } else { self_doc(r, 4, 0) };
    same_meaning(cx, &t)?;
    check_eval(cx, &q, &t, &d, &[Cr::Sing, Cr::Loc])?;
    let e = gen_edited(r);
    if SIGS.with(|s| want(&e, s, false)) == Want::Accept {
        same_meaning(cx, &e)?;
    }
    Ok(())
}
