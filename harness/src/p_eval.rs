//! C01-C06: what evaluation returns.
use crate::adapt::{self, ENGINES};
use crate::entry;
use crate::eval::{self, PE};
use crate::gen::{self, Cfg, Style};
use crate::iregexp;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sweep;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

const MEM: &str = "object members are taken in the order serde_json's map iterates them (the crates' document order)";
const PREC: &str = "comparisons whose outcome needs more precision than an IEEE double are not judged (RFC 9535 leaves them to I-JSON interoperability)";

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop {
            id: "C01",
            rule: "a case is one (query, document) pair run in all four evaluating crates and compared, node by node (by address of the selected value) and in order, with an independent evaluator; non-trivial when the expected nodelist is not empty",
            assumptions: &[MEM, PREC],
            stages: vec![
                stage("random", 120_000, 1_200_000, c01_random),
                stage("descendant", 36_000, 400_000, c01_desc),
                stage("hostile names", 36_000, 300_000, c01_hostile),
                stage("filters", 48_000, 600_000, c01_filters),
                stage("large documents", 400, 8_000, c01_large),
                stage("huge documents", HUGEQ.len() as u64 * 2, HUGEQ.len() as u64 * 12, c01_huge),
                stage("huge queries", 1_200, 20_000, c01_long_queries),
                stage("long names", 1_600, 30_000, c01_longnames),
            ],
        },
        "C02" => Prop {
            id: "C02",
            rule: "a case is one index or slice selector applied to arrays of several lengths and to non-arrays in all four crates; non-trivial when something is selected",
            assumptions: &[],
            stages: vec![
                stage("slice grid", (SL.len() * SL.len() * SL.len()) as u64, (SL.len() * SL.len() * SL.len()) as u64, c02_grid),
                stage("index grid", 60, 60, c02_index),
                stage("random", 150_000, 750_000, c02_random),
                stage("long arrays", 240, 4_000, c02_long),
            ],
        },
        "C03" => Prop {
            id: "C03",
            rule: "a case is one filter query; the pair table puts every ordered pair of value kinds under every operator; non-trivial when the filter keeps some children and drops others",
            assumptions: &[MEM, PREC],
            stages: vec![
                stage("pair table", 6 * 4, 6 * 4, c03_pairs),
                stage("literal table", 6 * LITS.len() as u64 * 2, 6 * LITS.len() as u64 * 2, c03_lits),
                stage("literal against literal", (6 * LITS.len() * LITS.len()) as u64, (6 * LITS.len() * LITS.len()) as u64, c03_litlit),
                stage("deep values", 12_000, 120_000, c03_deep),
                stage("logic", 90_000, 900_000, c03_logic),
                stage("nested queries", 60_000, 700_000, c03_nested),
                stage("large values", 600, 12_000, c03_largevals),
                stage("every character", sweep::QUICK, sweep::ALL, c03_every),
            ],
        },
        "C04" => Prop {
            id: "C04",
            rule: "a case is one filter query calling length, count or value on one document; non-trivial when something is selected",
            assumptions: &[MEM, PREC],
            stages: vec![
                stage("length", 48_000, 300_000, c04_length),
                stage("count", 48_000, 300_000, c04_count),
                stage("value", 48_000, 300_000, c04_value),
                stage("mixed", 64_000, 600_000, c04_mixed),
                stage("large values", 600, 12_000, c04_largevals),
                stage("every character", sweep::QUICK, sweep::ALL, c04_every),
            ],
        },
        "C05" => Prop {
            id: "C05",
            rule: "a case is one I-Regexp pattern (generated from the RFC 9485 grammar, or a broken variant) run through match and search on about ten strings, literally and from the document, in four crates; non-trivial when some string matches and some other does not",
            assumptions: &["patterns in which an unescaped ^ or $ could be read literally (RFC 9485) or as an anchor (common practice) are judged only where both readings agree", "general-category tables are those of the regex crate"],
            stages: vec![
                stage("grammar", 20_000, 600_000, c05_grammar),
                stage("broken patterns", 6_000, 200_000, c05_broken),
                stage("anchors", 4_000, 100_000, c05_anchors),
                stage("long quantifiers", 6, 6, c05_quant),
                stage("non-strings", 400, 8_000, c05_nonstring),
                stage("long strings", 400, 8_000, c05_longstr),
                stage("long patterns", 200, 4_000, c05_longpat),
                stage("every character", sweep::QUICK, sweep::ALL, c05_every),
            ],
        },
        "C06" => Prop {
            id: "C06",
            rule: "a case is one (query, document) pair; every returned node's location is compared with the normalized path of the value it points to and then applied as a query; non-trivial when a location holds a member name",
            assumptions: &[],
            stages: vec![
                stage("random", 48_000, 350_000, c06_random),
                stage("hostile names", 80_000, 600_000, c06_hostile),
                stage("embedded queries", 20_000, 200_000, c06_embedded),
                stage("every code point class", 40, 40, c06_chars),
                stage("every character", sweep::QUICK, sweep::ALL, c06_every),
                stage("deep", 200, 4_000, c06_deep),
                stage("wide", WIDEQ.len() as u64, WIDEQ.len() as u64 * 6, c06_wide),
                stage("long names", 1_600, 30_000, c06_longnames),
            ],
        },
        _ => return None,
    })
}

fn one(cx: &mut Cx, r: &mut Rng, c: &Cfg, doc_hostile: u64) -> Res {
    let q = gen::query(r, c, Root::Abs, 0);
    let d = if r.pct(75) { gen::guided_doc(r, &q, doc_hostile) } else { gen::any_doc(r, doc_hostile) };
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &d, &ENGINES)
}
fn c01_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    one(cx, r, &Cfg::std(), 10)
}
fn c01_desc(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { desc: 60, filters: 15, max_segs: 3, ..Cfg::std() };
    one(cx, r, &c, 10)
}
fn c01_hostile(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { hostile: 70, filters: 15, ..Cfg::std() };
    one(cx, r, &c, 70)
}
fn c01_filters(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 70, max_segs: 2, calls: 10, ..Cfg::std() };
    one(cx, r, &c, 10)
}
/// a document in which every step of the query leads somewhere
fn led_doc(r: &mut Rng, q: &Query) -> Value {
    let mut v = json!({"a": 1, "b": [2, "x"], "c": 300, "d": null});
    for s in q.segs.iter().rev() {
        if s.sels.len() > 8 || matches!(s.sels[0], Sel::Filter(_)) {
            let rec = |r: &mut Rng| {
                let mut m = Map::new();
                for n in ["a", "b", "c", "d"] {
                    if r.pct(75) {
                        m.insert(n.into(), if r.pct(80) { json!(r.below(302)) } else { json!([{ "a": 3 }, { "b": 2 }]) });
                    }
                }
                Value::Object(m)
            };
            v = Value::Array((0..20).map(|k| if k == 7 { v.clone() } else { rec(r) }).collect());
            if s.sels.iter().filter(|x| matches!(x, Sel::Name(_))).count() > s.sels.len() / 3 && r.pct(50) {
                v = Value::Object((0..1_300).filter(|k| k % 3 > 0).map(|k| (format!("k{k}"), json!(k))).chain([("a".to_string(), v)]).collect());
            }
            continue;
        }
        let mut o = Map::new();
        for x in &s.sels {
            match x {
                Sel::Name(n) => {
                    o.insert(n.clone(), v.clone());
                    if n.len() > 200 {
                        o.insert(n[..n.len() - n.chars().last().unwrap().len_utf8()].to_string(), json!(1));
                        o.insert(format!("{n}a"), json!(2));
                    }
                    break;
                }
                Sel::Index(i) => {
                    let len = if *i < 0 { -*i } else { *i + 1 }.clamp(0, 4) as usize;
                    let mut a = vec![json!("no"); len];
                    let k = if *i < 0 { len as i64 + i } else { *i };
                    if let Some(x) = usize::try_from(k).ok().and_then(|k| a.get_mut(k)) {
                        *x = v.clone();
                    }
                    v = Value::Array(a);
                    break;
                }
                _ => {
                    v = json!([v]);
                    break;
                }
            }
        }
        if !o.is_empty() {
            v = Value::Object(o);
        }
    }
    v
}
fn c01_long_queries(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = crate::p_parse::gen_long(r);
    let Ok(m) = SIGS.with(|g| parse(&t, g, false)) else { return Ok(()) };
    if m.lenient || !m.sem.is_empty() {
        return Ok(());
    }
    let d = led_doc(r, &m.query);
    cx.max("characters in one query", t.chars().count() as u64);
    cx.max("selectors in one query", m.query.segs.iter().map(|s| s.sels.len()).sum::<usize>() as u64);
    check_eval(cx, &m.query, &t, &d, &ENGINES)
}
/// long member names that differ in one place or in length, one inside another
fn long_names(r: &mut Rng) -> (Vec<String>, Value) {
    let n = len(r).min(if r.pct(10) { 70_001 } else { 12_000 });
    let unit = *r.pick(&["a", "a", "é", "\u{ffff}", "😀", "ab ", "'", "\\", "\"", "\u{1}", "\n", "x'y\\"]);
    let k = (n / unit.chars().count()).max(1);
    let mut names: Vec<String> = vec![unit.repeat(k)];
    for _ in 0..2 + r.below(4) {
        let mut c: Vec<&str> = vec![unit; k];
        match r.below(5) {
            0 => c.push(unit),
            1 => {
                c.pop();
            }
            _ => {
                let at = match r.below(4) {
                    0 => 0,
                    1 => k / 2,
                    2 => k - 1,
                    _ => r.below(k),
                };
                c[at] = *r.pick(&["'", "\"", "\\", "\u{0}", "\t", "\u{1f}", "b", "", "A", "\u{7f}", "\u{2028}", "\u{10000}", "e\u{301}"]);
            }
        }
        names.push(c.concat());
    }
    names.sort();
    names.dedup();
    let mut m = Map::new();
    for (i, x) in names.iter().enumerate() {
        let v = match r.below(4) {
            0 => json!(i),
            1 => json!([i, {x.as_str(): [i]}]),
            2 => json!({names[r.below(names.len())].as_str(): i, "a": {x.as_str(): {"b": i}}}),
            _ => json!({ "a": i }),
        };
        m.insert(x.clone(), v);
    }
    if r.pct(30) {
        m.remove(&names[0]);
    }
    let d = Value::Object(m);
    (names, if r.pct(30) { json!([1, d, { "z": d }]) } else { d })
}
fn long_name_query(r: &mut Rng, names: &[String]) -> Query {
    let nm = |r: &mut Rng| Sel::Name(r.pick(names).clone());
    let seg = |desc: bool, sels: Vec<Sel>| Seg { desc, sels };
    let s = nm(r);
    let segs = match r.below(6) {
        0 => vec![seg(false, vec![s])],
        1 => vec![seg(true, vec![s, nm(r)])],
        2 => vec![seg(true, vec![s]), seg(false, vec![Sel::Wild])],
        3 => vec![seg(false, vec![s, nm(r), Sel::Name("a".into())]), seg(false, vec![nm(r), Sel::Name("a".into())])],
        4 => vec![seg(true, vec![Sel::Filter(Expr::Test(Query { root: Root::Rel, segs: vec![seg(false, vec![s])] }))])],
        _ => vec![seg(true, vec![Sel::Wild]), seg(false, vec![nm(r), s])],
    };
    Query { root: Root::Abs, segs }
}
fn c01_longnames(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let (names, d) = long_names(r);
    let q = long_name_query(r, &names);
    let t = print_std(&q, r, Style::plain());
    cx.max("bytes in one name", names.iter().map(|n| n.len() as u64).max().unwrap_or(0));
    check_eval(cx, &q, &t, &d, &ENGINES)
}
fn c06_longnames(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let (names, d) = long_names(r);
    cx.max("bytes in one name", names.iter().map(|n| n.len() as u64).max().unwrap_or(0));
    let q = long_name_query(r, &names);
    check_locations(cx, &print_std(&q, r, Style::plain()), &d)?;
    check_locations(cx, *r.pick(&["$..*", "$.*", "$[?@]", "$..[?@]"]), &d)
}
fn c01_large(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    // long arrays, wide objects, or long chains
    let n = 200 + r.below(1500);
    let d = match i % 4 {
        0 => Value::Array((0..n).map(|k| if k % 7 == 0 { json!({"a": k, "b": [k, "x"]}) } else { json!(k % 13) }).collect()),
        1 => {
            let mut m = Map::new();
            for k in 0..n {
                m.insert(format!("k{k}"), json!({"a": k % 11, "b": (k % 3 == 0)}));
            }
            Value::Object(m)
        }
        2 => {
            let mut v = json!({"a": 1});
            for k in 0..100 {
                v = if k % 2 == 0 { json!([v, {"b": k}]) } else { json!({"a": v, "b": k}) };
            }
            v
        }
        _ => Value::Array((0..30).map(|_| gen::records(r, 10)).collect()),
    };
    let c = Cfg { max_segs: 2, filters: 30, desc: 40, max_depth: 1, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let t = print_std(&q, r, Style::plain());
    check_eval(cx, &q, &t, &d, &ENGINES)
}

/// lengths around the limits of small integer types and common buffers
const LENS: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10_000, 10_001, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001];
fn len(r: &mut Rng) -> usize {
    *r.pick(LENS)
}
/// more elements or members than 16 bits count
fn huge(k: u64, n: usize) -> Value {
    let v = |i: usize| if i % 5 == 0 { json!({"a": i, "b": (i % 3 == 0)}) } else { json!(i % 1000) };
    match k % 4 {
        0 | 1 => Value::Array((0..n).map(v).collect()),
        2 => Value::Object((0..n).map(|i| (format!("k{i}"), v(i))).collect()),
        _ => json!({"x": Value::Array((0..n).map(v).collect()), "y": [Value::Object((0..40).map(|i| (format!("m{i}"), v(i))).collect()), 1]}),
    }
}
const HUGEQ: &[&str] = &[
    "$.*", "$[*]", "$..*", "$[?@]", "$[?@.b]", "$[?@==7]", "$..a", "$..[?@.a>100]", "$.x[*]", "$..[0,-1]", "$[0,65535,65536,-1]", "$['k0','k65535','k65536','k9']", "$[::1000]", "$[65530:65540]", "$[-3:]", "$[::-9999]", "$.*.a",
    "$[?@.a==65535]", "$[?@.a==65540||@.a==5]", "$.x[?@.a==65535].a", "$..[?@.b].b", "$..x[65536]", "$[*]['a','b','a']", "$[*]..a", "$[1:]['a']",
];
/// a query with its huge document
pub fn huge_case(r: &mut Rng) -> (String, Value) {
    let n = if r.pct(50) { 65_530 + r.below(20) } else { 300 + r.below(9_000) };
    (r.pick(HUGEQ).to_string(), huge(r.next(), n))
}
/// a huge query with a document for it
pub fn long_case(r: &mut Rng) -> (String, Value) {
    loop {
        let t = crate::p_parse::gen_long(r);
        if let Ok(m) = SIGS.with(|g| parse(&t, g, false)) {
            if !m.lenient && m.sem.is_empty() {
                let d = led_doc(r, &m.query);
                return (t, d);
            }
        }
    }
}
fn c01_huge(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let t = HUGEQ[i as usize % HUGEQ.len()];
    let n = if r.pct(50) { 65_530 + r.below(20) } else { 65_536 + r.below(6_000) };
    let q = ref_std(t, false).expect("menu query").query;
    for k in [0, 2, 3] {
        if k == 0 || r.pct(60) {
            large(cx, &q, t, &huge(k, n))?;
        }
    }
    Ok(())
}
fn large(cx: &mut Cx, q: &Query, t: &str, d: &Value) -> Res {
    let b = eval::BUDGET.with(|b| b.replace(20_000_000));
    let res = check_eval(cx, q, t, d, &ENGINES);
    eval::BUDGET.with(|x| x.set(b));
    cx.max("elements or members of one value", match d { Value::Array(a) => a.len(), Value::Object(o) => o.len(), _ => 0 } as u64);
    res
}

// ------------------------------------------------------------------ C02

fn c02_long(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let n = len(r);
    let l = n as i64;
    let d = Value::Array((0..n).map(|k| json!(k)).collect());
    let at = |r: &mut Rng| {
        let b = *r.pick(&[0, l, -l, l / 2, -l / 2, 255, 256, 32_767, 32_768, 65_535, 65_536, -256, -32_768, -65_536]);
        Some(b + r.range(-2, 2))
    };
    let mut sels = vec![];
    for _ in 0..1 + r.below(3) {
        sels.push(match r.below(4) {
            0 => Sel::Index(at(r).unwrap_or(0)),
            _ => {
                let a = if r.pct(25) { None } else { at(r) };
                let b = if r.pct(25) { None } else { at(r) };
                let c = match r.below(5) {
                    0 => None,
                    1 => Some(*r.pick(&[1, -1, 2, -2])),
                    2 => Some(*r.pick(&[255, 256, 257, -255, -256, 65_535, 65_536, -65_536, 32_768, -32_768])),
                    3 => at(r),
                    _ => Some(r.range(-1000, 1000)),
                };
                Sel::Slice(a, b, c)
            }
        });
    }
    let q = Query { root: Root::Abs, segs: vec![Seg { desc: false, sels }] };
    let t = print_std(&q, r, Style::plain());
    large(cx, &q, &t, &d)
}

const SL: &[Option<i64>] = &[
    None,
    Some(0),
    Some(1),
    Some(2),
    Some(3),
    Some(4),
    Some(5),
    Some(6),
    Some(7),
    Some(-1),
    Some(-2),
    Some(-3),
    Some(-4),
    Some(-5),
    Some(-6),
    Some(-7),
    Some(MAXI),
    Some(-MAXI),
    Some(1 << 31),
    Some(-(1 << 32)),
];
fn arrays(max: usize) -> Value {
    let mut v: Vec<Value> = (0..=max).map(|n| Value::Array((0..n).map(|k| json!(k)).collect())).collect();
    v.extend([json!({"a": 1, "0": 2, "-1": 3}), json!("abc"), json!(12), Value::Null, json!(true), json!({})]);
    Value::Array(v)
}
fn wrap(s: Sel) -> Query {
    Query { root: Root::Abs, segs: vec![Seg { desc: false, sels: vec![Sel::Wild] }, Seg { desc: false, sels: vec![s] }] }
}
fn c02_grid(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = SL.len() as u64;
    let s = Sel::Slice(SL[(i % n) as usize], SL[(i / n % n) as usize], SL[(i / n / n) as usize]);
    let q = wrap(s);
    let st = Style { numvar: 50, ..Style::plain() };
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &arrays(6), &ENGINES)
}
fn c02_index(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let v = if i < 40 { i as i64 - 20 } else { *[MAXI, -MAXI, MAXI - 1, 1 << 31, -(1 << 31), 1 << 32, -(1 << 32), (1 << 32) + 1, 255, 256, -256].get(i as usize - 40).unwrap_or(&(i as i64 * 1000)) };
    let q = wrap(Sel::Index(v));
    let t = print_std(&q, r, Style::plain());
    check_eval(cx, &q, &t, &arrays(21), &ENGINES)
}
fn c02_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let len = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(300),
        _ => r.below(20),
    };
    let around = |r: &mut Rng| {
        let l = len as i64;
        let b = *r.pick(&[0, l, -l, l / 2, -l / 2, 1, -1]);
        b + r.range(-3, 3)
    };
    let mut o = |r: &mut Rng| match r.below(8) {
        0 | 1 => None,
        2 => *r.pick(SL),
        3 => Some(if r.pct(60) { gen::pow2ish(r) } else { r.range(-MAXI, MAXI) }),
        _ => Some(around(r)),
    };
    let mut sel = |r: &mut Rng| {
        if r.pct(20) {
            Sel::Index(o(r).unwrap_or(0))
        } else {
            let a = o(r);
            let b = o(r);
            let c = match r.below(3) {
                0 => None,
                1 => Some(r.range(-4, 4)),
                _ => o(r),
            };
            Sel::Slice(a, b, c)
        }
    };
    let sels: Vec<Sel> = (0..1 + r.below(3)).map(|_| sel(r)).collect();
    let arr = Value::Array((0..len).map(|k| json!(k)).collect());
    let (q, d) = match r.below(4) {
        0 => (Query { root: Root::Abs, segs: vec![Seg { desc: false, sels }] }, arr),
        1 => (Query { root: Root::Abs, segs: vec![Seg { desc: true, sels }] }, json!({"x": [arr.clone(), 1], "y": {"z": arr}})),
        2 => {
            // inside a filter query
            let inner = Query { root: Root::Rel, segs: vec![Seg { desc: false, sels }] };
            (wrap(Sel::Filter(Expr::Test(inner))), json!([[arr, [1], [], {"a": 1}, "s"]]))
        }
        _ => (Query { root: Root::Abs, segs: vec![Seg { desc: false, sels: vec![sel(r)] }, Seg { desc: false, sels }] }, json!([arr.clone(), arr.clone(), arr])),
    };
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &d, &ENGINES)
}

// ------------------------------------------------------------------ C03

fn values() -> Vec<Option<Value>> {
    let mut v = vec![
        None,
        Some(Value::Null),
        Some(json!(true)),
        Some(json!(false)),
        Some(json!(0)),
        Some(json!(-0.0)),
        Some(json!(1)),
        Some(json!(1.0)),
        Some(json!(-1)),
        Some(json!(1.5)),
        Some(json!(10)),
        Some(json!(9)),
        Some(json!(1e300)),
        Some(json!(-1e300)),
        Some(json!(i64::MAX)),
        Some(json!(i64::MIN)),
        Some(json!(u64::MAX)),
        Some(json!(1u64 << 63)),
        Some(json!(18446744073709551615.0)),
        Some(json!(MAXI)),
        Some(json!(5e-324)),
        Some(json!("")),
        Some(json!("a")),
        Some(json!("b")),
        Some(json!("ab")),
        Some(json!("A")),
        Some(json!("1")),
        Some(json!("10")),
        Some(json!("9")),
        Some(json!("true")),
        Some(json!("null")),
        Some(json!("\u{ffff}")),
        Some(json!("\u{10000}")),
        Some(json!("é")),
        Some(json!("e\u{301}")),
        Some(json!([])),
        Some(json!([1])),
        Some(json!([1.0])),
        Some(json!([1, 2])),
        Some(json!([2, 1])),
        Some(json!([null])),
        Some(json!([[1]])),
        Some(json!([[1.0]])),
        Some(json!({})),
        Some(json!({"a": 1})),
        Some(json!({"a": 1.0})),
        Some(json!({"a": 1, "b": 2})),
        Some(json!({"b": 2, "a": 1})),
        Some(json!({"a": null})),
        Some(json!({"a": {"b": [0]}})),
        Some(json!({"a": {"b": [0.0]}})),
        Some(json!({"a": {"b": [-0.0]}})),
        Some(json!([18446744073709551615u64])),
    ];
    v.push(Some(json!([[], {}, "", null])));
    v
}
const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
fn name_q(root: Root, ns: &[&str]) -> Query {
    Query { root, segs: ns.iter().map(|n| Seg { desc: false, sels: vec![Sel::Name(n.to_string())] }).collect() }
}
fn filter_q(e: Expr) -> Query {
    Query { root: Root::Abs, segs: vec![Seg { desc: false, sels: vec![Sel::Filter(e)] }] }
}
fn c03_pairs(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let op = OPS[(i % 6) as usize];
    let neg = i / 6 % 2 == 1;
    let via_object = i / 12 == 1;
    let vs = values();
    let mut recs = vec![];
    for a in &vs {
        for b in &vs {
            let mut m = Map::new();
            if let Some(a) = a {
                m.insert("a".into(), a.clone());
            }
            if let Some(b) = b {
                m.insert("b".into(), b.clone());
            }
            recs.push(Value::Object(m));
        }
    }
    cx.count("value pairs", recs.len() as u64);
    let e = Expr::Cmp(Operand::Query(name_q(Root::Rel, &["a"])), op, Operand::Query(name_q(Root::Rel, &["b"])));
    let e = if neg { Expr::Not(Box::new(e)) } else { e };
    let q = filter_q(e);
    let t = print_std(&q, r, Style::plain());
    // one record at a time, so that a pair beyond double precision does not hide the others
    if via_object {
        for rec in recs.chunks(97) {
            let m: Map<String, Value> = rec.iter().enumerate().map(|(k, v)| (format!("{k}"), v.clone())).collect();
            check_eval(cx, &q, &t, &Value::Object(m), &ENGINES)?;
        }
    } else {
        for rec in recs {
            check_eval(cx, &q, &t, &json!([rec]), &ENGINES)?;
        }
    }
    Ok(())
}
const LITS: &[&str] = &[
    "null", "true", "false", "0", "-0", "0.0", "1", "1.0", "1e0", "-1", "1.5", "15e-1", "10", "1e1", "9", "1E300", "-1e300", "9007199254740991",
    "0.1", "1e-1", "5e-324", "''", "'a'", "'b'", "'ab'", "'A'", "'1'", "'10'", "'true'", "'null'", "'\u{ffff}'", "'\u{10000}'",
];
fn lit_of(i: usize) -> Lit {
    let t = format!("$[?@=={}]", LITS[i]);
    let p = ref_std(&t, false).expect("literal table");
    match &p.query.segs[0].sels[0] {
        Sel::Filter(Expr::Cmp(_, _, Operand::Lit(l))) => l.clone(),
        x => panic!("{x:?}"),
    }
}
fn c03_lits(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let n = LITS.len() as u64;
    let op = OPS[(i % 6) as usize];
    let li = (i / 6 % n) as usize;
    let left = i / 6 / n == 1;
    let l = lit_of(li);
    let recs: Vec<Value> = values().iter().map(|v| v.as_ref().map_or(json!({}), |v| json!({"a": v}))).collect();
    let qa = Operand::Query(name_q(Root::Rel, &["a"]));
    let (e, t) = if left {
        (Expr::Cmp(Operand::Lit(l), op, qa), format!("$[?{} {} @.a]", LITS[li], op.text()))
    } else {
        (Expr::Cmp(qa, op, Operand::Lit(l)), format!("$[?@.a{}{}]", op.text(), LITS[li]))
    };
    let q = filter_q(e);
    for rec in recs {
        check_eval(cx, &q, &t, &json!([rec]), &ENGINES)?;
    }
    Ok(())
}
fn c03_litlit(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let n = LITS.len() as u64;
    let op = OPS[(i % 6) as usize];
    let (a, b) = ((i / 6 % n) as usize, (i / 6 / n) as usize);
    let q = filter_q(Expr::Cmp(Operand::Lit(lit_of(a)), op, Operand::Lit(lit_of(b))));
    let t = format!("$[?{} {} {}]", LITS[a], op.text(), LITS[b]);
    check_eval(cx, &q, &t, &json!([0, {"a": 1}]), &ENGINES)
}
/// two values that are equal or differ in one place
fn c03_deep(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let a = gen::doc(r, 4, 4, 10);
    let b = match r.below(3) {
        0 => a.clone(),
        1 => renumber(r, &a),
        _ => tweak(r, &a),
    };
    let op = *r.pick(&[Op::Eq, Op::Ne, Op::Le, Op::Ge, Op::Lt, Op::Gt]);
    let (e, d) = match r.below(3) {
        0 => (
            Expr::Cmp(Operand::Query(name_q(Root::Rel, &["a"])), op, Operand::Query(name_q(Root::Rel, &["b"]))),
            json!([{"a": a, "b": b}, {"a": b, "b": a}, {"a": a, "b": a}, {"a": a}]),
        ),
        1 => (
            Expr::Cmp(Operand::Query(name_q(Root::Rel, &["a"])), op, Operand::Query(name_q(Root::Abs, &["k"]))),
            json!({"k": b, "r": {"a": a}, "s": {"a": b}}),
        ),
        _ => (
            Expr::Cmp(Operand::Query(Query { root: Root::Rel, segs: vec![] }), op, Operand::Query(Query { root: Root::Abs, segs: vec![Seg { desc: false, sels: vec![Sel::Index(-1)] }] })),
            json!([a.clone(), b.clone(), [a], b]),
        ),
    };
    let q = filter_q(e);
    let t = print_std(&q, r, Style::plain());
    check_eval(cx, &q, &t, &d, &ENGINES)
}
fn renumber(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_i64() && n.as_i64().unwrap().unsigned_abs() < 1 << 52 && r.pct(60) => json!(n.as_i64().unwrap() as f64),
        Value::Array(a) => Value::Array(a.iter().map(|x| renumber(r, x)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), renumber(r, x))).collect()),
        v => v.clone(),
    }
}
fn tweak(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let k = r.below(a.len());
            match r.below(4) {
                0 => {
                    a.remove(k);
                }
                1 => a.push(json!(1)),
                2 => {
                    let j = r.below(a.len());
                    a.swap(k, j)
                }
                _ => a[k] = tweak(r, &a[k].clone()),
            }
            Value::Array(a)
        }
        Value::Object(o) if !o.is_empty() => {
            let mut o = o.clone();
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            match r.below(4) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let v = o.remove(&k).unwrap();
                    o.insert(format!("{k}x"), v);
                }
                2 => {
                    o.insert("zz".into(), Value::Null);
                }
                _ => {
                    let t = tweak(r, &o[&k].clone());
                    o.insert(k, t);
                }
            }
            Value::Object(o)
        }
        _ => gen::scalar(r, 10),
    }
}
fn c03_logic(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { calls: 5, big_ints: 3, ..Cfg::std() };
    let depth = 1 + r.below(2);
    let e = gen::expr(r, &c, depth, 3);
    let q = filter_q(e);
    let d = gen::records(r, 10);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &d, &ENGINES)
}
/// long strings, arrays and objects that differ in one place, or not at all
fn c03_largevals(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let n = len(r).min(20_000);
    let kind = r.below(5);
    let place = *r.pick(&[0, n / 2, n - 1]);
    let what = r.below(4);
    let unit = *r.pick(&["a", "é", "\u{ffff}", "😀", "ab "]);
    let mk = |changed: bool| -> Value {
        match kind {
            0 => {
                let mut c: Vec<String> = vec![unit.to_string(); n];
                if changed {
                    c[place] = match what {
                        0 => "b",
                        1 => "",
                        2 => "\u{10000}",
                        _ => "\u{0}",
                    }
                    .to_string();
                }
                json!(c.concat())
            }
            1 | 2 => {
                let mut a: Vec<Value> = (0..n).map(|i| if i % 9 == 0 { json!([i, {"z": "s"}]) } else { json!(i) }).collect();
                if changed {
                    match what {
                        0 => a[place] = json!("x"),
                        1 => {
                            a.remove(place);
                        }
                        2 => a[place] = json!(-1),
                        _ => a.insert(place, Value::Null),
                    }
                }
                Value::Array(a)
            }
            _ => {
                let mut m: Map<String, Value> = (0..n).map(|i| (format!("k{i}"), if i % 9 == 0 { json!([i]) } else { json!(i) })).collect();
                if changed {
                    let k = format!("k{place}");
                    match what {
                        0 => {
                            m.insert(k, json!("x"));
                        }
                        1 => {
                            m.remove(&k);
                        }
                        2 => {
                            let v = m.remove(&k).unwrap_or_default();
                            m.insert(format!("{k}x"), v);
                        }
                        _ => {
                            m.insert("extra".into(), Value::Null);
                        }
                    }
                }
                Value::Object(m)
            }
        }
    };
    let nest = |v: Value| if kind == 2 || kind == 4 { json!([{"w": v}]) } else { v };
    let d = json!([{"a": nest(mk(false)), "b": nest(mk(true))}, {"a": nest(mk(true)), "b": nest(mk(false))}, {"a": nest(mk(false)), "b": nest(mk(false))}]);
    let op = *r.pick(&OPS);
    let q = filter_q(Expr::Cmp(Operand::Query(name_q(Root::Rel, &["a"])), op, Operand::Query(name_q(Root::Rel, &["b"]))));
    let t = print_std(&q, r, Style::plain());
    large(cx, &q, &t, &d)
}
fn c03_nested(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    // filters inside filters, with queries from the document root at every depth
    fn q(r: &mut Rng, depth: usize, root: Root) -> Query {
        let mut segs = vec![];
        for _ in 0..r.below(2) {
            segs.push(Seg { desc: r.pct(15), sels: vec![if r.pct(60) { Sel::Name(r.pick(gen::NAMES).to_string()) } else { Sel::Wild }] });
        }
        if depth > 0 && r.pct(80) {
            segs.push(Seg { desc: r.pct(20), sels: vec![Sel::Filter(e(r, depth - 1))] });
        }
        if r.pct(30) {
            segs.push(Seg { desc: false, sels: vec![Sel::Name(r.pick(gen::NAMES).to_string())] });
        }
        Query { root, segs }
    }
    fn e(r: &mut Rng, depth: usize) -> Expr {
        let sing = |r: &mut Rng| {
            let root = if r.pct(50) { Root::Rel } else { Root::Abs };
            let n = r.below(3);
            Query { root, segs: (0..n).map(|_| Seg { desc: false, sels: vec![if r.pct(75) { Sel::Name(r.pick(gen::NAMES).to_string()) } else { Sel::Index(r.range(-1, 2)) }] }).collect() }
        };
        let root = if r.pct(60) { Root::Rel } else { Root::Abs };
        match r.below(6) {
            0 | 1 if depth > 0 => Expr::Test(q(r, depth, root)),
            2 if depth > 0 => Expr::Cmp(
                Operand::Call(Call { name: "count".into(), args: vec![Arg::Query(q(r, depth, root))] }),
                *r.pick(&OPS),
                Operand::Lit(Lit::Num(Num::of_i(r.range(0, 3)))),
            ),
            3 => Expr::Not(Box::new(e(r, depth))),
            4 => {
                let mut v = vec![];
                let or = r.pct(50);
                for _ in 0..2 {
                    push_flat(&mut v, e(r, depth), or);
                }
                if or {
                    Expr::Or(v)
                } else {
                    Expr::And(v)
                }
            }
            _ => {
                let l = Operand::Query(sing(r));
                let rr = if r.pct(50) { Operand::Query(sing(r)) } else { Operand::Lit(gen::lit(r, &Cfg::std())) };
                Expr::Cmp(l, *r.pick(&OPS), rr)
            }
        }
    }
    let qq = Query { root: Root::Abs, segs: q(r, 3, Root::Abs).segs };
    let d = match r.below(3) {
        0 => gen::guided_doc(r, &qq, 0),
        1 => json!({"a": gen::records(r, 0), "b": gen::scalar(r, 0), "c": gen::records(r, 0), "d": gen::scalar(r, 0)}),
        _ => Value::Array(vec![gen::records(r, 0), gen::records(r, 0)]),
    };
    let st = Style::random(r);
    let t = print_std(&qq, r, st);
    check_eval(cx, &qq, &t, &d, &ENGINES)
}

// ------------------------------------------------------------------ C04

fn vcall(n: &str, a: Arg) -> Operand {
    Operand::Call(Call { name: n.into(), args: vec![a] })
}
fn rhs(r: &mut Rng, depth: usize) -> Operand {
    let c = Cfg { calls: 30, ..Cfg::std() };
    match r.below(4) {
        0 | 1 => Operand::Lit(Lit::Num(Num::of_i(r.range(0, 4)))),
        2 => Operand::Query(name_q(Root::Rel, &["zz"])),
        _ => gen::operand(r, &c, depth),
    }
}
fn c04_length(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { hostile: 40, ..Cfg::std() };
    let arg = match r.below(5) {
        0 => Arg::Lit(gen::lit(r, &c)),
        1 => Arg::Call(Call { name: "value".into(), args: vec![Arg::Query(gen::query(r, &c, Root::Rel, 1))] }),
        2 => Arg::Query(Query { root: Root::Rel, segs: vec![] }),
        _ => Arg::Query(gen::singular(r, &c)),
    };
    let l = vcall("length", arg);
    let e = Expr::Cmp(l, *r.pick(&OPS), rhs(r, 1));
    let q = filter_q(e);
    let mut docs: Vec<Value> = (0..8)
        .map(|_| match r.below(5) {
            0 => json!(gen::rand_string(r)),
            1 => json!(*r.pick(gen::HOSTILE)),
            2 => gen::doc(r, 1, 5, 30),
            3 => json!({"a": gen::doc(r, 1, 4, 40), "b": gen::rand_string(r)}),
            _ => gen::scalar(r, 50),
        })
        .collect();
    docs.push(json!({"a": "☺𝄞é", "b": 3}));
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &Value::Array(docs), &ENGINES)
}
fn c04_largevals(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let n = len(r);
    let unit = *r.pick(&["a", "é", "\u{ffff}", "😀", "ab ", "e\u{301}", "👩\u{200d}👩", "\u{0}"]);
    let one = match r.below(4) {
        0 => json!(unit.repeat(n)),
        1 => Value::Array((0..n).map(|i| if i % 50 == 0 { json!([i]) } else { json!(1) }).collect()),
        2 => Value::Object((0..n).map(|i| (format!("k{i}"), json!(i % 3))).collect()),
        _ => json!(format!("{}{unit}", "x".repeat(n - 1))),
    };
    let size = |v: &Value| match v {
        Value::String(s) => s.chars().count(),
        Value::Array(a) => a.len(),
        Value::Object(o) => o.len(),
        _ => 0,
    } as i64;
    let sz = size(&one) + *r.pick(&[0, 0, 0, 1, -1, -256, -65_536]);
    let rel = |n: &str, s: Vec<Sel>| {
        let mut q = name_q(Root::Rel, &[n]);
        if !s.is_empty() {
            q.segs.push(Seg { desc: r_desc(n), sels: s });
        }
        q
    };
    fn r_desc(n: &str) -> bool {
        n == "d"
    }
    let l = match r.below(7) {
        0..=2 => vcall("length", Arg::Query(rel("a", vec![]))),
        3 => vcall("count", Arg::Query(rel("a", vec![Sel::Wild]))),
        4 => vcall("count", Arg::Query(rel("d", vec![Sel::Wild, Sel::Index(0)]))),
        5 => vcall("value", Arg::Query(rel("a", vec![Sel::Slice(Some(size(&one) - 1), None, None)]))),
        _ => vcall("length", Arg::Call(Call { name: "value".into(), args: vec![Arg::Query(rel("a", vec![]))] })),
    };
    let q = filter_q(Expr::Cmp(l, *r.pick(&OPS), Operand::Lit(Lit::Num(Num::of_i(sz)))));
    let t = print_std(&q, r, Style::plain());
    let d = json!([{"a": one.clone(), "d": 1}, {"a": 1, "d": one}]);
    large(cx, &q, &t, &d)
}
fn c04_count(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 20, desc: 30, ..Cfg::std() };
    let root = if r.pct(80) { Root::Rel } else { Root::Abs };
    let mut inner = gen::query(r, &c, root, 1);
    if r.pct(30) {
        // duplicates
        if let Some(s) = inner.segs.last_mut() {
            let x = s.sels[0].clone();
            s.sels.push(x);
        }
    }
    let q = filter_q(Expr::Cmp(vcall("count", Arg::Query(inner)), *r.pick(&OPS), rhs(r, 1)));
    let d = gen::any_doc(r, 10);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &d, &ENGINES)
}
fn c04_value(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 20, desc: 20, ..Cfg::std() };
    let root = if r.pct(80) { Root::Rel } else { Root::Abs };
    let inner = gen::query(r, &c, root, 1);
    let l = vcall("value", Arg::Query(inner));
    let right = if r.pct(60) { gen::operand(r, &c, 1) } else { rhs(r, 1) };
    let q = filter_q(Expr::Cmp(l, *r.pick(&OPS), right));
    let d = gen::any_doc(r, 10);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    check_eval(cx, &q, &t, &d, &ENGINES)
}
fn c04_mixed(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { calls: 80, filters: 80, max_segs: 2, regex: false, sigs: gen::std_sigs_sorted().into_iter().filter(|(n, _)| n != "match" && n != "search").collect(), ..Cfg::std() };
    one(cx, r, &c, 20)
}

// ------------------------------------------------------------------ C05

const RCH: &[char] = &['a', 'b', 'c', 'A', '1', '0', ' ', '\n', '\r', '\t', 'é', '☺', '𝄞', '\u{2028}', '-', '&', '~', '#', '/', '_', '\'', '"', ',', '<', '=', ':', '!', '%', '@', '\u{85}', '\u{0}', '\u{7f}', '^', '$', 'z', '\u{301}'];
const CATS: &[&str] = &["L", "Lu", "Ll", "Nd", "N", "P", "Z", "Zs", "S", "So", "C", "Cc", "M", "Mn", "Pd", "Sm", "Lo", "Zl"];

fn pat_esc(r: &mut Rng, o: &mut String) {
    o.push('\\');
    o.push(*r.pick(&['(', ')', '*', '+', '-', '.', '?', '[', '\\', ']', '^', '{', '|', '}', 'n', 'r', 't']));
}
fn pat_class(r: &mut Rng, o: &mut String) {
    o.push('[');
    let neg = r.pct(30);
    if neg {
        o.push('^');
    }
    if r.pct(10) {
        o.push('-');
    } else {
        cce(r, o, !neg);
    }
    for _ in 0..r.below(3) {
        cce(r, o, false);
    }
    if r.pct(10) {
        o.push('-');
    }
    o.push(']');
}
fn cchar(r: &mut Rng, o: &mut String, no_caret: bool) -> char {
    if r.pct(15) {
        let c = *r.pick(&['(', ')', '*', '+', '-', '.', '?', '[', '\\', ']', '^', '{', '|', '}']);
        o.push('\\');
        o.push(c);
        return c;
    }
    loop {
        let c = if r.pct(25) { *r.pick(&['&', '~', '.', '*', '(', ')', '{', '}', '|', '$', '?', '+', '#', ' ', '^', '&', '~']) } else { *r.pick(RCH) };
        if c == '-' || (c == '^' && no_caret) {
            continue;
        }
        o.push(c);
        return c;
    }
}
fn cce(r: &mut Rng, o: &mut String, first: bool) {
    match r.below(10) {
        0 => {
            o.push('\\');
            o.push(if r.pct(30) { 'P' } else { 'p' });
            o.push('{');
            o.push_str(r.pick(CATS));
            o.push('}');
        }
        1..=3 => {
            // a range
            let mut s = String::new();
            let a = cchar(r, &mut s, first);
            let mut t = String::new();
            let b = cchar(r, &mut t, true);
            if a <= b {
                o.push_str(&format!("{s}-{t}"));
            } else {
                o.push_str("a-c");
            }
        }
        4 => {
            // text that other regex dialects read as set operations
            let c = *r.pick(&['&', '~']);
            o.push(c);
            o.push(c);
        }
        _ => {
            cchar(r, o, first);
        }
    }
}
fn pat(r: &mut Rng, depth: usize, o: &mut String) {
    let alts = if r.pct(25) { 2 + r.below(2) } else { 1 };
    for k in 0..alts {
        if k > 0 {
            o.push('|');
        }
        let n = if r.pct(8) { 0 } else { 1 + r.below(3) };
        for _ in 0..n {
            match r.below(10) {
                0..=3 => loop {
                    let c = *r.pick(RCH);
                    if c != '^' && c != '$' {
                        o.push(c);
                        break;
                    }
                },
                4 => o.push('.'),
                5 => pat_esc(r, o),
                6 => pat_class(r, o),
                7 if depth > 0 => {
                    o.push('(');
                    pat(r, depth - 1, o);
                    o.push(')');
                }
                8 => {
                    o.push('\\');
                    o.push(if r.pct(30) { 'P' } else { 'p' });
                    o.push('{');
                    o.push_str(r.pick(CATS));
                    o.push('}');
                }
                _ => o.push(*r.pick(&['a', 'b', 'c'])),
            }
            if r.pct(30) {
                match r.below(6) {
                    0 => o.push('*'),
                    1 => o.push('+'),
                    2 => o.push('?'),
                    3 => o.push_str(&format!("{{{}}}", r.below(4))),
                    4 => o.push_str(&format!("{{{},}}", r.below(3))),
                    _ => {
                        let a = r.below(3);
                        o.push_str(&format!("{{{},{}}}", a, a + r.below(3)));
                    }
                }
            }
        }
    }
}
/// a string the pattern is likely to match
fn sample_re(re: &iregexp::Re, r: &mut Rng, o: &mut String) {
    use iregexp::{Item, Re};
    match re {
        Re::Ch(c) => o.push(*c),
        Re::Dot => o.push(*r.pick(RCH)),
        Re::Bol | Re::Eol => {}
        Re::Prop(..) => o.push(*r.pick(RCH)),
        Re::Class(items, neg) => {
            if *neg || r.pct(10) {
                o.push(*r.pick(RCH));
            } else {
                match r.pick(items) {
                    Item::Ch(c) => o.push(*c),
                    Item::Range(a, b) => {
                        let c = char::from_u32(r.range(*a as i64, *b as i64) as u32).unwrap_or(*a);
                        o.push(c)
                    }
                    Item::Prop(..) => o.push(*r.pick(RCH)),
                }
            }
        }
        Re::Alt(v) => {
            let x = r.pick(v);
            sample_re(x, r, o)
        }
        Re::Cat(v) => {
            for x in v {
                sample_re(x, r, o)
            }
        }
        Re::Rep(x, lo, hi) => {
            let extra = r.below(3) as u32;
            let n = lo + hi.map_or(extra, |h| extra.min(h - lo));
            for _ in 0..n.min(30) {
                sample_re(x, r, o)
            }
        }
    }
}
fn subjects(re: Option<&iregexp::Re>, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new()];
    for _ in 0..4 {
        let mut s = String::new();
        match re {
            Some(re) => sample_re(re, r, &mut s),
            None => s = "ab".into(),
        }
        v.push(s.clone());
        v.push(match r.below(5) {
            0 => format!("{}{s}", r.pick(RCH)),
            1 => format!("{s}{}", r.pick(RCH)),
            2 => format!("{s}\n"),
            3 => s.chars().skip(1).collect(),
            _ => format!("{}{s}{}", r.pick(RCH), r.pick(RCH)),
        });
    }
    v.push((0..r.below(4)).map(|_| *r.pick(RCH)).collect());
    v
}
struct Want {
    m: Option<bool>,
    s: Option<bool>,
}
/// expected results; None where the two readings of ^ and $ differ
fn want(p: &str, s: &str) -> Want {
    match (iregexp::parse(p), iregexp::parse_anchors(p)) {
        (Some(a), Some(b)) => {
            let (m, n) = (iregexp::is_match(&a, s), iregexp::is_match(&b, s));
            let (x, y) = (iregexp::is_search(&a, s), iregexp::is_search(&b, s));
            Want { m: (m == n).then_some(m), s: (x == y).then_some(x) }
        }
        _ => Want { m: Some(false), s: Some(false) },
    }
}
fn check_pattern(cx: &mut Cx, r: &mut Rng, p: &str, subj: &[String]) -> Res {
    let wants: Vec<Want> = subj.iter().map(|s| want(p, s)).collect();
    let some = wants.iter().any(|w| w.s == Some(true) || w.m == Some(true));
    let none = wants.iter().any(|w| w.m == Some(false));
    cx.case(p, some && none);
    cx.count("strings judged", wants.len() as u64);
    cx.count("matching (match)", wants.iter().filter(|w| w.m == Some(true)).count() as u64);
    cx.count("matching (search)", wants.iter().filter(|w| w.s == Some(true)).count() as u64);
    cx.count("undecided readings of ^ $", wants.iter().filter(|w| w.m.is_none() || w.s.is_none()).count() as u64);
    cx.sample(|| json!({"pattern": p, "strings": subj.len()}));
    let docs: Vec<Value> = subj.iter().map(|s| json!({"s": s, "p": p})).collect();
    let doc = Value::Array(docs);
    let Value::Array(els) = &doc else { unreachable!() };
    for f in ["match", "search"] {
        for lit in [true, false] {
            let pa = if lit { Arg::Lit(Lit::Str(p.to_string())) } else { Arg::Query(name_q(Root::Rel, &["p"])) };
            let q = filter_q(Expr::Call(Call { name: f.into(), args: vec![Arg::Query(name_q(Root::Rel, &["s"])), pa] }));
            let t = print_std(&q, r, Style::plain());
            for (c, way) in ENGINES.into_iter().flat_map(|c| entry::ways(c, t.len()).into_iter().map(move |w| (c, w))) {
                let got = sut(|| way.run(c, &t, &doc));
                let base = json!({"crate": way.label(c), "function": f, "pattern": p, "pattern is": if lit { "literal" } else { "from document" }});
                let list = match got {
                    Ok(Ok(v)) => v,
                    other => {
                        let mut b = base;
                        b["outcome"] = json!(format!("{other:?}"));
                        return viol(format!("{}: {f}: failed: {}", c.name(), clip(p, 60)), b);
                    }
                };
                for (k, e) in els.iter().enumerate() {
                    let w = if f == "match" { wants[k].m } else { wants[k].s };
                    let Some(w) = w else { continue };
                    let g = list.iter().any(|n| n.ptr == e as *const Value);
                    if g != w {
                        let mut b = base;
                        b["string"] = json!(subj[k]);
                        b["expected"] = json!(w);
                        return viol(format!("{}: {f}({}, {}) should be {w}", c.name(), json!(clip(&subj[k], 60)), json!(clip(p, 60))), b);
                    }
                }
            }
        }
    }
    Ok(())
}
fn c05_grammar(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut p = String::new();
    pat(r, 2, &mut p);
    let re = iregexp::parse(&p).unwrap_or_else(|| panic!("generated pattern rejected by the reference: {p:?}"));
    let subj = subjects(Some(&re), r);
    check_pattern(cx, r, &p, &subj)
}
fn c05_broken(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut p = String::new();
    pat(r, 1, &mut p);
    const BITS: &[&str] = &["(", ")", "[", "]", "{", "}", "*", "+", "?", "\\", "\\d", "\\w", "\\b", "(?:", "(?i)", "\\p{X}", "\\p{Latin}", "{2,1}", "{,2}", "{}", "**", "*?", "+?", "??", "|", "\\u0041", "[[:alpha:]]", "[a-", "[z-a]", "\\1", "\\pL", "[]", "\\A", "\\x41"];
    let b = r.pick(BITS);
    let cs: Vec<char> = p.chars().collect();
    let k = r.below(cs.len() + 1);
    let mut t: String = cs[..k].iter().collect();
    t.push_str(b);
    t.extend(&cs[k..]);
    if t.contains("[^]") || has_long_quantifier(&t) {
        return Ok(());
    }
    let re = iregexp::parse(&t);
    cx.count(if re.is_some() { "still valid after edit" } else { "invalid patterns" }, 1);
    let mut subj = subjects(re.as_ref(), r);
    subj.push(t.clone());
    check_pattern(cx, r, &t, &subj)
}
fn has_long_quantifier(p: &str) -> bool {
    let b = p.as_bytes();
    b.windows(3).any(|w| (w[0] == b'{' || w[0] == b',') && w[1].is_ascii_digit() && w[2].is_ascii_digit())
}
fn c05_anchors(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut p = String::new();
    pat(r, 1, &mut p);
    let t = match r.below(5) {
        0 => format!("^{p}"),
        1 => format!("{p}$"),
        2 => format!("^{p}$"),
        3 => format!("^{p}|{p}$"),
        _ => format!("a|{p}$"),
    };
    let Some(re) = iregexp::parse_anchors(&t) else { return Ok(()) };
    let subj = subjects(Some(&re), r);
    check_pattern(cx, r, &t, &subj)
}
/// range quantifiers of more than one digit
fn c05_quant(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let p = ["a{10}", "a{10,}", "a{2,10}", "[ab]{12}", "(ab){10,11}", "a{010}"][i as usize];
    let mut subj: Vec<String> = vec!["a".repeat(10), "a".repeat(9), "a".repeat(11), "ab".repeat(6), "ab".repeat(10), String::new()];
    subj.truncate(6);
    // one signature per pattern
    match check_pattern(cx, r, p, &subj) {
        Ok(()) => Ok(()),
        Err(v) => viol(format!("pattern {p}: {}", v.sig), v.detail),
    }
}
/// strings of many characters, with an answer known from how they are made
fn c05_longstr(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = if i % 3 == 0 { 65_520 + r.below(40) } else { len(r).max(3) };
    let u = *r.pick(&["a", "é", "😀", "0", "-"]);
    let body = u.repeat(n - 1);
    let tail = *r.pick(&["z", "\n", "\r", "é", "\u{10ffff}", ""]);
    let s = match r.below(3) {
        0 => format!("{body}{tail}"),
        1 => format!("{tail}{body}"),
        _ => format!("{}{tail}{body}", u.repeat(2)),
    };
    // (pattern, does it match the whole, does it match a part)
    let odd = s.contains(['\n', '\r']);
    let pure = tail.is_empty() || tail == u;
    let has = |c: &str| s.contains(c);
    let table: Vec<(String, bool, bool)> = vec![
        (".*".into(), !odd, true),
        (format!("{u}*"), pure, true),
        (format!("{u}+"), pure, true),
        (format!("({u}|{u}{u})*"), pure, true),
        (format!("[{u}]*"), pure, true),
        (format!("[^{u}]"), false, !pure),
        ("z".into(), false, has("z")),
        (format!("{u}*z"), s.strip_suffix('z').is_some_and(|h| !h.contains('z')), has("z")),
        (format!("z{u}*"), s.strip_prefix('z').is_some_and(|h| !h.contains('z')), has("z")),
        (format!(".*{u}"), !odd && s.ends_with(u), true),
        ("\\n".into(), false, has("\n")),
        ("(.|\\n|\\r)*".into(), true, true),
        ("q".into(), false, false),
        ("".into(), false, true),
    ];
    let (p, m, f) = r.pick(&table).clone();
    let p = if u == "-" { p.replace("[-]", "[\\-]").replace("[^-]", "[^\\-]").replace("-*", "\\-*").replace("(-|--)", "(\\-|\\-\\-)").replace("-+", "\\-+").replace(".*-", ".*\\-") } else { p };
    // half of them with a pattern never seen before
    let p = if r.pct(50) { format!("{p}|#{i}_{}", r.below(1_000_000)) } else { p };
    cx.case((&p, &s), m || f);
    cx.max("characters in one string", s.chars().count() as u64);
    let d = json!([s, "", 1]);
    let Value::Array(els) = &d else { unreachable!() };
    for (name, w) in [("match", m), ("search", f)] {
        let lit = serde_json::to_string(&p).unwrap_or_default();
        let t = format!("$[?{name}(@,{lit})]");
        for c in ENGINES {
            for way in entry::ways(c, n) {
                let got = sut(|| way.run(c, &t, &d));
                cx.count("answers compared", 1);
                let hit = match &got {
                    Ok(Ok(v)) => Some(v.iter().any(|g| std::ptr::eq(g.ptr, &els[0]))),
                    _ => None,
                };
                if hit != Some(w) {
                    return viol(format!("{}: {name} of a long string with {p}", way.label(c)), json!({"crate": way.label(c), "query": t, "unit": u, "characters": s.chars().count(), "tail": tail, "expected": w, "outcome": clip(&format!("{got:?}"), 500)}));
                }
            }
        }
    }
    Ok(())
}
/// patterns of many characters: alternatives, concatenations and classes of known meaning
fn c05_longpat(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let n = 1 + len(r) % 400;
    let word = |i: usize| format!("w{i:03}");
    let (p, yes, no): (String, String, String) = match r.below(5) {
        0 => ((0..n).map(word).collect::<Vec<_>>().join("|"), word(r.below(n)), word(n)),
        1 => ((0..n).map(word).collect::<String>(), (0..n).map(word).collect(), (0..n).map(word).collect::<String>().replacen('w', "v", 1)),
        2 => (format!("[{}]+", (0..n).map(|i| char::from_u32(0x4e00 + i as u32).unwrap_or('x')).collect::<String>()), char::from_u32(0x4e00 + n as u32 - 1).unwrap_or('x').to_string(), char::from_u32(0x4e00 + n as u32).unwrap_or('x').to_string()),
        3 => {
            let k = n.min(40);
            (format!("{}a{}", "(".repeat(k), ")".repeat(k)), "a".into(), "b".into())
        }
        _ => ("a?".repeat(n) + "b", "a".repeat(n) + "b", "a".repeat(n + 1) + "c"),
    };
    cx.case(&p, true);
    cx.max("characters in one pattern", p.chars().count() as u64);
    let d = json!([{"s": yes, "p": p}, {"s": no, "p": p}]);
    let Value::Array(els) = &d else { unreachable!() };
    for name in ["match", "search"] {
        for t in [format!("$[?{name}(@.s,@.p)]"), format!("$[?{name}(@.s,'{p}')]")] {
            for c in ENGINES {
                for way in entry::ways(c, n) {
                    let got = sut(|| way.run(c, &t, &d));
                    cx.count("answers compared", 1);
                    let ok = matches!(&got, Ok(Ok(v)) if v.len() == 1 && std::ptr::eq(v[0].ptr, &els[0]));
                    if !ok {
                        return viol(format!("{}: {name} with a long pattern", way.label(c)), json!({"crate": way.label(c), "query": clip(&t, 3000), "matching": yes, "not matching": no, "outcome": clip(&format!("{got:?}"), 500)}));
                    }
                }
            }
        }
    }
    Ok(())
}
fn c05_nonstring(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mk = |r: &mut Rng| match r.below(6) {
        0 => None,
        1 => Some(json!(*r.pick(&["a", "ab", "", ".*"]))),
        _ => Some(gen::doc(r, 1, 2, 10)),
    };
    let recs: Vec<Value> = (0..8)
        .map(|_| {
            let mut m = Map::new();
            if let Some(v) = mk(r) {
                m.insert("s".into(), v);
            }
            if let Some(v) = mk(r) {
                m.insert("p".into(), v);
            }
            Value::Object(m)
        })
        .collect();
    let d = Value::Array(recs);
    let f = r.pick(&["match", "search"]).to_string();
    let a = |r: &mut Rng, n: &str| match r.below(4) {
        0 => Arg::Lit(gen::lit(r, &Cfg { hostile: 0, ..Cfg::std() })),
        1 => Arg::Lit(Lit::Str(r.pick(gen::PATTERNS).to_string())),
        _ => Arg::Query(name_q(Root::Rel, &[n])),
    };
    let call = Call { name: f, args: vec![a(r, "s"), a(r, "p")] };
    let e = if r.pct(30) { Expr::Not(Box::new(Expr::Call(call))) } else { Expr::Call(call) };
    let q = filter_q(e);
    let t = print_std(&q, r, Style::plain());
    check_eval(cx, &q, &t, &d, &ENGINES)
}

// ------------------------------------------------------------------ C06

fn index_doc<'a>(v: &'a Value, path: &mut Vec<PE>, m: &mut HashMap<*const Value, Vec<PE>>) {
    m.insert(v, path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(PE::Idx(i));
                index_doc(x, path, m);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(PE::Name(k.clone()));
                index_doc(x, path, m);
                path.pop();
            }
        }
        _ => {}
    }
}
fn check_locations(cx: &mut Cx, t: &str, d: &Value) -> Res {
    check_locations_of(cx, t, d, &ENGINES)
}
/// the singular crate's embedded queries, also without the leading `$`
fn c06_embedded(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let hostile = if r.pct(40) { 60 } else { 0 };
    let (q, t, d) = crate::p_sing::ext_or_implicit(r, hostile);
    if too_much(&q, &d) {
        cx.count("skipped: too much work", 1);
        return Ok(());
    }
    check_locations_of(cx, &t, &d, &[adapt::Cr::Sing])
}
fn check_locations_of(cx: &mut Cx, t: &str, d: &Value, crates: &[adapt::Cr]) -> Res {
    let mut m = HashMap::new();
    index_doc(d, &mut vec![], &mut m);
    let mut named = false;
    let mut n = 0u64;
    for (c, way) in crates.iter().copied().flat_map(|c| entry::ways(c, t.len()).into_iter().map(move |w| (c, w))) {
        let label = way.label(c);
        let base = |o: &str| json!({"crate": label, "query": t, "document": doc_text(d), "outcome": o});
        let got = match sut(|| way.run(c, t, d)) {
            Ok(Ok(v)) => v,
            o => return viol(format!("{}: failed: {}", label, clip(t, 120)), base(&format!("{o:?}"))),
        };
        for (k, g) in got.iter().enumerate() {
            n += 1;
            let Some(parts) = m.get(&g.ptr) else {
                return viol(format!("{}: node outside the document: {}", label, clip(t, 120)), base("the returned value is not part of the document"));
            };
            named |= parts.iter().any(|p| matches!(p, PE::Name(_)));
            let want = eval::normalized(parts);
            cx.max("path length", parts.len() as u64);
            if g.loc != want {
                return viol(
                    format!("{}: location {} of {}", label, clip(&g.loc, 100), clip(&want, 100)),
                    base(&format!("location {:?}, normalized path {:?}", g.loc, want)),
                );
            }
            if let Some(gp) = &g.parts {
                if gp != parts {
                    return viol(format!("{}: location list {:?} of {}", label, gp, clip(&want, 100)), base("location parts differ"));
                }
            }
            // the path selects that very node again (a sample of long lists)
            if k < 12 || (k % 37 == 0 && k < 800) || k + 1 == got.len() {
                let again = sut(|| way.run(c, &g.loc, d));
                let ok = matches!(&again, Ok(Ok(v)) if v.len() == 1 && v[0].ptr == g.ptr && v[0].loc == g.loc);
                cx.count("paths applied as queries", 1);
                if !ok {
                    return viol(format!("{}: path {} applied as a query", label, clip(&g.loc, 100)), base(&format!("{again:?}")));
                }
            }
        }
    }
    cx.case((t, d.to_string()), named);
    cx.count("locations checked", n);
    if named {
        cx.sample(|| json!({"query": t, "document": clip(&d.to_string(), 200)}));
    }
    Ok(())
}
fn c06_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { desc: 40, big_ints: 1, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let d = gen::guided_doc(r, &q, 15);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    if too_much(&q, &d) {
        cx.count("skipped: too much work", 1);
        return Ok(());
    }
    if cx.verbose { eprintln!("{t}\n{d}"); }
    check_locations(cx, &t, &d)
}
fn c06_hostile(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { desc: 40, hostile: 80, big_ints: 0, filters: 15, ..Cfg::std() };
    let (t, d) = if r.pct(50) {
        let q = gen::query(r, &c, Root::Abs, 0);
        let d = gen::guided_doc(r, &q, 80);
        let st = Style::random(r);
        if too_much(&q, &d) {
            cx.count("skipped: too much work", 1);
            return Ok(());
        }
        (print_std(&q, r, st), d)
    } else {
        (r.pick(&["$..*", "$.*", "$[*]", "$..[*]", "$.*.*", "$[?@]", "$..[?@ != 1]", "$..[-1,-2]", "$..[::-1]", "$..[1:]"]).to_string(), gen::doc(r, 3, 4, 90))
    };
    if cx.verbose { eprintln!("{t}\n{d}"); }
    check_locations(cx, &t, &d)
}
fn c06_chars(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let mut m = Map::new();
    for k in 0..64u32 {
        let cp = match i {
            0..=9 => i as u32 * 64 + k,
            _ => {
                let base = [0x2000u32, 0xd7c0, 0xe000, 0xfe00, 0xffc0, 0x10000, 0x1d100, 0x10ffc0, 0x3000, 0xfb00, 0x600, 0x900];
                base.get(i as usize - 10).copied().unwrap_or(i as u32 * 997) + k
            }
        };
        if let Some(c) = char::from_u32(cp) {
            m.insert(c.to_string(), json!([k]));
            m.insert(format!("x{c}y"), json!({ c.to_string(): k }));
        }
    }
    check_locations(cx, "$..*", &Value::Object(m))
}
/// indices and member names beyond the first 65,536
const WIDEQ: &[&str] = &["$[*]", "$..*", "$[-1]", "$[65535:65540]", "$[::-1]", "$[?@>65534]", "$[?@.a>65534]", "$..[-1,-2]", "$..a", "$[*].a", "$.x[*]", "$.x..a", "$.x[::-7]", "$..[65536]", "$[65536].a"];
fn c06_wide(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = 65_537 + r.below(3_000);
    let v = |i: usize| if i % 3 == 0 { json!({"a": i}) } else { json!(i) };
    let d = match i as usize / WIDEQ.len() % 2 + usize::from(WIDEQ[i as usize % WIDEQ.len()].contains('x')) {
        0 => Value::Array((0..n).map(v).collect()),
        1 => json!({"x": Value::Array((0..n).map(v).collect()), "y": 1}),
        _ => Value::Object((0..n).map(|i| (format!("'{i}"), v(i))).collect()),
    };
    check_locations(cx, WIDEQ[i as usize % WIDEQ.len()], &d)
}
fn c06_deep(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut v = gen::scalar(r, 50);
    for _ in 0..20 + r.below(100) {
        v = if r.pct(50) {
            let mut m = Map::new();
            m.insert(gen::name(r, 60), v);
            if r.pct(20) {
                m.insert("q".into(), json!(1));
            }
            Value::Object(m)
        } else {
            let mut a = vec![json!(0); r.below(3)];
            a.push(v);
            Value::Array(a)
        };
    }
    check_locations(cx, "$..*", &v)
}
/// strings with every character, against one of them
fn c03_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i, cx.tier == Tier::Quick, r);
    if cs.is_empty() {
        return Ok(());
    }
    cx.count("characters tried", cs.len() as u64);
    let mid = *r.pick(&cs);
    for op in [Op::Eq, Op::Lt, *r.pick(&OPS)] {
        let (pre, post) = *r.pick(&[("", ""), ("a", ""), ("", "b"), ("\u{1d11e}", "\u{e9}")]);
        let d = Value::Array(cs.iter().map(|c| json!(format!("{pre}{c}{post}"))).chain(["", "a", "\u{e000}", "\u{10ffff}"].iter().map(|s| json!(s))).collect());
        let q = filter_q(Expr::Cmp(Operand::Query(Query { root: Root::Rel, segs: vec![] }), op, Operand::Lit(Lit::Str(format!("{pre}{mid}{post}")))));
        let t = print_std(&q, r, Style::plain());
        check_eval(cx, &q, &t, &d, &ENGINES)?;
    }
    Ok(())
}
/// the length of strings with every character, and of objects with every name
fn c04_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i, cx.tier == Tier::Quick, r);
    if cs.is_empty() {
        return Ok(());
    }
    cx.count("characters tried", cs.len() as u64);
    let mut v = vec![];
    for c in &cs {
        let x = *r.pick(&['a', '\u{e9}', '\u{1d11e}', '\u{301}', ' ']);
        for s in [format!("{c}"), format!("{c}{x}"), format!("{x}{c}"), format!("{x}{c}{x}"), format!("{c}{c}")] {
            v.push(json!(s));
        }
    }
    v.push(Value::Object(cs.iter().map(|c| (c.to_string(), json!(1))).collect()));
    v.push(json!(cs.iter().collect::<String>()));
    let d = Value::Array(v);
    for k in [1, 2, 3, cs.len() as i64] {
        let q = filter_q(Expr::Cmp(vcall("length", Arg::Query(Query { root: Root::Rel, segs: vec![] })), Op::Eq, Operand::Lit(Lit::Num(Num::of_i(k)))));
        let t = print_std(&q, r, Style::plain());
        check_eval(cx, &q, &t, &d, &ENGINES)?;
    }
    Ok(())
}
/// every character against patterns that should or should not take it
fn c05_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i, cx.tier == Tier::Quick, r);
    if cs.is_empty() {
        return Ok(());
    }
    cx.count("characters tried", cs.len() as u64);
    let plain: Vec<char> = cs.iter().copied().filter(|c| !"\\[](){}.*+?|^$-,&~".contains(*c)).collect();
    let mid = if plain.is_empty() { 'm' } else { *r.pick(&plain) };
    let p = match r.below(6) {
        0 => ".".to_string(),
        1 => "a.b".to_string(),
        2 => format!("[^{mid}]"),
        3 => format!("[{}-{mid}]", plain.first().copied().unwrap_or('a').min(mid)),
        4 => format!("{mid}"),
        _ => format!("(a|{mid})+b?"),
    };
    let subj: Vec<String> = cs.iter().map(|c| if p == "a.b" { format!("a{c}b") } else { c.to_string() }).chain([format!("a{mid}b"), format!("{mid}{mid}")]).collect();
    check_pattern(cx, r, &p, &subj)?;
    check_pattern(cx, r, ".", &subj)
}
/// member names with every character
fn c06_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i, cx.tier == Tier::Quick, r);
    if cs.is_empty() {
        return Ok(());
    }
    cx.count("characters tried", cs.len() as u64);
    let m: Map<String, Value> = cs.iter().flat_map(|c| [(c.to_string(), json!([{ "a": 1 }])), (format!("x{c}y"), json!({ c.to_string(): [1] }))]).collect();
    check_locations(cx, *r.pick(&["$..*", "$.*", "$[?@]", "$.*[*]"]), &Value::Object(m.clone()))?;
    let q = sweep::query(i % 2, &cs, r).unwrap();
    check_locations(cx, &q, &Value::Object(m))
}
