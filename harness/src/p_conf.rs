//! C25: a parser's settings (range of integers, table of functions) are honoured, and queries with any integers evaluate.
use crate::adapt::{self, Cr, Parser, EK, ALL, EVAL};
use crate::entry;
use crate::eval;
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::p_parse::model_of;
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::{json, Value};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C25" => Prop {
            id: "C25",
            rule: "parsers with random settings (ranges of integers: the whole i64, single values, none, around powers of two; tables of functions with standard ones removed, replaced or added) parse generated queries whose integers lie at, near and far from the bounds; acceptance, error kind and syntax tree are compared with the independent parser under the same settings, and what is accepted is evaluated and compared with the reference (in 128-bit arithmetic); histories change the settings of one parser between parses while another keeps its own; non-trivial: the query has an integer or a call",
            assumptions: &["the kind of the error is judged when all that is wrong with the query has one kind"],
            stages: vec![
                stage("extremes", extremes_size(), extremes_size(), extremes),
                stage("ranges", 120_000, 1_200_000, ranges),
                stage("embedded", 30_000, 300_000, embedded),
                stage("huge queries", 1_600, 24_000, huge),
                stage("functions", 40_000, 400_000, functions),
                stage("histories", 20_000, 200_000, histories),
            ],
        },
        _ => return None,
    })
}

const EDGE: &[i64] = &[
    0, 1, -1, 2, -2, 3, -3, 4, -4, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, i64::MIN + 2, MAXI, MAXI + 1, -MAXI, -MAXI - 1, 1 << 31, (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, 1 << 32,
    (1 << 32) + 1, -(1 << 32), 1 << 62, -(1 << 62),
];
#[derive(Clone, Debug)]
struct Settings {
    range: (i64, i64),
    sigs: Sigs,
}
impl Settings {
    fn std() -> Settings {
        Settings { range: (-MAXI, MAXI), sigs: std_sigs() }
    }
    /// a new parser of the crate with these settings
    fn parser(&self, c: Cr) -> Parser {
        let mut p = adapt::parser_by(c, (self.range.0 ^ self.range.1) as usize % 16 + self.sigs.len());
        self.apply(&mut p, &Settings::std());
        p
    }
    /// bring a parser with the settings `old` to these
    fn apply(&self, p: &mut Parser, old: &Settings) {
        if self.range != old.range {
            p.set_range(self.range.0, self.range.1);
        }
        for n in old.sigs.keys() {
            if !self.sigs.contains_key(n) {
                p.remove(n);
            }
        }
        for (n, s) in &self.sigs {
            if old.sigs.get(n) != Some(s) {
                p.add(n, s);
            }
        }
    }
}
fn range(r: &mut Rng) -> (i64, i64) {
    let mut a = || match r.below(4) {
        0 => r.range(-5, 6),
        1 => *r.pick(EDGE),
        2 => gen::pow2ish(r).wrapping_mul(1 << r.below(11)),
        _ => r.next() as i64,
    };
    let (x, y) = (a(), a());
    match r.below(10) {
        0 => (i64::MIN, i64::MAX),
        1 => (x, x),
        // nothing is in range
        2 if x != y => (x.max(y), x.min(y)),
        3 => (0, y.max(0)),
        4 => (i64::MIN, y),
        5 => (x, i64::MAX),
        _ => (x.min(y), x.max(y)),
    }
}
/// an integer that tells ranges apart
fn int(r: &mut Rng, (lo, hi): (i64, i64)) -> i64 {
    match r.below(8) {
        0 => lo,
        1 => hi,
        2 => *r.pick(&[lo.saturating_sub(1), hi.saturating_add(1), lo.saturating_add(1), hi.saturating_sub(1)]),
        3 => *r.pick(EDGE),
        4 if lo <= hi => (lo as i128 + (r.next() as i128).rem_euclid(hi as i128 - lo as i128 + 1)) as i64,
        _ => r.range(-5, 6),
    }
}
fn ints(q: &mut Query, f: &mut dyn FnMut(&mut i64)) {
    for s in &mut q.segs {
        for s in &mut s.sels {
            match s {
                Sel::Index(i) => f(i),
                Sel::Slice(a, b, c) => [a, b, c].into_iter().flatten().for_each(&mut *f),
                Sel::Filter(e) => in_expr(e, f),
                Sel::Sub(q) => ints(q, f),
                _ => {}
            }
        }
    }
}
fn in_expr(e: &mut Expr, f: &mut dyn FnMut(&mut i64)) {
    match e {
        Expr::Or(v) | Expr::And(v) => v.iter_mut().for_each(|e| in_expr(e, f)),
        Expr::Not(e) => in_expr(e, f),
        Expr::Cmp(a, _, b) => {
            for o in [a, b] {
                match o {
                    Operand::Query(q) => ints(q, f),
                    Operand::Call(c) => in_call(c, f),
                    _ => {}
                }
            }
        }
        Expr::Test(q) => ints(q, f),
        Expr::Call(c) => in_call(c, f),
    }
}
fn in_call(c: &mut Call, f: &mut dyn FnMut(&mut i64)) {
    for a in &mut c.args {
        match a {
            Arg::Query(q) => ints(q, f),
            Arg::Call(c) => in_call(c, f),
            Arg::Logic(e) => in_expr(e, f),
            _ => {}
        }
    }
}

/// what the crate makes of the text, where it should be something else
fn wrong(c: Cr, p: &Parser, s: &Settings, t: &str, ext: bool, doc: Option<&Value>, cx: &mut Cx) -> Option<(String, String)> {
    let want = parse_in(t, &s.sigs, ext, s.range);
    if want.as_ref().is_ok_and(|w| w.lenient) {
        return None;
    }
    let got = match sut(|| p.parse(t)) {
        Ok(g) => g,
        Err(e) => return Some(("panics".into(), e)),
    };
    let want = match want {
        Ok(w) => w,
        Err(e) => {
            return match got {
                Ok(_) => Some(("accepts what is no query".into(), format!("{} at {}", e.what, e.pos))),
                Err(_) => None,
            }
        }
    };
    if !want.sem.is_empty() {
        let kind = |s: &Sem| match s {
            Sem::Name => EK::Name,
            Sem::Type | Sem::NonSingular => EK::Type,
            Sem::Range => EK::Syntax,
        };
        return match got {
            Ok(_) => Some((format!("accepts a query with {:?} errors", want.sem[0]), format!("{:?}", want.sem))),
            Err(e) => {
                cx.count("rejections compared", 1);
                let k = kind(&want.sem[0]);
                if want.sem.iter().all(|s| kind(s) == k) && !want.sem.contains(&Sem::NonSingular) && e.kind != k {
                    Some((format!("reports {:?} for {:?} errors", e.kind, want.sem[0]), e.display))
                } else {
                    None
                }
            }
        };
    }
    let got = match got {
        Ok(g) => g,
        Err(e) => return Some(("rejects a query that is valid with these settings".into(), e.display)),
    };
    cx.count("acceptances compared", 1);
    // the tree
    if let Some(m) = match sut(|| got.model()) {
        Ok(Ok(q)) => Some(adapt::canon(&q)),
        _ if s.range == (-MAXI, MAXI) => model_of(&got, c, &s.sigs, cx),
        _ => None,
    } {
        cx.count("trees compared", 1);
        let w = adapt::canon(&want.query);
        if m != w {
            return Some(("another meaning".into(), format!("{m:?}, expected {w:?}")));
        }
    }
    // the nodes
    let doc = doc?;
    if !EVAL.contains(&c) || ext && c != Cr::Sing {
        return None;
    }
    let exp = expect(&want.query, doc)?;
    cx.count("evaluations compared", 1);
    if !exp.is_empty() {
        cx.count("evaluations with nodes", 1);
    }
    for looping in [false, c == Cr::Serde] {
    let got = sut(|| if looping { entry::run_loop(&got, doc, &entry::envs()) } else { entry::run(&got, doc, &entry::envs()) });
    if let Some((what, d)) = judge_nodes(&got, &exp) {
        return Some((what.into(), format!("{d}, expected {:?}", paths(&exp))));
    }
    if let Ok(Ok(g)) = &got {
        for (g, e) in g.iter().zip(&exp) {
            if g.loc != eval::normalized(&e.1) {
                return Some(("wrong location".into(), format!("{} for {}", g.loc, eval::normalized(&e.1))));
            }
        }
    }
    }
    None
}
fn report(c: Cr, s: &Settings, t: &str, doc: Option<&Value>, what: &str, d: &str, more: Value) -> Res {
    let fns: Vec<String> = s.sigs.iter().map(|(n, s)| format!("{n}: {s:?}")).collect();
    viol(
        format!("{}: {what}: {} with range {}..={}", c.name(), clip(t, 200), s.range.0, s.range.1),
        json!({"crate": c.name(), "query": t, "document": doc.map(doc_text), "index_range": [s.range.0, s.range.1], "functions": fns, "what": what, "detail": d, "history": more}),
    )
}
fn judge(cx: &mut Cx, s: &Settings, t: &str, doc: Option<&Value>, ext: bool, crates: &[Cr]) -> Res {
    for c in crates {
        let p = s.parser(*c);
        if let Some((what, d)) = wrong(*c, &p, s, t, ext, doc, cx) {
            // a smaller query of the same kind
            let small = crate::p_parse::shrink_text(t, |u| {
                let mut n = Cx::quiet();
                wrong(*c, &p, s, u, ext, doc, &mut n).is_some_and(|x| x.0 == what)
            });
            return report(*c, s, &small, doc, &what, &d, json!({"found with": t}));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ stages
const FORMS: &[&str] = &["[#]", "[#:]", "[:#]", "[::#]", "[?@[#]]", "[?@[#]==1]", "..[#]", "[?count(@[#:])==2]", "[1,#]", "[?$[#]==@]", "[0:#:2]", "[3::#]"];
fn lens() -> [Value; 4] {
    [json!([]), json!([1]), json!([1, [1, 2], 3, [1]]), json!({"a": [[0, 1, 2], [1]], "b": [5]})]
}
fn texts() -> Vec<String> {
    let mut v: Vec<String> = EDGE.iter().map(|i| i.to_string()).collect();
    v.extend(["9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551616", "99999999999999999999999999999999999999999"].map(String::from));
    v
}
const RANGES: &[(i64, i64)] = &[(i64::MIN, i64::MAX), (0, i64::MAX), (i64::MIN, -1), (-MAXI, MAXI), (1, 0), (0, 0), (-2, 2), (i64::MIN, i64::MIN), (i64::MAX, i64::MAX), (-(1 << 31), (1 << 31) - 1)];
fn extremes_size() -> u64 {
    (FORMS.len() * texts().len() * RANGES.len()) as u64
}
/// every form of selector with every notable integer under every notable range
fn extremes(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let ts = texts();
    let i = i as usize;
    let (f, n, g) = (FORMS[i % FORMS.len()], &ts[i / FORMS.len() % ts.len()], RANGES[i / FORMS.len() / ts.len()]);
    let t = format!("${}", f.replace('#', n));
    let s = Settings { range: g, sigs: std_sigs() };
    cx.case((&t, g), true);
    cx.sample(|| json!({"query": t, "range": [g.0, g.1]}));
    for d in lens() {
        judge(cx, &s, &t, Some(&d), false, &ALL)?;
    }
    Ok(())
}
fn with_ints(r: &mut Rng, q: &mut Query, g: (i64, i64)) -> usize {
    let mut n = 0;
    let few = r.pct(50);
    ints(q, &mut |i| {
        n += 1;
        if !few || r.pct(30) {
            *i = int(r, g)
        }
    });
    n
}
fn ranges(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let g = range(r);
    let c = Cfg { hostile: 0, filters: 25, max_segs: 3, big_ints: 0, ..Cfg::std() };
    let mut q = gen::query(r, &c, Root::Abs, 0);
    let d = gen::guided_doc(r, &q, 0);
    let mut n = with_ints(r, &mut q, g);
    if n == 0 || r.pct(40) {
        let mut o = |r: &mut Rng| if r.pct(60) { Some(int(r, g)) } else { None };
        let sel = if r.pct(50) { Sel::Index(int(r, g)) } else { Sel::Slice(o(r), o(r), o(r)) };
        let k = r.below(q.segs.len() + 1);
        q.segs.insert(k, Seg { desc: r.pct(20), sels: vec![sel] });
        n += 1;
    }
    let st = Style::random(r);
    let mut t = gen::print(&q, r, st);
    if r.pct(5) {
        // an integer no i64 can hold
        t = t.replacen("9223372036854775807", "9223372036854775808", 1).replacen("-9223372036854775808", "-9223372036854775809", 1);
    }
    let s = Settings { range: g, sigs: std_sigs() };
    cx.case((&t, g), n > 0);
    judge(cx, &s, &t, Some(&d), false, &ALL)
}
/// queries that have very much of one thing: all integers lie in the range, or all but one
fn huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let g = range(r);
    let t = crate::p_parse::gen_long(r);
    let sigs = std_sigs();
    let Ok(m) = parse_in(&t, &sigs, false, (-MAXI, MAXI)) else { return Ok(()) };
    let mut q = m.query;
    let inside = |r: &mut Rng| if g.0 <= g.1 { int(r, g).clamp(g.0, g.1) } else { int(r, g) };
    for _ in 0..1 + r.below(3) {
        let mut o = |r: &mut Rng| if r.pct(60) { Some(inside(r)) } else { None };
        let sel = if r.pct(50) { Sel::Index(inside(r)) } else { Sel::Slice(o(r), o(r), o(r)) };
        let at = if r.pct(40) { q.segs.len() - 1 } else { r.below(q.segs.len()) };
        let sels = &mut q.segs[at].sels;
        let k = if r.pct(50) { sels.len() } else { r.below(sels.len() + 1) };
        sels.insert(k, sel);
    }
    let mut n = 0;
    ints(&mut q, &mut |i| {
        *i = inside(r);
        n += 1;
    });
    if r.pct(50) && n > 0 {
        let at = if r.pct(50) { n - 1 } else { r.below(n) };
        let x = int(r, g);
        let mut k = 0;
        ints(&mut q, &mut |i| {
            if k == at {
                *i = x;
            }
            k += 1;
        });
    }
    // (control characters are C08's known finding)
    let t = crate::p_parse::without_control_escapes(&gen::print_plain(&q));
    let d = gen::guided_doc(r, &Query { root: Root::Abs, segs: q.segs.iter().take(6).cloned().collect() }, 0);
    cx.max("integers in one query", n as u64);
    cx.case((&t, g), n > 0);
    judge(cx, &Settings { range: g, sigs }, &t, Some(&d), false, &ALL)
}
/// the singular crate's embedded queries follow the range too
fn embedded(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let g = range(r);
    let c = Cfg { ext: true, hostile: 0, filters: 20, max_segs: 3, big_ints: 0, ..Cfg::std() };
    let mut q = gen::query(r, &c, Root::Abs, 0);
    q.segs.push(Seg { desc: false, sels: vec![Sel::Sub(gen::sub_query(r, &c))] });
    // numbers to select with
    let d = json!({"a": int(r, g), "b": [0, 1, int(r, g), i64::MIN, i64::MAX, [1, 2, 3], r.range(-5, 6)], "i": r.range(-8, 9), "m": i64::MIN, "c": gen::guided_doc(r, &q, 0)});
    let n = with_ints(r, &mut q, g);
    let t = gen::print_plain(&q);
    let s = Settings { range: g, sigs: std_sigs() };
    cx.case((&t, g), n > 0);
    judge(cx, &s, &t, Some(&d), true, &[Cr::Sing])
}
const OWN: &[&str] = &["f", "g1", "is_it", "len", "counts", "true1"];
fn sigs(r: &mut Rng) -> Sigs {
    let mut m = std_sigs();
    let mut names: Vec<String> = m.keys().cloned().collect();
    names.sort();
    let ty = |r: &mut Rng| *r.pick(&[Ty::Value, Ty::Logical, Ty::Nodes]);
    for n in &names {
        match r.below(5) {
            0 => drop(m.remove(n)),
            1 => drop(m.insert(n.clone(), ((0..r.below(3)).map(|_| ty(r)).collect(), ty(r)))),
            _ => {}
        }
    }
    for n in OWN {
        if r.pct(30) {
            m.insert(n.to_string(), ((0..r.below(4)).map(|_| ty(r)).collect(), ty(r)));
        }
    }
    m
}
/// a query for one table of functions
fn call_query(r: &mut Rng, m: &Sigs) -> (Query, String) {
    let mut v: Vec<(String, Sig)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    let c = Cfg { sigs: v, hostile: 0, filters: 70, calls: 80, max_segs: 2, max_depth: 2, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = gen::print(&q, r, st);
    (q, t)
}
fn functions(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let s = Settings { range: if r.pct(20) { range(r) } else { (-MAXI, MAXI) }, sigs: sigs(r) };
    // a query for this table, the standard one or another
    let of = match r.below(3) {
        0 => std_sigs(),
        1 => sigs(r),
        _ => s.sigs.clone(),
    };
    let (_, t) = call_query(r, &of);
    cx.case((&t, format!("{:?}", s.sigs.len())), t.contains('('));
    judge(cx, &s, &t, None, false, &ALL)
}
/// settings change between parses; another parser keeps its own
fn histories(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = *r.pick(&ALL);
    let n = 2 + r.below(2);
    let mut set: Vec<Settings> = (0..n).map(|_| Settings::std()).collect();
    let mut ps: Vec<Parser> = (0..n).map(|k| adapt::parser_by(c, k)).collect();
    let mut log = vec![];
    let (_, mut t) = call_query(r, &std_sigs());
    for step in 0..12 {
        let k = r.below(n);
        if k > 0 && r.pct(60) {
            let new = match r.below(3) {
                0 => Settings::std(),
                1 => Settings { range: range(r), sigs: set[k].sigs.clone() },
                _ => Settings { range: set[k].range, sigs: sigs(r) },
            };
            new.apply(&mut ps[k], &set[k]);
            log.push(format!("parser {k}: range {:?}, functions {:?}", new.range, new.sigs));
            set[k] = new;
        }
        if r.pct(60) {
            // made for the settings of any of them
            let j = r.below(n);
            let (mut q, u) = call_query(r, &set[j].sigs.clone());
            t = u;
            if with_ints(r, &mut q, set[j].range) > 0 {
                t = gen::print_plain(&q);
            }
        }
        log.push(format!("parser {k} parses {t}"));
        cx.case((&t, step, &log.len()), t.contains('(') || t.contains('['));
        cx.count("parses in histories", 1);
        if let Some((what, d)) = wrong(c, &ps[k], &set[k], &t, false, None, cx) {
            return report(c, &set[k], &t, None, &what, &d, json!(log));
        }
    }
    Ok(())
}
