//! C24: what a parsed query says of itself: is_singular() and is_empty().
use crate::adapt::{self, Cr, Parsed, ALL, EVAL};
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::p_parse::{gen_corpus, gen_edited, gen_long, gen_valid, parse_std, shrink_text, want_std, Want};
use crate::p_sing;
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use serde_json::json;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C24" => Prop {
            id: "C24",
            rule: "valid queries (all sequences of up to three segments of every kind; generated ones, singular and not, in random spellings; edited ones that stay valid) parsed by all seven crates; what the parsed query says of itself is compared with the independent parser's tree, and queries that call themselves singular are evaluated; non-trivial: the query has at least one segment",
            assumptions: &["an embedded query is neither a name nor an index selector"],
            stages: vec![
                stage("small", small_size(), small_size(), small),
                stage("singular", 40_000, 400_000, singular),
                stage("valid", 40_000, 400_000, valid),
                stage("edited", 60_000, 600_000, edited),
                stage("embedded queries and implicit root", 30_000, 300_000, embedded),
                stage("huge queries", 1_200, 20_000, huge),
            ],
        },
        _ => return None,
    })
}

fn says(p: &Parsed) -> (bool, Option<bool>) {
    match p {
        Parsed::Hand(q) => (q.is_singular(), Some(q.is_empty())),
        Parsed::Pest(q) => (q.is_singular(), Some(q.is_empty())),
        Parsed::Rec(q) => (q.is_singular(), None),
        Parsed::Serde(q) => (q.is_singular(), Some(q.is_empty())),
        Parsed::Iter(q) => (q.is_singular(), Some(q.is_empty())),
        Parsed::Loc(q) => (q.is_singular(), Some(q.is_empty())),
        Parsed::Sing(q) => (q.is_singular(), Some(q.is_empty())),
    }
}
fn wrong(c: Cr, t: &str) -> Option<(String, String)> {
    wrong_ext(c, t, false)
}
fn wrong_ext(c: Cr, t: &str, ext: bool) -> Option<(String, String)> {
    let m = ref_std(t, ext).ok()?;
    if m.lenient || !m.sem.is_empty() {
        return None;
    }
    let p = match parse_std(c, t) {
        Ok(Ok(p)) => p,
        _ => return None, // C07 and C08 judge that
    };
    let (singular, empty) = match sut(|| says(&p)) {
        Ok(x) => x,
        Err(e) => return Some(("panics".into(), e)),
    };
    let want = (m.query.singular(), m.query.segs.is_empty());
    if singular != want.0 {
        return Some((format!("is_singular() is {singular}"), format!("it should be {}", want.0)));
    }
    if empty.is_some_and(|e| e != want.1) {
        return Some((format!("is_empty() is {}", !want.1), format!("it should be {}", want.1)));
    }
    None
}
fn judge(cx: &mut Cx, t: &str, r: &mut Rng) -> Res {
    let m = match SIGS.with(|g| parse(t, g, false)) {
        Ok(m) if !m.lenient && m.sem.is_empty() => m,
        _ => {
            cx.count("not valid", 1);
            return Ok(());
        }
    };
    cx.case(t, !m.query.segs.is_empty());
    let s = m.query.singular();
    cx.count(if s { "singular queries" } else { "other queries" }, 1);
    if s {
        cx.sample(|| json!(t));
    }
    for c in ALL {
        cx.count("answers compared", 1);
        if let Some((what, d)) = wrong(c, t) {
            let small = shrink_text(t, |u| wrong(c, u).is_some_and(|x| x.0 == what));
            return viol(format!("{}: {what}: {}", c.name(), clip(&small, 200)), json!({"crate": c.name(), "query": t, "smaller": small, "it says": what, "but": d}));
        }
    }
    if s {
        let d = gen::guided_doc(r, &m.query, 30);
        for c in EVAL {
            let n = match sut(|| crate::entry::find_by(c, t, &d)) {
                Ok(Ok(n)) => n.len(),
                _ => continue, // C07 and C14 judge that
            };
            cx.count("singular queries evaluated", 1);
            if n == 1 {
                cx.count("singular queries that gave a node", 1);
            }
            if n > 1 {
                return viol(format!("{}: a singular query gives {n} nodes: {}", c.name(), clip(t, 200)), json!({"crate": c.name(), "query": t, "document": d, "nodes": n}));
            }
        }
    }
    Ok(())
}

const SEGS: &[&str] = &[
    ".a", "['a']", "[\"\"]", ".\u{e9}", "[0]", "[-1]", "[9007199254740991]", ".*", "[*]", "[0:1]", "[:]", "[::0]", "[0,1]", "['a','a']", "['a',0]", "[0,*]", "..a", "..[0]", "..*", "..['a','b']",
    "[?@]", "[?@.a==1]", "[?@[?@]]", "[?count(@.*)==1]", " .a", "[ 0 ]",
];
fn small_size() -> u64 {
    let n = SEGS.len() as u64;
    1 + n + n * n + n * n * n
}
fn small(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let n = SEGS.len() as u64;
    let (mut k, mut len, mut all) = (i, 0, 1);
    while k >= all {
        k -= all;
        len += 1;
        all *= n;
    }
    let mut t = String::from("$");
    for _ in 0..len {
        t.push_str(SEGS[(k % n) as usize]);
        k /= n;
    }
    judge(cx, &t, r)
}
fn singular(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { hostile: 30, max_segs: if r.pct(5) { 60 } else { 6 }, ..Cfg::std() };
    let mut q = gen::singular(r, &c);
    q.root = Root::Abs;
    if r.pct(40) {
        // one more segment that makes it something else, most often
        let k = r.below(q.segs.len() + 1);
        q.segs.insert(k, gen::seg(r, &c, 0));
    }
    let st = Style::random(r);
    let t = gen::print(&q, r, st);
    judge(cx, &t, r)
}
/// the singular crate's own queries
fn embedded(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let (t, d) = match r.below(3) {
        0 => {
            let (_, t, d) = p_sing::ext_or_implicit(r, 20);
            (t, d)
        }
        1 => (p_sing::ext_text(r), p_sing::self_doc(r, 3, 0)),
        _ => {
            // singular but for an embedded query or its missing root
            let c = Cfg { hostile: 20, max_segs: 4, ext: true, ..Cfg::std() };
            let mut q = gen::singular(r, &c);
            q.root = Root::Abs;
            if r.pct(60) {
                let k = r.below(q.segs.len() + 1);
                q.segs.insert(k, Seg { desc: r.pct(15), sels: vec![Sel::Sub(gen::sub_query(r, &c))] });
            }
            let st = Style::random(r);
            let t = gen::print(&q, r, st);
            let t = if r.pct(50) { t.trim_start_matches('$').trim_start_matches('.').to_string() } else { t };
            (t, p_sing::self_doc(r, 3, 0))
        }
    };
    let m = match ref_std(&t, true) {
        Ok(m) if !m.lenient && m.sem.is_empty() => m,
        _ => {
            cx.count("not valid", 1);
            return Ok(());
        }
    };
    let sub = p_sing::has_sub(&m.query);
    cx.case(&t, sub || !t.starts_with('$'));
    cx.count("answers compared", 1);
    cx.count(if sub { "with an embedded query" } else { "with an implicit root or standard" }, 1);
    if let Some((what, o)) = wrong_ext(Cr::Sing, &t, true) {
        let small = shrink_text(&t, |u| wrong_ext(Cr::Sing, u, true).is_some_and(|x| x.0 == what));
        return viol(format!("singular: {what}: {}", clip(&small, 200)), json!({"crate": "singular", "query": t, "smaller": small, "it says": what, "but": o}));
    }
    if m.query.singular() {
        if let Ok(Ok(v)) = sut(|| adapt::find(Cr::Sing, &t, &d)) {
            cx.count("singular queries evaluated", 1);
            if v.len() > 1 {
                return viol(format!("singular: a singular query gives {} nodes: {}", v.len(), clip(&t, 200)), json!({"query": t, "document": d, "nodes": v.len()}));
            }
        }
    }
    Ok(())
}
fn valid(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let (_, t) = gen_valid(r);
    judge(cx, &t, r)
}
fn huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_long(r);
    cx.max("characters in one query", t.chars().count() as u64);
    judge(cx, &t, r)
}
fn edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = if r.pct(50) { gen_edited(r) } else { gen_corpus(r) };
    if want_std(&t) != Want::Accept {
        return Ok(());
    }
    judge(cx, &t, r)
}
