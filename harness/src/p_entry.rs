//! C17: all entry points of a crate agree.
use crate::adapt::{self, Cr, Got, EVAL};
use crate::entry::{self, envs, positions, same, show};
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::p_parse::{self, gen_corpus, gen_edited, gen_valid};
use crate::p_sing;
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use jsonpath_rfc9535_iter::iter::QueryIter;
use jsonpath_rfc9535_iter::node::Node;
use serde_json::{json, Value};
use std::rc::Rc;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C17" => Prop {
            id: "C17",
            rule: "generated queries and documents run through every entry point of each evaluating crate (module find, environment find, compiled query on many documents, own parser, serde's looping variants) and the lazy iterator driven by random adaptors, prefixes, pauses and interleavings; all sequences of (node address, location) are compared with the module find's; non-trivial: non-empty nodelist",
            assumptions: &["queries whose evaluation exceeds the reference evaluator's work budget are skipped"],
            stages: vec![
                stage("entry points", 24_000, 400_000, all_entries),
                stage("embedded queries and implicit root", 8_000, 120_000, embedded),
                stage("huge queries and documents", 240, 4_000, huge),
                stage("invalid queries", 8_000, 100_000, invalid),
                stage("one query, many documents", 10_000, 150_000, many_docs),
                stage("iterator adaptors", 24_000, 400_000, adaptors),
                stage("interleaved iterators", 8_000, 120_000, interleaved),
            ],
        },
        _ => return None,
    })
}
fn case(r: &mut Rng) -> Option<(Query, String, Value)> {
    let cfg = match r.below(4) {
        0 => Cfg { desc: 60, filters: 10, hostile: 40, ..Cfg::std() },
        1 => Cfg { filters: 60, calls: 40, max_segs: 3, ..Cfg::std() },
        2 => Cfg { max_sels: 5, ..Cfg::std() },
        _ => Cfg::std(),
    };
    let q = gen::query(r, &cfg, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    let h = if r.pct(50) { 5 } else { 50 };
    let d = gen::guided_doc(r, &q, h);
    if too_much(&q, &d) {
        return None;
    }
    Some((q, t, d))
}
fn all_entries(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let Some((_, t, d)) = case(r) else {
        cx.count("skipped: too much work", 1);
        return Ok(());
    };
    compare_entries(cx, &t, &d, &EVAL)
}
fn huge(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let (t, d) = if i % 3 == 0 { crate::p_eval::huge_case(r) } else { crate::p_eval::long_case(r) };
    compare_entries(cx, &t, &d, &EVAL)
}
fn embedded(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let hostile = if r.pct(30) { 40 } else { 0 };
    let (q, t, d) = p_sing::ext_or_implicit(r, hostile);
    if too_much(&q, &d) {
        cx.count("skipped: too much work", 1);
        return Ok(());
    }
    compare_entries(cx, &t, &d, &[Cr::Sing])?;
    let mut e = p_sing::ext_text(r);
    for _ in 0..r.below(3) {
        e = gen::mutate(r, &e);
    }
    // valid by chance: the work of evaluating it is bounded by the small document
    compare_entries(cx, &e, &gen::records(r, 8), &[Cr::Sing])
}
fn compare_entries(cx: &mut Cx, t: &str, d: &Value, crates: &[Cr]) -> Res {
    let pos = positions(d);
    for &c in crates {
        // a panic is C13's and C14's business: only agreement is judged here
        let Ok(es) = sut(|| entry::entries(c, t, d, &envs())) else {
            cx.count("panicked (not judged here)", 1);
            continue;
        };
        let n = es[0].1.as_ref().map(|v| v.len()).unwrap_or(0);
        cx.case((c, t, d.to_string()), n > 0);
        cx.count("nodes compared", (n * es.len()) as u64);
        if n > 0 {
            cx.sample(|| json!({"crate": c.name(), "query": t, "nodes": n, "entry points": es.iter().map(|e| e.0).collect::<Vec<_>>()}));
        }
        for (name, e) in &es[1..] {
            cx.count(&format!("{}: {name}", c.name()), 1);
            if !same(&es[0].1, e) {
                return viol(
                    format!("{}: {name} differs from find: {}", c.name(), clip(t, 200)),
                    json!({"crate": c.name(), "query": t, "document": doc_text(d), "find": clip(&show(&es[0].1, &pos), 1500), name.to_string(): clip(&show(e, &pos), 1500)}),
                );
            }
        }
    }
    Ok(())
}
fn invalid(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = match r.below(4) {
        0 => gen_edited(r),
        1 => gen_corpus(r),
        2 => gen::soup(r),
        _ => p_parse::number_query(r),
    };
    // valid by chance: the work of evaluating it is bounded by the small document
    let d = gen::records(r, 10);
    compare_entries(cx, &t, &d, &EVAL)
}
fn many_docs(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let own = r.pct(15);
    let (q, t) = if own {
        let (q, t, _) = p_sing::ext_or_implicit(r, 20);
        (q, t)
    } else {
        gen_valid(r)
    };
    let mut docs: Vec<Value> = (0..2 + r.below(4))
        .map(|_| match r.below(3) {
            _ if own => p_sing::self_doc(r, 4, 20),
            0 => gen::any_doc(r, 20),
            _ => gen::guided_doc(r, &q, 20),
        })
        .collect();
    let base = docs[0].clone();
    // equal documents at different addresses, and a slightly different one
    docs.push(base.clone());
    docs.push(json!([base]));
    docs.retain(|d| !too_much(&q, d));
    for c in EVAL.into_iter().filter(|c| !own || *c == Cr::Sing) {
        let Ok(Ok(p)) = sut(|| adapt::standard(c, &t)) else { continue };
        let mut order: Vec<usize> = (0..docs.len()).collect();
        order.extend((0..docs.len()).map(|_| r.below(docs.len().max(1))));
        for k in order {
            let Some(d) = docs.get(k) else { continue };
            let (Ok(a), Ok(b)) = (sut(|| adapt::find(c, &t, d)), sut(|| entry::run(&p, d, &envs()))) else { continue };
            let n = a.as_ref().map(|v| v.len()).unwrap_or(0);
            cx.case((c, &t, k, d.to_string()), n > 0);
            cx.count("runs of a compiled query", 1);
            if !same(&a, &b) {
                let pos = positions(d);
                return viol(
                    format!("{}: compiled query on document {k} differs from find: {}", c.name(), clip(&t, 200)),
                    json!({"crate": c.name(), "query": t, "documents": docs.iter().map(doc_text).collect::<Vec<_>>(), "find": clip(&show(&a, &pos), 1500), "compiled": clip(&show(&b, &pos), 1500)}),
                );
            }
        }
        // a compiled query used again and printed: still the same query
        if sut(|| p.display()) != sut(|| adapt::standard(c, &t).map(|p| p.display()).unwrap_or_default()) {
            return viol(format!("{}: compiled query changed by use: {}", c.name(), clip(&t, 200)), json!({"crate": c.name(), "query": t}));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the lazy iterator

type It<'a> = QueryIter<'a>;
fn make<'a>(k: usize, t: &str, d: &'a Value) -> It<'a> {
    match k % 4 {
        0 => jsonpath_rfc9535_iter::find(t, d).unwrap(),
        1 => envs().iter.find(t, d).unwrap(),
        2 => QueryIter::new(envs().iter, d, jsonpath_rfc9535_iter::Query::standard(t).unwrap()),
        _ => {
            // the query is given away: a clone of it, and the text, are gone before the first node
            let q = jsonpath_rfc9535_iter::Query::standard(&t.to_string()).unwrap();
            let it = QueryIter::new(envs().iter, d, q.clone());
            drop(q);
            it
        }
    }
}
fn k(n: &Rc<Node>) -> (usize, String) {
    (n.value as *const Value as usize, n.location.clone())
}
const WAYS: usize = 17;
fn adaptors(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let Some((_, t, d)) = case(r) else {
        cx.count("skipped: too much work", 1);
        return Ok(());
    };
    let c0 = crate::alloc::cpu();
    let Ok(Ok(all)) = sut(|| adapt::find(Cr::Iter, &t, &d)) else { return Ok(()) };
    // an expensive query is driven in fewer ways
    let dear = crate::alloc::cpu() - c0 > 100_000_000;
    let all: Vec<(usize, String)> = all.iter().map(|g: &Got| (g.ptr as usize, g.loc.clone())).collect();
    let n = all.len();
    cx.case((&t, d.to_string()), n > 0);
    cx.max("longest sequence", n as u64);
    for way in 0..WAYS {
        if way > 3 && r.pct(if dear { 90 } else { 50 }) {
            continue;
        }
        let m = r.below(n + 3);
        let step = 1 + r.below(4);
        let entry = r.below(4);
        let mut r2 = Rng::new(r.next());
        let got = sut(|| -> Result<(), String> {
            let mut it = make(entry, &t, &d);
            let ck = |what: &str, got: Vec<(usize, String)>, want: &[(usize, String)]| -> Result<(), String> {
                if got == want {
                    Ok(())
                } else {
                    Err(format!("{what}: got {} nodes {:?}, expected {} nodes {:?}", got.len(), got.iter().take(20).map(|x| &x.1).collect::<Vec<_>>(), want.len(), want.iter().take(20).map(|x| &x.1).collect::<Vec<_>>()))
                }
            };
            let from = |a: usize| &all[a.min(n)..];
            match way {
                0 => {
                    // one by one, then exhausted for good
                    let mut v = vec![];
                    while let Some(x) = it.next() {
                        v.push(k(&x));
                        if v.len() > n + 5 {
                            break;
                        }
                    }
                    ck("next", v, &all)?;
                    for _ in 0..4 {
                        if let Some(x) = it.next() {
                            return Err(format!("a node after the end: {:?}", k(&x)));
                        }
                    }
                    if it.by_ref().take(3).count() != 0 || it.nth(0).is_some() || it.size_hint().0 != 0 {
                        return Err("not exhausted after the end".into());
                    }
                    Ok(())
                }
                1 => ck("take", it.take(m).map(|x| k(&x)).collect(), &all[..m.min(n)]),
                2 => {
                    // in chunks of random length, with other queries in between
                    let mut v = vec![];
                    let mut idle = 0;
                    let mut others = if dear { 18 } else { 0 };
                    while v.len() <= n && idle < 4 {
                        let c = r2.below(4 + n / 200);
                        let before = v.len();
                        v.extend(it.by_ref().take(c).map(|x| k(&x)));
                        if c > 0 && v.len() == before {
                            idle += 1;
                        }
                        if others < 20 && r2.pct(30) {
                            others += 1;
                            let _ = jsonpath_rfc9535_iter::find(&t, &d).unwrap().next();
                        }
                    }
                    ck("by_ref().take", v, &all)
                }
                3 => {
                    let (lo, hi) = it.size_hint();
                    if lo > n || hi.is_some_and(|h| h < n) {
                        return Err(format!("size_hint {lo} {hi:?} for {n} nodes"));
                    }
                    let first = it.by_ref().take(m).count();
                    let rest = n - m.min(n);
                    let (lo, hi) = it.size_hint();
                    if first != m.min(n) || lo > rest || hi.is_some_and(|h| h < rest) {
                        return Err(format!("size_hint {lo} {hi:?} for {rest} remaining nodes"));
                    }
                    if it.count() != rest {
                        return Err("count of the rest".into());
                    }
                    Ok(())
                }
                4 => {
                    let x = it.nth(m).map(|x| k(&x));
                    if x != all.get(m).cloned() {
                        return Err(format!("nth({m}): {x:?}"));
                    }
                    ck("the rest after nth", it.map(|x| k(&x)).collect(), from(m + 1))
                }
                5 => ck("skip", it.skip(m).map(|x| k(&x)).collect(), from(m)),
                6 => ck("step_by", it.step_by(step).map(|x| k(&x)).collect(), &all.iter().step_by(step).cloned().collect::<Vec<_>>()),
                7 => {
                    if it.last().map(|x| k(&x)) != all.last().cloned() {
                        return Err("last".into());
                    }
                    Ok(())
                }
                8 => ck("fold", it.fold(vec![], |mut v, x| { v.push(k(&x)); v }), &all),
                9 => {
                    let mut p = it.peekable();
                    let mut v = vec![];
                    loop {
                        let a = p.peek().map(k);
                        match p.next() {
                            Some(x) if a == Some(k(&x)) => v.push(k(&x)),
                            None if a.is_none() => break,
                            _ => return Err("peek".into()),
                        }
                    }
                    ck("peekable", v, &all)
                }
                10 => {
                    // nodes outlive the iterator
                    let held: Vec<Rc<Node>> = it.by_ref().take(m).collect();
                    drop(it);
                    ck("nodes kept after the iterator is gone", held.iter().map(k).collect(), &all[..m.min(n)])
                }
                11 => {
                    let (a, b): (Vec<_>, Vec<_>) = it.enumerate().partition(|(i, _)| i % 2 == 0);
                    ck("partition", a.iter().map(|x| k(&x.1)).collect(), &all.iter().step_by(2).cloned().collect::<Vec<_>>())?;
                    ck("partition", b.iter().map(|x| k(&x.1)).collect(), &all.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>())
                }
                12 => {
                    let target = all.get(m).cloned();
                    let p = it.position(|x| Some(k(&x)) == target);
                    if p != target.as_ref().and_then(|t| all.iter().position(|x| x == t)) {
                        return Err(format!("position: {p:?}"));
                    }
                    Ok(())
                }
                13 => ck("zip with itself", it.zip(make(entry + 1, &t, &d)).filter(|(a, b)| k(a) == k(b)).map(|(a, _)| k(&a)).collect(), &all),
                14 => ck("chain", it.chain(make(entry + 1, &t, &d)).map(|x| k(&x)).collect(), &[&all[..], &all[..]].concat()),
                15 => {
                    let other = make(entry + 1, &t, &d);
                    if !it.map(|x| k(&x)).eq(other.map(|x| k(&x))) {
                        return Err("eq".into());
                    }
                    Ok(())
                }
                _ => {
                    // abandoned half way, then again from the start
                    it.by_ref().take(m).for_each(drop);
                    drop(it);
                    ck("again after an abandoned run", make(entry, &t, &d).map(|x| k(&x)).collect(), &all)
                }
            }
        });
        cx.count(&format!("iterator way {way:02}"), 1);
        if let Ok(Err(e)) | Err(e) = got {
            return viol(
                format!("iter: lazy iterator differs (way {way}, entry {entry}): {}", clip(&t, 200)),
                json!({"query": t, "document": doc_text(&d), "what": e, "m": m, "step": step}),
            );
        }
    }
    if n > 0 {
        cx.sample(|| json!({"query": t, "nodes": n, "ways": WAYS}));
    }
    Ok(())
}
fn interleaved(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut cs = vec![];
    for _ in 0..40 {
        if let Some(c) = case(r) {
            cs.push(c);
        }
        if cs.len() == 2 + cs.first().map(|c| c.1.len() % 3).unwrap_or(0) {
            break;
        }
    }
    let wants: Vec<Vec<(usize, String)>> = cs
        .iter()
        .map(|(_, t, d)| {
            sut(|| adapt::find(Cr::Iter, t, d)).ok().and_then(|x| x.ok()).map(|v| v.iter().map(|g| (g.ptr as usize, g.loc.clone())).collect())
        })
        .collect::<Option<_>>()
        .unwrap_or_default();
    if wants.len() != cs.len() {
        return Ok(());
    }
    cx.case(cs.iter().map(|c| &c.1).collect::<Vec<_>>(), wants.iter().any(|w| !w.is_empty()));
    // two iterators per query, advanced in a random order
    let mut r2 = Rng::new(r.next());
    let got = sut(|| {
        let mut its: Vec<Option<It>> = (0..cs.len() * 2).map(|k| Some(make(k, &cs[k / 2].1, &cs[k / 2].2))).collect();
        let mut got: Vec<Vec<(usize, String)>> = vec![vec![]; its.len()];
        let mut switches = 0u64;
        let mut last = usize::MAX;
        while its.iter().any(|x| x.is_some()) {
            let j = r2.below(its.len());
            if let Some(it) = &mut its[j] {
                match it.next() {
                    Some(x) => got[j].push(k(&x)),
                    None => its[j] = None,
                }
                if got[j].len() > wants[j / 2].len() + 3 {
                    its[j] = None;
                }
                switches += (j != last) as u64;
                last = j;
            }
        }
        (got, switches)
    });
    match got {
        Err(e) => viol("iter: interleaved iterators panic", json!({"what": e, "queries": cs.iter().map(|c| &c.1).collect::<Vec<_>>()})),
        Ok((got, sw)) => {
            cx.count("switches between iterators", sw);
            for (j, g) in got.iter().enumerate() {
                if *g != wants[j / 2] {
                    return viol(
                        format!("iter: interleaved iterator {j} differs: {}", clip(&cs[j / 2].1, 200)),
                        json!({"queries": cs.iter().map(|c| &c.1).collect::<Vec<_>>(), "documents": cs.iter().map(|c| doc_text(&c.2)).collect::<Vec<_>>(), "got": g.iter().take(30).map(|x| &x.1).collect::<Vec<_>>(), "want": wants[j / 2].iter().take(30).map(|x| &x.1).collect::<Vec<_>>()}),
                    );
                }
            }
            Ok(())
        }
    }
}
