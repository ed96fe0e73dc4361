//! C23: the location lists of the locations and singular crates are immutable sequences.
use crate::adapt::Cr;
use crate::gen;
use crate::eval::PE;
use crate::rng::Rng;
use crate::run::*;
use serde_json::json;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C23" => Prop {
            id: "C23",
            rule: "histories of operations on a pool of location lists that share steps (taken from query results, collected, appended to, cut, cloned, dropped in any order); after each operation the new list, and others in the pool, are read in every way and compared with a plain vector that went through the same history; the same histories under AddressSanitizer (C20's stage); non-trivial: a history with a shared list",
            assumptions: &["lists are compared step by step: steps have no equality of their own"],
            stages: vec![stage("histories", 200_000, 2_000_000, histories), stage("long histories", 1_200, 12_000, long_histories), stage("paths", 100_000, 1_000_000, paths)],
        },
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    I(usize),
    N(String),
}

fn step(r: &mut Rng) -> S {
    if r.pct(50) {
        S::I(match r.below(6) {
            0 => usize::MAX,
            1 => r.next() as usize,
            _ => r.below(20),
        })
    } else {
        S::N(gen::name(r, 30))
    }
}

/// what is wrong with the list, if anything: `m` is its model, front first
macro_rules! check {
    ($m:ident, $l:expr, $want:expr) => {{
        use $m::node::PathElement;
        let l = $l;
        let want: &[S] = $want;
        let s = |e: &PathElement| match e {
            #[allow(clippy::unnecessary_cast)]
            PathElement::Index(i) => S::I(*i as usize),
            PathElement::Name(n) => S::N(n.to_string()),
        };
        let mut wrong: Option<(&str, String)> = None;
        if l.len() != want.len() {
            wrong = Some(("len()", l.len().to_string()));
        } else if l.is_empty() != want.is_empty() {
            wrong = Some(("is_empty()", l.is_empty().to_string()));
        } else if l.head().map(s).as_ref() != want.first() {
            wrong = Some(("head()", format!("{:?}", l.head())));
        } else if l.last().map(s).as_ref() != want.last() {
            wrong = Some(("last()", format!("{:?}", l.last())));
        } else {
            let mut it = l.iter();
            for k in 0..=want.len() {
                if it.size_hint() != (want.len() - k, Some(want.len() - k)) {
                    wrong = Some(("size_hint()", format!("{:?} after {k} steps", it.size_hint())));
                    break;
                }
                if it.next().map(s).as_ref() != want.get(k) {
                    wrong = Some(("iter()", format!("step {k} differs")));
                    break;
                }
            }
            if wrong.is_none() && it.next().is_some() {
                wrong = Some(("iter()", "goes on after its end".into()));
            }
            // the other ways to walk: skipping, by a copy of an iterator, counting, folding
            if wrong.is_none() {
                for k in [0, 1, want.len() / 2, want.len().saturating_sub(1), want.len(), want.len() + 3] {
                    let mut it = l.iter();
                    let got = it.nth(k).map(s);
                    let left = want.len().saturating_sub(k + 1);
                    let mut copy = it.clone();
                    if got.as_ref() != want.get(k) {
                        wrong = Some(("nth()", format!("nth({k}) is {got:?}")));
                    } else if it.size_hint() != (left, Some(left)) {
                        wrong = Some(("size_hint()", format!("{:?} after nth({k})", it.size_hint())));
                    } else if copy.next().map(s).as_ref() != want.get(k + 1) {
                        wrong = Some(("iter().clone()", format!("after nth({k})")));
                    } else if it.next().map(s).as_ref() != want.get(k + 1) {
                        wrong = Some(("iter()", format!("after nth({k}) and a copy of the iterator")));
                    }
                    if wrong.is_some() {
                        break;
                    }
                }
            }
            if wrong.is_none() && l.iter().count() != want.len() {
                wrong = Some(("iter().count()", l.iter().count().to_string()));
            }
            if wrong.is_none() && l.into_iter().fold(0, |n, _| n + 1) != want.len() {
                wrong = Some(("iter().fold()", "another number of steps".into()));
            }
        }
        wrong
    }};
}

macro_rules! history {
    ($m:ident, $cx:expr, $r:expr, $ops:expr, $long:expr, $c:expr) => {{
        use $m::node::{Location, PathElement};
        let r: &mut Rng = $r;
        let el = |s: &S| match s {
            #[allow(clippy::unnecessary_cast)]
            S::I(i) => PathElement::Index(*i as _),
            S::N(n) => PathElement::Name(n.clone().into()),
        };
        let mut pool: Vec<(Location, Vec<S>)> = vec![];
        let mut log: Vec<String> = vec![];
        // lists as queries give them
        {
            let d = gen::doc(r, 4, 4, 20);
            let nodes = $m::find("$..*", &d).unwrap();
            for n in nodes.into_iter().take(12) {
                let mut m: Vec<S> = vec![];
                for e in n.location.iter() {
                    m.push(match e {
                        #[allow(clippy::unnecessary_cast)]
                        PathElement::Index(i) => S::I(*i as usize),
                        PathElement::Name(s) => S::N(s.to_string()),
                    });
                }
                pool.push((n.location, m));
            }
        }
        log.push(format!("{} lists of a result", pool.len()));
        let mut shared = pool.len() > 1;
        for _ in 0..$ops {
            let i = if pool.is_empty() { 0 } else if $long && r.pct(60) { pool.len() - 1 } else { r.below(pool.len()) };
            let op = if pool.is_empty() { r.below(2) } else if $long && r.pct(60) { 2 } else { r.below(13) };
            let (new, what): (Option<(Location, Vec<S>)>, String) = match op {
                0 => (Some((Location::new(), vec![])), "new".into()),
                1 => {
                    let n = r.below(8);
                    let steps: Vec<S> = (0..n).map(|_| step(r)).collect();
                    // from iterators that know, bound or cannot tell how many items are left
                    let l: Location = match r.below(4) {
                        0 => steps.iter().map(el).collect(),
                        1 => steps.iter().filter(|_| true).map(el).collect(),
                        2 => {
                            let mut left = steps.iter();
                            std::iter::from_fn(|| left.next().map(el)).collect()
                        }
                        _ => steps.iter().take(n / 2).chain(steps.iter().skip(n / 2)).map(el).collect::<Vec<_>>().into_iter().collect(),
                    };
                    // every step is put in front
                    (Some((l, steps.into_iter().rev().collect())), format!("collect {n}"))
                }
                2..=5 => {
                    let s = step(r);
                    let l = pool[i].0.append(el(&s));
                    let mut m = vec![s];
                    m.extend(pool[i].1.iter().cloned());
                    shared = true;
                    (Some((l, m)), format!("append to {i}"))
                }
                6 => {
                    let l = pool[i].0.tail();
                    let m = pool[i].1.iter().skip(1).cloned().collect();
                    (Some((l, m)), format!("tail of {i}"))
                }
                7 => {
                    let n = [r.below(4), r.below(pool[i].1.len() + 2), pool[i].1.len(), usize::MAX][r.below(4)];
                    let l = pool[i].0.tailn(n);
                    let m = pool[i].1.iter().skip(n).cloned().collect();
                    (Some((l, m)), format!("tailn {n} of {i}"))
                }
                8 => {
                    let n = [r.below(4), r.below(pool[i].1.len() + 2), pool[i].1.len(), usize::MAX][r.below(4)];
                    let l = pool[i].0.lastn(n);
                    let m = pool[i].1[pool[i].1.len().saturating_sub(n)..].to_vec();
                    (Some((l, m)), format!("lastn {n} of {i}"))
                }
                9 => (Some((pool[i].0.clone(), pool[i].1.clone())), format!("clone {i}")),
                10 => {
                    drop(pool.remove(i));
                    (None, format!("drop {i}"))
                }
                11 => {
                    drop(pool.swap_remove(i));
                    (None, format!("swap out {i}"))
                }
                _ => {
                    let a = pool[i].0.iter().count();
                    let b = (&pool[i].0).into_iter().count();
                    if a != pool[i].1.len() || b != a {
                        return viol(format!("{}: iter().count() of a list differs", $c.name()), json!({"crate": $c.name(), "history": log, "list": pool[i].1.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), "counts": [a, b]}));
                    }
                    (None, format!("count {i}"))
                }
            };
            log.push(what);
            $cx.count("operations on lists", 1);
            if let Some(n) = new {
                pool.push(n);
            }
            if pool.len() > 40 {
                let k = r.below(pool.len());
                pool.remove(k);
                log.push(format!("drop {k}"));
            }
            // the new list, and two others: nobody may have changed them
            let mut which = vec![];
            if !pool.is_empty() {
                which.push(pool.len() - 1);
                which.push(r.below(pool.len()));
                which.push(i.min(pool.len() - 1));
            }
            for k in which {
                if let Some((what, is)) = check!($m, &pool[k].0, &pool[k].1) {
                    let n = log.len();
                    return viol(
                        format!("{}: {what} of a location list is wrong", $c.name()),
                        json!({"crate": $c.name(), "last operations": log[n.saturating_sub(30)..], "list": k, "it should be": pool[k].1.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), what: is}),
                    );
                }
                $cx.count("lists read", 1);
            }
        }
        for k in 0..pool.len() {
            if let Some((what, is)) = check!($m, &pool[k].0, &pool[k].1) {
                let n = log.len();
                return viol(
                    format!("{}: {what} of a location list is wrong", $c.name()),
                    json!({"crate": $c.name(), "last operations": log[n.saturating_sub(30)..], "list": k, "it should be": pool[k].1.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), what: is}),
                );
            }
            $cx.max("longest list", pool[k].1.len() as u64);
        }
        $cx.count("lists read", pool.len() as u64);
        (log, shared)
    }};
}

pub fn histories(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let ops = 10 + r.below(60);
    run_history(cx, i, r, ops)
}
fn long_histories(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let ops = 1_500 + r.below(2_000);
    run_history(cx, i, r, ops)
}
fn run_history(cx: &mut Cx, i: u64, r: &mut Rng, ops: usize) -> Res {
    let c = [Cr::Loc, Cr::Sing][i as usize % 2];
    let long = ops > 1_000;
    let (log, shared) = match c {
        Cr::Loc => history!(jsonpath_rfc9535_locations, cx, r, ops, long, c),
        _ => history!(jsonpath_rfc9535_singular, cx, r, ops, long, c),
    };
    cx.case((c, &log), shared);
    cx.sample(|| json!({"crate": c.name(), "history": &log[..log.len().min(20)]}));
    Ok(())
}

/// a node made of a list prints the path of that list, and a child's location only adds a step in front
fn paths(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let c = [Cr::Loc, Cr::Sing][i as usize % 2];
    let n = if r.pct(3) { 200 + r.below(400) } else { r.below(12) };
    let steps: Vec<S> = (0..n).map(|_| step(r)).collect();
    let more = step(r);
    let pe = |s: &S| match s {
        S::I(i) => PE::Idx(*i),
        S::N(n) => PE::Name(n.clone()),
    };
    let mut want: Vec<PE> = steps.iter().map(pe).collect();
    let path = crate::eval::normalized(&want);
    want.push(pe(&more));
    let child = crate::eval::normalized(&want);
    let v = json!([1]);
    macro_rules! go {
        ($m:ident) => {{
            use $m::node::{Location, Node, PathElement};
            let l: Location = steps
                .iter()
                .map(|s| match s {
                    S::I(i) => PathElement::Index(*i as _),
                    S::N(n) => PathElement::Name(n.clone().into()),
                })
                .collect();
            let node = match &more {
                S::I(i) => Node::new_array_element(&v, &l, *i as _),
                S::N(n) => Node::new_object_member(&v, &l, n.clone().into()),
            };
            let before = Node { value: &v, location: l };
            let mut m: Vec<S> = steps.iter().rev().cloned().collect();
            let a = check!($m, &before.location, &m);
            m.insert(0, more.clone());
            (before.path(), node.path(), a, check!($m, &node.location, &m))
        }};
    }
    let (a, b, x, y) = match c {
        Cr::Loc => go!(jsonpath_rfc9535_locations),
        _ => go!(jsonpath_rfc9535_singular),
    };
    cx.case((c, &path, &child), n > 0);
    cx.count("paths compared", 2);
    if a != path || b != child || x.is_some() || y.is_some() {
        return viol(
            format!("{}: the path of a location list is wrong", c.name()),
            json!({"crate": c.name(), "list": path, "path()": a, "with one more step": child, "its path()": b, "list wrong": format!("{x:?} {y:?}")}),
        );
    }
    Ok(())
}
