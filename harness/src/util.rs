//! Shared judging helpers.
use crate::adapt::{self, Cr, Got};
use crate::entry::{self, Via};
use crate::eval::{self, PE};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{json, Value};

thread_local! {
    pub static SIGS: Sigs = std_sigs();
}
/// reference verdict with the standard functions
pub fn ref_std(t: &str, ext: bool) -> Result<Parsed, SynErr> {
    SIGS.with(|s| parse(t, s, ext))
}
/// Print a generated query, and make the reference parser confirm that it means the same.
pub fn print_checked(q: &Query, r: &mut Rng, st: gen::Style, sigs: &Sigs, ext: bool) -> String {
    let t = gen::print(q, r, st);
    match parse(&t, sigs, ext) {
        Ok(p) => {
            let (a, b) = (adapt::canon(&p.query), adapt::canon(q));
            assert!(p.sem.is_empty(), "generated query judged invalid by the reference: {t} {:?}", p.sem);
            assert!(a == b, "generator and reference disagree on {t}\n{a:?}\n{b:?}");
        }
        Err(e) => panic!("generated query rejected by the reference: {t}: {e:?}"),
    }
    t
}
pub fn print_std(q: &Query, r: &mut Rng, st: gen::Style) -> String {
    SIGS.with(|s| print_checked(q, r, st, s, false))
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}
pub fn doc_text(d: &Value) -> String {
    clip(&d.to_string(), 3000)
}
pub fn paths(v: &[(*const Value, Vec<PE>)]) -> Vec<String> {
    v.iter().take(40).map(|(_, p)| eval::normalized(p)).collect()
}

pub type Exp = Vec<(*const Value, Vec<PE>)>;
/// reference nodelist; None when the outcome depends on number precision beyond a double
pub fn expect(q: &Query, doc: &Value) -> Option<Exp> {
    eval::reset();
    let e = adapt::expect(q, doc, &eval::Std);
    if eval::over() || eval::AMBIGUOUS.with(|c| c.get()) {
        None
    } else {
        Some(e)
    }
}
/// does this evaluation take more work than the reference evaluator's budget?
pub fn too_much(q: &Query, doc: &Value) -> bool {
    expect(q, doc).is_none() && eval::over()
}
/// what is wrong with this outcome, if anything (node identity and order only)
pub fn judge_nodes(got: &Result<Result<Vec<Got>, String>, String>, exp: &Exp) -> Option<(&'static str, String)> {
    match got {
        Err(p) => Some(("panic", p.clone())),
        Ok(Err(e)) => Some(("rejected", e.clone())),
        Ok(Ok(v)) => {
            let same = v.len() == exp.len() && v.iter().zip(exp).all(|(g, e)| g.ptr == e.0);
            if same {
                None
            } else {
                let locs: Vec<String> = v.iter().take(40).map(|g| g.loc.clone()).collect();
                Some(("wrong nodelist", format!("returned {} nodes {locs:?}", v.len())))
            }
        }
    }
}
fn bad(c: Cr, way: Via, q: &Query, t: Option<&str>, doc: &Value) -> Option<(String, &'static str, String)> {
    let exp = expect(q, doc)?;
    let text = t.map(|s| s.to_string()).unwrap_or_else(|| gen::print_plain(q));
    let got = sut(|| way.run(c, &text, doc));
    judge_nodes(&got, &exp).map(|(w, d)| (text, w, d))
}
/// check one query on one document in the given crates
pub fn check_eval(cx: &mut Cx, q: &Query, text: &str, doc: &Value, crates: &[Cr]) -> Res {
    let Some(exp) = expect(q, doc) else {
        cx.count(if eval::over() { "skipped: too much work" } else { "skipped: precision beyond a double, or two readings of ^ or $" }, 1);
        return Ok(());
    };
    let nontrivial = !exp.is_empty();
    cx.case((text, doc.to_string()), nontrivial);
    cx.count("nodes selected", exp.len() as u64);
    cx.max("nodes in one nodelist", exp.len() as u64);
    if nontrivial {
        cx.count("non-empty nodelists", 1);
        cx.sample(|| json!({"query": text, "document": clip(&doc.to_string(), 200), "nodes": paths(&exp)}));
    }
    for (c, way) in crates.iter().flat_map(|c| entry::ways(*c, text.len()).into_iter().map(move |w| (c, w))) {
        let got = sut(|| way.run(*c, text, doc));
        cx.count("evaluations compared", 1);
        if let Some((what, d)) = judge_nodes(&got, &exp) {
            // the violation as found, plus a smaller one when shrinking finds it
            let (sq, sd) = shrink(*c, way, q, doc);
            let small = bad(*c, way, &sq, None, &sd);
            let mut detail = json!({"crate": way.label(*c), "query": text, "document": doc_text(doc), "expected": paths(&exp), "outcome": d});
            let mut key = text.to_string();
            let mut w = what;
            if let Some((st, sw, so)) = small {
                key = st.clone();
                w = sw;
                let e = expect(&sq, &sd).unwrap();
                detail["smaller"] = json!({"query": st, "document": doc_text(&sd), "expected": paths(&e), "outcome": so});
            }
            return viol(format!("{}: {w}: {}", way.label(*c), clip(&key, 200)), detail);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ shrinking

fn drop_each<T: Clone>(v: &[T], min: usize) -> Vec<Vec<T>> {
    if v.len() <= min {
        return vec![];
    }
    (0..v.len())
        .map(|i| {
            let mut w = v.to_vec();
            w.remove(i);
            w
        })
        .collect()
}
fn small_query(q: &Query) -> Vec<Query> {
    let mut o: Vec<Query> = drop_each(&q.segs, 0).into_iter().map(|segs| Query { root: q.root, segs }).collect();
    for (i, s) in q.segs.iter().enumerate() {
        let mut put = |s: Seg| {
            let mut q = q.clone();
            q.segs[i] = s;
            o.push(q);
        };
        for sels in drop_each(&s.sels, 1) {
            put(Seg { desc: s.desc, sels });
        }
        if s.desc {
            put(Seg { desc: false, sels: s.sels.clone() });
        }
        for (k, x) in s.sels.iter().enumerate() {
            let cands: Vec<Sel> = match x {
                Sel::Filter(e) => small_expr(e).into_iter().map(Sel::Filter).chain([Sel::Wild]).collect(),
                Sel::Slice(a, b, c) => {
                    let mut v = vec![];
                    if a.is_some() {
                        v.push(Sel::Slice(None, *b, *c));
                    }
                    if b.is_some() {
                        v.push(Sel::Slice(*a, None, *c));
                    }
                    if c.is_some() {
                        v.push(Sel::Slice(*a, *b, None));
                    }
                    v
                }
                Sel::Name(n) if n.chars().count() > 1 => n.chars().map(|c| Sel::Name(c.to_string())).take(4).collect(),
                _ => vec![],
            };
            for c in cands {
                let mut s = s.clone();
                s.sels[k] = c;
                put(s);
            }
        }
    }
    o
}
fn small_expr(e: &Expr) -> Vec<Expr> {
    match e {
        Expr::Or(v) | Expr::And(v) => {
            let or = matches!(e, Expr::Or(_));
            let mk = |v: Vec<Expr>| if or { Expr::Or(v) } else { Expr::And(v) };
            let mut o: Vec<Expr> = v.clone();
            for w in drop_each(v, 2) {
                o.push(mk(w));
            }
            for (i, x) in v.iter().enumerate() {
                for y in small_expr(x) {
                    let mut w = vec![];
                    for (k, z) in v.iter().enumerate() {
                        push_flat(&mut w, if k == i { y.clone() } else { z.clone() }, or);
                    }
                    o.push(mk(w));
                }
            }
            o
        }
        Expr::Not(x) => {
            let mut o = vec![(**x).clone()];
            o.extend(small_expr(x).into_iter().map(|y| Expr::Not(Box::new(y))));
            o
        }
        Expr::Cmp(l, op, r) => {
            let mut o = vec![];
            for x in small_operand(l) {
                o.push(Expr::Cmp(x, *op, r.clone()));
            }
            for x in small_operand(r) {
                o.push(Expr::Cmp(l.clone(), *op, x));
            }
            o
        }
        Expr::Test(q) => small_query(q).into_iter().map(Expr::Test).collect(),
        Expr::Call(c) => small_call(c).into_iter().map(Expr::Call).collect(),
    }
}
fn small_operand(o: &Operand) -> Vec<Operand> {
    match o {
        Operand::Lit(Lit::Str(s)) if s.chars().count() > 1 => s.chars().take(4).map(|c| Operand::Lit(Lit::Str(c.to_string()))).collect(),
        Operand::Lit(_) => vec![],
        Operand::Query(q) => drop_each(&q.segs, 0).into_iter().map(|segs| Operand::Query(Query { root: q.root, segs })).collect(),
        Operand::Call(c) => {
            let mut v: Vec<Operand> = small_call(c).into_iter().map(Operand::Call).collect();
            v.push(Operand::Lit(Lit::Num(Num::of_i(1))));
            v
        }
    }
}
fn small_call(c: &Call) -> Vec<Call> {
    let mut o = vec![];
    for (i, a) in c.args.iter().enumerate() {
        let cands: Vec<Arg> = match a {
            Arg::Lit(_) => vec![],
            Arg::Query(q) => small_query(q).into_iter().map(Arg::Query).collect(),
            Arg::Call(c) => small_call(c).into_iter().map(Arg::Call).collect(),
            Arg::Logic(e) => small_expr(e).into_iter().filter(|e| !matches!(e, Expr::Test(_) | Expr::Call(_))).map(Arg::Logic).collect(),
        };
        for x in cands {
            let mut c = c.clone();
            c.args[i] = x;
            o.push(c);
        }
    }
    o
}
fn small_doc(d: &Value) -> Vec<Value> {
    let mut o = vec![];
    match d {
        Value::Array(a) => {
            o.extend(a.iter().cloned());
            for w in drop_each(a, 0) {
                o.push(Value::Array(w));
            }
            for (i, x) in a.iter().enumerate() {
                for y in small_doc(x) {
                    let mut w = a.clone();
                    w[i] = y;
                    o.push(Value::Array(w));
                }
            }
        }
        Value::Object(m) => {
            o.extend(m.values().cloned());
            for k in m.keys() {
                let mut w = m.clone();
                w.remove(k);
                o.push(Value::Object(w));
            }
            for (k, x) in m {
                for y in small_doc(x) {
                    let mut w = m.clone();
                    w.insert(k.clone(), y);
                    o.push(Value::Object(w));
                }
            }
        }
        Value::String(s) if s.chars().count() > 1 => o.push(json!(s.chars().next().unwrap().to_string())),
        _ => {}
    }
    o
}
fn shrink(c: Cr, way: Via, q: &Query, doc: &Value) -> (Query, Value) {
    shrink_with(q, doc, &mut |q, d| {
        let t = gen::print_plain(q);
        matches!(ref_std(&t, c == Cr::Sing), Ok(p) if p.sem.is_empty()) && bad(c, way, q, None, d).is_some()
    })
}
/// a smaller query and document that are still bad
pub fn shrink_with(q: &Query, doc: &Value, bad: &mut dyn FnMut(&Query, &Value) -> bool) -> (Query, Value) {
    let (mut q, mut d) = (q.clone(), doc.clone());
    if gen::size(&d) > 400 || !bad(&q, &d) {
        return (q, d);
    }
    let t0 = std::time::Instant::now();
    'again: loop {
        for x in small_query(&q) {
            if t0.elapsed().as_secs() > 5 {
                break 'again;
            }
            if bad(&x, &d) {
                q = x;
                continue 'again;
            }
        }
        for x in small_doc(&d) {
            if t0.elapsed().as_secs() > 5 {
                break 'again;
            }
            if (gen::size(&x) < gen::size(&d) || x.to_string().len() < d.to_string().len()) && bad(&q, &x) {
                d = x;
                continue 'again;
            }
        }
        break;
    }
    (q, d)
}
