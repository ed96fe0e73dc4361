//! C21: registered functions receive typed arguments and their results are used.
use crate::adapt::{self, Cr, EVAL};
use crate::custom::{self, NArg, NRet};
use crate::entry::{self, Envs};
use crate::eval::{self, A, Funcs, Ret, V};
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C21" => Prop {
            id: "C21",
            rule: "generated queries calling registered functions of 52 signatures (none to 20 parameters); each call is logged with the arguments received and answered by a pure function of them; nodelists and call logs are compared with the reference evaluator calling the same functions; non-trivial: at least one call received",
            assumptions: &[
                "`&&` and `||` may or may not evaluate operands that cannot change the outcome, and existence tests may stop at the first node: calls must lie between the two",
                "numbers are compared as doubles (integers and integral doubles are the same argument)",
                "registered functions return what their signature declares",
            ],
            stages: vec![
                stage("one call", 24_000, 250_000, one_call),
                stage("argument forms", (FORMS * 3) as u64 * 4, (FORMS * 3) as u64 * 200, forms),
                stage("large arguments", 1_200, 12_000, large_args),
                stage("generated queries", 30_000, 300_000, generated),
                stage("replaced standard functions", 12_000, 120_000, replaced),
                stage("environments side by side", 9_000, 80_000, side_by_side),
                stage("same names, other signatures", 2_500, 40_000, other_sigs),
            ],
        },
        _ => return None,
    })
}

use Ty::{Logical as L, Nodes as N, Value as W};
const PARAMS: &[&[Ty]] = &[&[], &[W], &[L], &[N], &[W, W], &[W, L], &[L, W], &[L, N], &[N, W], &[N, N], &[W, N, L], &[N, L, W], &[W, W, W, W], &[L, W, N, W, L], &[W, N, L, W, N, L, W], &[W, W, W, W, W, W, W, W, W, L, N], &[N, L, W, W, L, N, N, W, L, L, W, W, N, L, W, N, L, W, W, N]];
const NAMES: &[&str] = &["f", "aa", "x_9", "lengths", "coun", "value_", "true_", "nullish", "match2", "s", "search_all", "e1", "or", "five", "seven", "eleven", "twenty"];
fn own_sigs() -> Vec<(String, Sig)> {
    let mut v = vec![];
    for (i, p) in PARAMS.iter().enumerate() {
        for (suffix, ret) in [("", W), ("_l", L), ("n", N)] {
            v.push((format!("{}{suffix}", NAMES[i]), (p.to_vec(), ret)));
        }
    }
    v.push(("z0123456789_abcdefghijklmnopqrstuvwxyz".into(), (vec![W], L)));
    v
}

// ------------------------------------------------------------ the functions
thread_local! {
    static SPEC: Cell<u64> = const { Cell::new(0) };
    static POS: RefCell<HashMap<*const Value, usize>> = RefCell::new(HashMap::new());
    static LOG: RefCell<Vec<(String, String)>> = const { RefCell::new(vec![]) };
    static OWN: (Envs, Vec<(String, Sig)>) = {
        let s = own_sigs();
        (custom::envs(&s, &|_| Arc::new(|n, a| body("", n, a))), s)
    };
    /// every standard function replaced
    static OVER: (Envs, Envs) = {
        let s = gen::std_sigs_sorted();
        (custom::envs(&s, &|_| Arc::new(|n, a| body("", n, a))), custom::envs(&s, &|_| Arc::new(|n, a| body("other ", n, a))))
    };
}
/// environments in which the names of all functions, standard ones too, have the signatures of others
const WORLDS: [&str; 3] = ["first ", "second ", "third "];
fn world_sigs(k: usize) -> Vec<(String, Sig)> {
    let own = own_sigs();
    let names: Vec<String> = own.iter().map(|x| x.0.clone()).chain(gen::std_sigs_sorted().into_iter().map(|x| x.0)).collect();
    names.into_iter().enumerate().map(|(i, n)| (n, own[(i + 7 * (k + 1)) % own.len()].1.clone())).collect()
}
type World = (Envs, HashMap<String, Sig>, Vec<(String, Sig)>);
thread_local! {
    static ROTATED: Vec<World> = WORLDS
        .into_iter()
        .enumerate()
        .map(|(k, w)| {
            let s = world_sigs(k);
            (custom::envs(&s, &move |_| Arc::new(move |n, a| body(w, n, a))), s.iter().cloned().collect(), s)
        })
        .collect();
}
fn sig_of(world: &str, n: &str) -> Option<Sig> {
    if let Some(k) = WORLDS.iter().position(|w| *w == world) {
        return ROTATED.with(|w| w[k].1.get(n).cloned());
    }
    OWN.with(|o| o.1.iter().find(|x| x.0 == n).map(|x| x.1.clone())).or_else(|| std_sigs().get(n).cloned())
}
fn num_text(f: f64) -> String {
    if f == 0.0 {
        "0".into()
    } else {
        format!("{f}")
    }
}
fn json_text(v: &Value) -> String {
    match v {
        Value::Number(n) => num_text(n.as_f64().unwrap()),
        Value::Array(a) => format!("[{}]", a.iter().map(json_text).collect::<Vec<_>>().join(",")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k:?}:{}", json_text(v))).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}
/// the same text for the same argument, wherever it comes from
fn arg_text(a: &NArg) -> String {
    match a {
        NArg::Nothing => "nothing".into(),
        NArg::Null => "null".into(),
        NArg::Bool(b) => format!("{b}"),
        NArg::Int(i) => num_text(*i as f64),
        NArg::Float(f) => num_text(*f),
        NArg::Str(s) => format!("{s:?}"),
        NArg::Json(v, _) => json_text(v),
        NArg::Nodes(n) => POS.with(|p| {
            let p = p.borrow();
            let l: Vec<String> = n
                .iter()
                .map(|a| p.get(&(*a as *const Value)).map(|i| format!("#{i}")).unwrap_or("not-in-document".into()))
                .collect();
            format!("nodes[{}]", l.join(" "))
        }),
    }
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h ^ b as u64))
}
/// log the call and answer it
fn body(world: &str, name: &str, args: &[NArg]) -> NRet {
    let text: Vec<String> = args.iter().map(arg_text).collect();
    let text = text.join(", ");
    let (params, ret) = sig_of(world, name).unwrap();
    let h = hash(&format!("{world}{name}({text}){}", SPEC.with(|s| s.get())));
    LOG.with(|l| l.borrow_mut().push((format!("{world}{name}"), text)));
    let x = (h >> 8) as usize;
    match ret {
        L => NRet::Bool(h & 1 == 1),
        N => match params.iter().position(|p| *p == N) {
            Some(k) if h % 5 != 0 => {
                let n = match &args.get(k) {
                    Some(NArg::Nodes(n)) => n.len(),
                    _ => 0,
                };
                let mut keep: Vec<usize> = (0..n).filter(|i| mix(h ^ *i as u64) % 3 != 0).collect();
                if h & 32 != 0 {
                    keep.reverse();
                }
                NRet::Nodes(k, keep)
            }
            _ => NRet::NoNodes,
        },
        W => match h % 12 {
            0 => NRet::Nothing,
            1 => NRet::Null,
            2 => NRet::Bool(x % 2 == 0),
            3 | 4 => NRet::Int(x as i64 % 7 - 3),
            5 => NRet::Float((x % 7) as f64 / 2.0 - 1.0),
            6 => NRet::Str(gen::STRS[x % gen::STRS.len()].into()),
            7 => NRet::Str(gen::NAMES[x % gen::NAMES.len()].into()),
            _ => match params.iter().position(|p| *p == W) {
                Some(k) => NRet::Arg(k),
                None => NRet::Int(1),
            },
        },
    }
}
/// the reference side: the same functions
struct Own<'s> {
    sigs: &'s HashMap<String, Sig>,
    /// which names answer by `body`
    mine: &'s dyn Fn(&str) -> bool,
    world: &'static str,
}
fn narg(a: &A) -> NArg {
    fn val(v: &Value) -> NArg {
        match v {
            Value::Null => NArg::Null,
            Value::Bool(b) => NArg::Bool(*b),
            Value::Number(n) => NArg::Float(n.as_f64().unwrap()),
            Value::String(s) => NArg::Str(s.clone()),
            v => NArg::Json(v.clone(), 0),
        }
    }
    match a {
        A::Bool(b) => NArg::Bool(*b),
        A::Nodes(n) => NArg::Nodes(n.iter().map(|n| n.v as *const Value as usize).collect()),
        A::Val(v) => match v {
            V::Nothing => NArg::Nothing,
            V::Null => NArg::Null,
            V::Bool(b) => NArg::Bool(*b),
            V::Num(n) => NArg::Float(n.f),
            V::Str(s) => NArg::Str(s.clone()),
            V::Ref(v) => val(v),
            V::Owned(v) => val(v),
        },
    }
}
impl Funcs for Own<'_> {
    fn sig(&self, name: &str) -> Option<Sig> {
        self.sigs.get(name).cloned()
    }
    fn call<'a>(&self, name: &str, args: Vec<A<'a>>) -> Ret<'a> {
        if !(self.mine)(name) {
            return eval::Std.call(name, args);
        }
        // the arguments are written out, here and by the code under test
        eval::charge(args.iter().map(|a| match a {
            A::Val(V::Ref(v)) => gen::size(v),
            A::Val(V::Owned(v)) => gen::size(v),
            A::Nodes(n) => n.len(),
            _ => 1,
        }).sum::<usize>() as u64);
        if eval::over() {
            return match self.sigs[name].1 {
                L => Ret::Bool(false),
                N => Ret::Nodes(vec![]),
                W => Ret::Val(V::Nothing),
            };
        }
        let n: Vec<NArg> = args.iter().map(narg).collect();
        match body(self.world, name, &n) {
            NRet::Nothing => Ret::Val(V::Nothing),
            NRet::Null => Ret::Val(V::Null),
            NRet::Bool(b) => {
                if self.sigs[name].1 == L {
                    Ret::Bool(b)
                } else {
                    Ret::Val(V::Bool(b))
                }
            }
            NRet::Int(i) => Ret::Val(V::Num(Num::of_i(i))),
            NRet::Float(f) => Ret::Val(V::Num(Num::of_f(f))),
            NRet::Str(s) => Ret::Val(V::Str(s)),
            NRet::Arg(k) => match &args[k] {
                A::Val(v) => Ret::Val(v.clone()),
                _ => unreachable!(),
            },
            NRet::Nodes(k, keep) => match &args[k] {
                A::Nodes(v) => Ret::Nodes(keep.iter().map(|i| v[*i].clone()).collect()),
                _ => unreachable!(),
            },
            NRet::NoNodes => Ret::Nodes(vec![]),
        }
    }
}

// ------------------------------------------------------------ judging
type Log = Vec<(String, String)>;
fn take() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
struct Want {
    nodes: Exp,
    eager: Log,
    lazy: Log,
}
/// None when the case is not judged
fn reference(q: &Query, d: &Value, f: &Own) -> Option<Want> {
    take();
    eval::reset();
    let nodes = adapt::expect(q, d, f);
    let eager = take();
    let skip = eval::over() || eval::AMBIGUOUS.with(|c| c.get());
    eval::LAZY.with(|l| l.set(true));
    eval::reset();
    let again = adapt::expect(q, d, f);
    eval::LAZY.with(|l| l.set(false));
    let lazy = take();
    if skip || eval::over() || eval::AMBIGUOUS.with(|c| c.get()) {
        return None;
    }
    assert!(nodes.len() == again.len() && nodes.iter().zip(&again).all(|(a, b)| a.0 == b.0));
    Some(Want { nodes, eager, lazy })
}
/// how often each function is called in the text, and whether any call is inside an inner query
fn uses(q: &Query) -> BTreeMap<String, (usize, bool)> {
    type M = BTreeMap<String, (usize, bool)>;
    fn qy(q: &Query, inner: bool, m: &mut M) {
        for s in &q.segs {
            for s in &s.sels {
                if let Sel::Filter(e) = s {
                    ex(e, inner, m)
                }
            }
        }
    }
    fn ex(e: &Expr, inner: bool, m: &mut M) {
        match e {
            Expr::Or(v) | Expr::And(v) => v.iter().for_each(|e| ex(e, inner, m)),
            Expr::Not(e) => ex(e, inner, m),
            Expr::Cmp(a, _, b) => {
                for o in [a, b] {
                    match o {
                        Operand::Query(q) => qy(q, true, m),
                        Operand::Call(c) => ca(c, inner, m),
                        _ => {}
                    }
                }
            }
            Expr::Test(q) => qy(q, true, m),
            Expr::Call(c) => ca(c, inner, m),
        }
    }
    fn ca(c: &Call, inner: bool, m: &mut M) {
        let e = m.entry(c.name.clone()).or_insert((0, false));
        e.0 += 1;
        e.1 |= inner;
        for a in &c.args {
            match a {
                Arg::Query(q) => qy(q, true, m),
                Arg::Call(c) => ca(c, inner, m),
                Arg::Logic(e) => ex(e, inner, m),
                _ => {}
            }
        }
    }
    let mut m = M::new();
    qy(q, false, &mut m);
    m
}
fn subsequence(a: &[&str], b: &[&str]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}
fn bag<'a>(v: &[&'a str]) -> BTreeMap<&'a str, usize> {
    let mut m = BTreeMap::new();
    v.iter().for_each(|x| *m.entry(*x).or_insert(0) += 1);
    m
}
fn within(a: &[&str], b: &[&str]) -> bool {
    let b = bag(b);
    bag(a).iter().all(|(k, n)| b.get(k).is_some_and(|m| n <= m))
}
/// what is wrong with the observed calls, if anything
fn judge_log(q: &Query, w: &Want, got: &Log, world: &str) -> Option<(String, String)> {
    let u = uses(q);
    for (n, _) in got {
        let n = n.strip_prefix(world).unwrap_or("?");
        if !u.contains_key(n) {
            return Some(("call of a function the query does not call".into(), n.into()));
        }
    }
    for (n, (times, inner)) in u {
        let full = format!("{world}{n}");
        let of = |l: &'_ Log| -> Vec<String> { l.iter().filter(|x| x.0 == full).map(|x| x.1.clone()).collect() };
        let (g, e, z) = (of(got), of(&w.eager), of(&w.lazy));
        let (g, e, z): (Vec<&str>, Vec<&str>, Vec<&str>) =
            (g.iter().map(|s| &s[..]).collect(), e.iter().map(|s| &s[..]).collect(), z.iter().map(|s| &s[..]).collect());
        let bad = if !within(&g, &e) {
            "received calls it should not"
        } else if !inner && !within(&z, &g) {
            "missed calls"
        } else if !inner && times == 1 && !(subsequence(&z, &g) && subsequence(&g, &e)) {
            "received its calls in another order"
        } else {
            continue;
        };
        let show = |v: &[&str]| v.iter().take(12).map(|s| format!("({})", clip(s, 200))).collect::<Vec<_>>().join(" ");
        return Some((
            format!("{n} {bad}"),
            format!("received {} calls: {}; expected {} calls: {}{}", g.len(), show(&g), e.len(), show(&e), if z == e { String::new() } else { format!(", or at least {}: {}", z.len(), show(&z)) }),
        ));
    }
    None
}
struct Setup<'s> {
    envs: Envs,
    sigs: &'s HashMap<String, Sig>,
    mine: &'s dyn Fn(&str) -> bool,
    world: &'static str,
    /// through the environment's own `find` (which parses with the standard signatures)
    by_env: bool,
}
fn observe((c, loops): (Cr, bool), q: &Query, t: &str, d: &Value, s: &Setup) -> Option<(String, String, usize)> {
    let f = Own { sigs: s.sigs, mine: s.mine, world: s.world };
    POS.with(|p| *p.borrow_mut() = entry::positions(d));
    let w = reference(q, d, &f)?;
    let got = sut(|| {
        if s.by_env && loops {
            return entry::env_find_loop(t, d, &s.envs);
        }
        if s.by_env {
            return entry::env_find(c, t, d, &s.envs);
        }
        let mut p = adapt::parser(c);
        for (n, sg) in s.sigs {
            p.add(n, sg);
        }
        match p.parse(t) {
            Ok(p) if loops => entry::run_loop(&p, d, &s.envs),
            Ok(p) => entry::run(&p, d, &s.envs),
            Err(e) => Err(format!("rejected: {}", e.display)),
        }
    });
    let log = take();
    if let Some((what, how)) = judge_nodes(&got, &w.nodes) {
        return Some((what.into(), format!("{how}, expected {} nodes {:?}", w.nodes.len(), paths(&w.nodes)), log.len()));
    }
    let n = log.len();
    match judge_log(q, &w, &log, s.world) {
        Some((a, b)) => Some((a, b, n)),
        None => Some((String::new(), String::new(), n)),
    }
}
fn check(cx: &mut Cx, q: &Query, t: &str, d: &Value, s: &Setup) -> Res {
    let mut calls = 0;
    // the looping entry point of the serde crate too
    for c in EVAL.into_iter().map(|c| (c, false)).chain([(Cr::Serde, true)]) {
        let Some((what, how, n)) = observe(c, q, t, d, s) else {
            cx.count("skipped: too much work or beyond double precision", 1);
            return Ok(());
        };
        calls += n;
        cx.count("calls received", n as u64);
        cx.max("calls received in one evaluation", n as u64);
        if !what.is_empty() {
            // smaller query or document with a violation of the same kind?
            let (sq, sd) = shrink_with(q, d, &mut |q, d| {
                let t = gen::print_plain(q);
                matches!(parse(&t, s.sigs, false), Ok(p) if p.sem.is_empty()) && matches!(observe(c, q, &t, d, s), Some((w, ..)) if !w.is_empty())
            });
            let st = gen::print_plain(&sq);
            let small = observe(c, &sq, &st, &sd, s);
            let key = if small.is_some() { st.clone() } else { t.to_string() };
            return viol(
                format!("{}{}: {what}: {}", c.0.name(), if c.1 { " find_loop" } else { "" }, clip(&key, 200)),
                json!({"crate": c.0.name(), "query": t, "document": doc_text(d), "observed": how,
                    "signatures": uses(q).keys().map(|n| format!("{n}: {:?}", s.sigs.get(n))).collect::<Vec<_>>(),
                    "smaller": {"query": st, "document": doc_text(&sd), "observed": small.map(|x| format!("{}: {}", x.0, x.1))}}),
            );
        }
    }
    cx.case((t, d.to_string(), SPEC.with(|s| s.get())), calls > 0);
    if calls > 0 {
        cx.sample(|| json!({"query": t, "document": clip(&d.to_string(), 200), "calls in four engines": calls}));
    }
    Ok(())
}
fn all_sigs() -> HashMap<String, Sig> {
    let mut m = std_sigs();
    OWN.with(|o| m.extend(o.1.iter().cloned()));
    m
}
fn own<'s>(sigs: &'s HashMap<String, Sig>, mine: &'s dyn Fn(&str) -> bool) -> Setup<'s> {
    Setup { envs: OWN.with(|o| o.0), sigs, mine, world: "", by_env: false }
}
fn respec(r: &mut Rng) {
    SPEC.with(|s| s.set(r.next()));
}

// ------------------------------------------------------------ stages
fn one_call(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    respec(r);
    let sigs = all_sigs();
    let mine = |n: &str| !std_sigs().contains_key(n);
    let cfg = Cfg { sigs: vec![], filters: 30, max_depth: 3, max_segs: 2, ..Cfg::std() };
    let (n, (params, ret)) = OWN.with(|o| r.pick(&o.1).clone());
    let call = Call { name: n, args: params.iter().map(|t| gen::arg(r, &cfg, 2, *t)).collect() };
    let mut e = if ret == W {
        let other = if r.pct(50) { Operand::Query(gen::singular(r, &cfg)) } else { Operand::Lit(gen::lit(r, &cfg)) };
        let op = *r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
        if r.pct(50) {
            Expr::Cmp(Operand::Call(call), op, other)
        } else {
            Expr::Cmp(other, op, Operand::Call(call))
        }
    } else {
        Expr::Call(call)
    };
    if r.pct(30) {
        e = Expr::Not(Box::new(e));
    }
    let mut segs: Vec<Seg> = (0..r.below(2)).map(|_| gen::seg(r, &cfg, 3)).collect();
    segs.push(Seg { desc: r.pct(40), sels: vec![Sel::Filter(e)] });
    for _ in 0..r.below(2) {
        segs.push(gen::seg(r, &cfg, 3));
    }
    let q = Query { root: Root::Abs, segs };
    let st = Style::random(r);
    let t = print_checked(&q, r, st, &sigs, false);
    let d = gen::guided_doc(r, &q, 20);
    check(cx, &q, &t, &d, &own(&sigs, &mine))
}

/// put long strings, arrays and objects in the place of a few of the values
fn inflate(r: &mut Rng, d: &mut Value, left: &mut u32) {
    match d {
        Value::Array(a) if !a.is_empty() && r.pct(80) => a.iter_mut().for_each(|x| inflate(r, x, left)),
        Value::Object(o) if !o.is_empty() && r.pct(80) => o.iter_mut().for_each(|(_, x)| inflate(r, x, left)),
        _ if *left > 0 && r.pct(40) => {
            *left -= 1;
            let n = *r.pick(&[31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]);
            *d = match r.below(4) {
                0 => json!(r.pick(&["a", "\u{e9}", "\u{1d11e}", "'\\"]).repeat(n * *r.pick(&[1, 1, 4, 64]))),
                1 => Value::Array((0..n).map(|i| if i % 7 == 0 { json!({"a": i}) } else { json!(i % 5) }).collect()),
                2 => Value::Object((0..n).map(|i| (format!("k{i}"), json!(i))).collect()),
                _ => Value::Array((0..n).map(|i| json!("s".repeat(i % 9))).collect()),
            };
        }
        _ => {}
    }
}
/// one call with values and nodelists that are large, or long literals
fn large_args(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    respec(r);
    let sigs = all_sigs();
    let mine = |n: &str| !std_sigs().contains_key(n);
    let cfg = Cfg { sigs: vec![], filters: 10, max_depth: 2, max_segs: 2, ..Cfg::std() };
    let (n, (params, ret)) = OWN.with(|o| r.pick(&o.1).clone());
    let args = params
        .iter()
        .map(|t| match t {
            Ty::Value if r.pct(15) => Arg::Lit(Lit::Str(r.pick(&["a", "'", "\u{1d11e}", "\\"]).repeat(*r.pick(&[64usize, 127, 128, 255, 256, 257, 1024, 4097, 65_536])))),
            Ty::Value => Arg::Query(gen::singular(r, &cfg)),
            Ty::Nodes => {
                let sel = if r.pct(70) { Sel::Wild } else { Sel::Slice(None, None, Some(-1)) };
                let root = if r.pct(70) { Root::Rel } else { Root::Abs };
                Arg::Query(Query { root, segs: vec![Seg { desc: r.pct(40), sels: vec![sel] }] })
            }
            t => gen::arg(r, &cfg, 2, *t),
        })
        .collect();
    let call = Call { name: n, args };
    let e = if ret == W { Expr::Cmp(Operand::Call(call), *r.pick(&[Op::Eq, Op::Ne, Op::Le]), Operand::Lit(gen::lit(r, &cfg))) } else { Expr::Call(call) };
    let q = Query { root: Root::Abs, segs: vec![Seg { desc: false, sels: vec![Sel::Filter(e)] }] };
    let t = print_checked(&q, r, Style::plain(), &sigs, false);
    let mut d = gen::guided_doc(r, &q, 5);
    inflate(r, &mut d, &mut 2);
    cx.max("bytes of one document", d.to_string().len() as u64);
    check(cx, &q, &t, &d, &own(&sigs, &mine))
}
const FORMS: usize = 41;
/// every argument form a parameter can be given, over one value of every kind
fn forms(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    respec(r);
    let sigs = all_sigs();
    let mine = |n: &str| !std_sigs().contains_key(n);
    let form = i as usize % FORMS;
    let fun = i as usize / FORMS % 3;
    let name = |n: &str| Seg { desc: false, sels: vec![Sel::Name(n.into())] };
    let rel = |segs: Vec<Seg>| Query { root: Root::Rel, segs };
    let abs = |segs: Vec<Seg>| Query { root: Root::Abs, segs };
    let wild = |desc| Seg { desc, sels: vec![Sel::Wild] };
    let n = |t: &str| Lit::Num(Num::of_text(t));
    let vals = [
        "null", "true", "false", "0", "-1", "9007199254740993", "-0.0", "1.5", "1e300", "18446744073709551615", "9223372036854775807",
        "-9223372036854775808", "\"\"", "\"a\"", "\"\\u0000\"", "[]", "[1,2]", "[null]", "{}", "{\"a\":1}", "[[],{}]",
    ];
    let callw = |n: &str, args: Vec<Arg>| Arg::Call(Call { name: n.into(), args });
    // (argument, types it fits)
    let (arg, fits): (Arg, &[Ty]) = match form {
        0 => (Arg::Lit(Lit::Null), &[W]),
        1 => (Arg::Lit(Lit::Bool(true)), &[W]),
        2 => (Arg::Lit(Lit::Bool(false)), &[W]),
        3 => (Arg::Lit(n("0")), &[W]),
        4 => (Arg::Lit(n("-0.0")), &[W]),
        5 => (Arg::Lit(n("9007199254740991")), &[W]),
        6 => (Arg::Lit(n("1.5")), &[W]),
        7 => (Arg::Lit(n("1e2")), &[W]),
        8 => (Arg::Lit(n("1e300")), &[W]),
        9 => (Arg::Lit(Lit::Str("".into())), &[W]),
        10 => (Arg::Lit(Lit::Str("a'\"\\\u{1}☺".into())), &[W]),
        11 => (Arg::Query(rel(vec![])), &[W, L, N]),
        12 => (Arg::Query(abs(vec![])), &[W, L, N]),
        13 => (Arg::Query(rel(vec![name("v")])), &[W, L, N]),
        14 => (Arg::Query(rel(vec![name("missing")])), &[W, L, N]),
        15 => (Arg::Query(rel(vec![name("v"), Seg { desc: false, sels: vec![Sel::Index(0)] }])), &[W, L, N]),
        16 => (Arg::Query(rel(vec![name("v"), Seg { desc: false, sels: vec![Sel::Index(-1)] }])), &[W, L, N]),
        17 => (Arg::Query(abs(vec![name("k")])), &[W, L, N]),
        18 => (Arg::Query(rel(vec![wild(false)])), &[L, N]),
        19 => (Arg::Query(rel(vec![wild(true)])), &[L, N]),
        20 => (Arg::Query(rel(vec![Seg { desc: true, sels: vec![Sel::Name("v".into())] }])), &[L, N]),
        21 => (Arg::Query(rel(vec![Seg { desc: false, sels: vec![Sel::Name("v".into()), Sel::Name("v".into())] }])), &[L, N]),
        22 => (Arg::Query(rel(vec![name("v"), Seg { desc: false, sels: vec![Sel::Slice(None, None, Some(-1))] }])), &[L, N]),
        23 => (Arg::Query(abs(vec![wild(true)])), &[L, N]),
        24 => (
            Arg::Query(rel(vec![Seg { desc: false, sels: vec![Sel::Filter(Expr::Test(rel(vec![Seg { desc: false, sels: vec![Sel::Index(0)] }])))] }])),
            &[L, N],
        ),
        25 => (Arg::Logic(Expr::Cmp(Operand::Query(rel(vec![name("v")])), Op::Eq, Operand::Lit(n("0")))), &[L]),
        26 => (Arg::Logic(Expr::Not(Box::new(Expr::Test(rel(vec![name("v")]))))), &[L]),
        27 => (Arg::Logic(Expr::Or(vec![Expr::Test(rel(vec![name("v")])), Expr::Test(rel(vec![name("w")]))])), &[L]),
        28 => (Arg::Logic(Expr::And(vec![Expr::Test(rel(vec![name("v")])), Expr::Test(rel(vec![name("w")]))])), &[L]),
        29 => (callw("f", vec![]), &[W]),
        30 => (callw("aa", vec![Arg::Query(rel(vec![name("v")]))]), &[W]),
        31 => (callw("f_l", vec![]), &[L]),
        32 => (callw("aa_l", vec![Arg::Query(rel(vec![name("v")]))]), &[L]),
        33 => (callw("lengthsn", vec![Arg::Query(rel(vec![wild(true)]))]), &[L, N]),
        34 => (callw("fn", vec![]), &[L, N]),
        35 => (callw("length", vec![Arg::Query(rel(vec![name("v")]))]), &[W]),
        36 => (callw("count", vec![Arg::Query(rel(vec![wild(true)]))]), &[W]),
        37 => (callw("value", vec![Arg::Query(rel(vec![wild(true)]))]), &[W]),
        38 => (callw("match", vec![Arg::Query(rel(vec![name("v")])), Arg::Lit(Lit::Str(".*".into()))]), &[L]),
        39 => (callw("value_", vec![Arg::Query(rel(vec![name("w")])), Arg::Query(rel(vec![wild(false)]))]), &[W]),
        _ => (callw("search_alln", vec![Arg::Query(rel(vec![name("v")])), Arg::Query(rel(vec![wild(false)])), Arg::Query(abs(vec![name("k")]))]), &[L, N]),
    };
    let ret = [W, L, N][fun];
    let mut done = 0;
    for (f, (params, rt)) in OWN.with(|o| o.1.clone()) {
        if rt != ret {
            continue;
        }
        for k in 0..params.len() {
            if !fits.contains(&params[k]) || (params.len() > 1 && r.pct(60)) {
                continue;
            }
            let cfg = Cfg { sigs: vec![], ..Cfg::std() };
            let mut args: Vec<Arg> = params.iter().map(|t| gen::arg(r, &cfg, 3, *t)).collect();
            args[k] = arg.clone();
            let call = Call { name: f.clone(), args };
            let e = if rt == W { Expr::Cmp(Operand::Call(call), Op::Le, Operand::Lit(n("1"))) } else { Expr::Call(call) };
            let q = Query { root: Root::Abs, segs: vec![name("k"), Seg { desc: false, sels: vec![Sel::Filter(e)] }] };
            let t = print_checked(&q, r, Style::plain(), &sigs, false);
            let mut arr = vec![];
            for _ in 0..4 {
                let v: Value = serde_json::from_str(r.pick(&vals)).unwrap();
                let mut m = Map::new();
                m.insert("v".into(), v);
                if r.pct(50) {
                    m.insert("w".into(), serde_json::from_str(r.pick(&vals)).unwrap());
                }
                arr.push(Value::Object(m));
            }
            arr.push(serde_json::from_str(r.pick(&vals)).unwrap());
            let d = json!({"k": arr});
            check(cx, &q, &t, &d, &own(&sigs, &mine))?;
            done += 1;
        }
    }
    cx.count(&format!("form {form:02}"), done);
    Ok(())
}
fn generated(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    respec(r);
    let all = all_sigs();
    // a few of the functions, so that their names recur within one query
    let k = 1 + r.below(8);
    let mut sigs: Vec<(String, Sig)> = OWN.with(|o| (0..k).map(|_| r.pick(&o.1).clone()).collect());
    // calls with many arguments in the arguments of calls grow out of hand
    sigs.retain(|(_, s)| s.0.len() <= 4);
    if r.pct(40) {
        sigs.extend(gen::std_sigs_sorted());
    }
    let cfg = Cfg { sigs, filters: 60, calls: 75, max_segs: 3, max_sels: 2, max_depth: 1 + r.below(2), ..Cfg::std() };
    let q = gen::query(r, &cfg, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_checked(&q, r, st, &all, false);
    let d = gen::guided_doc(r, &q, 20);
    let mine = |n: &str| !std_sigs().contains_key(n);
    check(cx, &q, &t, &d, &own(&all, &mine))
}
/// standard functions replaced by others with the same signature
fn replaced(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    respec(r);
    let sigs = std_sigs();
    let cfg = Cfg { filters: 60, calls: 80, max_segs: 3, max_depth: 1 + r.below(2), ..Cfg::std() };
    let q = gen::query(r, &cfg, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    let d = gen::guided_doc(r, &q, 20);
    let over = OVER.with(|o| o.0);
    let all = |_: &str| true;
    check(cx, &q, &t, &d, &Setup { envs: over, sigs: &sigs, mine: &all, world: "", by_env: r.pct(50) })
}
/// the same query in two environments with different functions and in default ones, in turns
fn side_by_side(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    respec(r);
    let sigs = std_sigs();
    let cfg = Cfg { filters: 70, calls: 90, max_segs: 2, max_depth: 1, ..Cfg::std() };
    let q = gen::query(r, &cfg, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    let d = gen::guided_doc(r, &q, 5);
    let (one, two) = OVER.with(|o| *o);
    let all = |_: &str| true;
    let none = |_: &str| false;
    for _ in 0..4 {
        match r.below(4) {
            0 => check(cx, &q, &t, &d, &Setup { envs: one, sigs: &sigs, mine: &all, world: "", by_env: false })?,
            1 => check(cx, &q, &t, &d, &Setup { envs: two, sigs: &sigs, mine: &all, world: "other ", by_env: r.pct(50) })?,
            // default environments made before and after the others
            2 => check(cx, &q, &t, &d, &Setup { envs: entry::envs(), sigs: &sigs, mine: &none, world: "", by_env: false })?,
            _ => {
                take();
                let Some(w) = expect(&q, &d) else { continue };
                for c in EVAL {
                    let got = sut(|| adapt::find(c, &t, &d));
                    let log = take();
                    if !log.is_empty() {
                        return viol(format!("{}: registered function called by the module find", c.name()), json!({"query": t, "document": doc_text(&d), "calls": log}));
                    }
                    if let Some((what, how)) = judge_nodes(&got, &w) {
                        return viol(
                            format!("{}: {what} from the module find after registering functions elsewhere: {}", c.name(), clip(&t, 200)),
                            json!({"crate": c.name(), "query": t, "document": doc_text(&d), "expected": paths(&w), "outcome": how}),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}
/// functions of the same names with other signatures in several environments, in turns
fn other_sigs(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    respec(r);
    let all = |_: &str| true;
    let cfg = Cfg { sigs: vec![], filters: 30, max_depth: 2, max_segs: 2, ..Cfg::std() };
    let names: Vec<String> = (0..1 + r.below(2)).map(|_| ROTATED.with(|w| r.pick(&w[0].2).0.clone())).collect();
    let mut calls = vec![];
    for (k, world) in WORLDS.into_iter().enumerate() {
        let (envs, map, list) = ROTATED.with(|w| (w[k].0, w[k].1.clone(), w[k].2.clone()));
        for n in &names {
            let (params, ret) = map[n].clone();
            let mine: Vec<(String, Sig)> = list.iter().filter(|x| names.contains(&x.0) && x.1.0.len() <= 4).cloned().collect();
            let inner = Cfg { sigs: mine, calls: 60, ..cfg.clone() };
            let call = Call { name: n.clone(), args: params.iter().map(|t| gen::arg(r, &inner, 2, *t)).collect() };
            let e = if ret == W {
                Expr::Cmp(Operand::Call(call), *r.pick(&[Op::Eq, Op::Ne, Op::Le, Op::Gt]), Operand::Lit(gen::lit(r, &cfg)))
            } else {
                Expr::Call(call)
            };
            let mut segs: Vec<Seg> = (0..r.below(2)).map(|_| gen::seg(r, &cfg, 3)).collect();
            segs.push(Seg { desc: r.pct(40), sels: vec![Sel::Filter(e)] });
            calls.push((envs, map.clone(), world, Query { root: Root::Abs, segs }));
        }
    }
    let docs: Vec<Value> = calls.iter().map(|c| gen::guided_doc(r, &c.3, 10)).collect();
    for _ in 0..2 * calls.len() {
        let k = r.below(calls.len());
        let (envs, map, world, q) = &calls[k];
        let st = Style::random(r);
        let t = print_checked(q, r, st, map, false);
        check(cx, q, &t, &docs[k], &Setup { envs: *envs, sigs: map, mine: &all, world, by_env: false })?;
    }
    Ok(())
}
