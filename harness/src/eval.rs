//! Independent evaluator for the model's syntax tree.
use crate::iregexp;
use crate::model::*;
use serde_json::Value;
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum PE {
    Name(String),
    Idx(usize),
}
#[derive(Debug)]
pub struct Path(pub Option<(Rc<Path>, PE)>);

#[derive(Clone, Debug)]
pub struct N<'a> {
    pub path: Rc<Path>,
    pub v: &'a Value,
}
impl Path {
    pub fn parts(&self) -> Vec<PE> {
        let mut v = vec![];
        let mut p = self;
        while let Some((up, e)) = &p.0 {
            v.push(e.clone());
            p = up;
        }
        v.reverse();
        v
    }
}
impl Drop for Path {
    fn drop(&mut self) {
        // iterative drop of long chains
        let mut next = self.0.take();
        while let Some((rc, _)) = next {
            match Rc::try_unwrap(rc) {
                Ok(mut p) => next = p.0.take(),
                Err(_) => break,
            }
        }
    }
}
pub fn normalized(parts: &[PE]) -> String {
    let mut o = String::from("$");
    for p in parts {
        match p {
            PE::Idx(i) => o.push_str(&format!("[{i}]")),
            PE::Name(n) => {
                o.push_str("['");
                for c in n.chars() {
                    match c {
                        '\'' => o.push_str("\\'"),
                        '\\' => o.push_str("\\\\"),
                        '\u{8}' => o.push_str("\\b"),
                        '\u{c}' => o.push_str("\\f"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push_str("']");
            }
        }
    }
    o
}

/// A value in an expression. `Owned` only for function results and literals.
#[derive(Clone, Debug)]
pub enum V<'a> {
    Nothing,
    Ref(&'a Value),
    Num(Num),
    Str(String),
    Bool(bool),
    Null,
    Owned(Value),
}

/// What a registered function is given (after conversion to the declared types).
#[derive(Clone, Debug)]
pub enum A<'a> {
    Val(V<'a>),
    Bool(bool),
    Nodes(Vec<N<'a>>),
}
pub enum Ret<'a> {
    Val(V<'a>),
    Bool(bool),
    Nodes(Vec<N<'a>>),
}
pub trait Funcs {
    fn sig(&self, name: &str) -> Option<Sig>;
    fn call<'a>(&self, name: &str, args: Vec<A<'a>>) -> Ret<'a>;
}

thread_local! {
    /// set when a comparison depended on number precision beyond a double
    pub static AMBIGUOUS: Cell<bool> = const { Cell::new(false) };
    /// nodes visited and expressions evaluated since `reset`
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(600_000) };
    /// stop evaluating `&&` and `||` as soon as the outcome is known
    pub static LAZY: Cell<bool> = const { Cell::new(false) };
}
fn spend() {
    STEPS.with(|s| s.set(s.get() + 1));
}
/// work done by a registered function
pub fn charge(n: u64) {
    STEPS.with(|s| s.set(s.get() + n));
}
/// the work exceeds the budget: the result is meaningless, everything returns early
pub fn over() -> bool {
    STEPS.with(|s| s.get()) > BUDGET.with(|b| b.get())
}
pub fn reset() {
    AMBIGUOUS.with(|c| c.set(false));
    STEPS.with(|c| c.set(0));
}

pub struct Ctx<'a, 'f> {
    pub root: &'a Value,
    pub funcs: &'f dyn Funcs,
}

pub fn eval<'a>(q: &Query, doc: &'a Value, funcs: &dyn Funcs) -> Vec<N<'a>> {
    let ctx = Ctx { root: doc, funcs };
    run(q, doc, &ctx)
}

fn run<'a>(q: &Query, start: &'a Value, ctx: &Ctx<'a, '_>) -> Vec<N<'a>> {
    let mut cur = vec![N { path: Rc::new(Path(None)), v: start }];
    for s in &q.segs {
        let mut out = vec![];
        for n in &cur {
            if over() {
                break;
            }
            if s.desc {
                descend(n, s, ctx, &mut out);
            } else {
                for sel in &s.sels {
                    select(n, sel, ctx, &mut out);
                }
            }
        }
        cur = out;
    }
    cur
}
fn child<'a>(n: &N<'a>, e: PE, v: &'a Value) -> N<'a> {
    spend();
    N { path: Rc::new(Path(Some((n.path.clone(), e)))), v }
}
fn children<'a>(n: &N<'a>) -> Vec<N<'a>> {
    match n.v {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| child(n, PE::Idx(i), v)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| child(n, PE::Name(k.clone()), v)).collect(),
        _ => vec![],
    }
}
fn descend<'a>(n: &N<'a>, s: &Seg, ctx: &Ctx<'a, '_>, out: &mut Vec<N<'a>>) {
    let mut stack = vec![n.clone()];
    while let Some(n) = stack.pop() {
        if over() {
            return;
        }
        for sel in &s.sels {
            select(&n, sel, ctx, out);
        }
        let mut c = children(&n);
        c.reverse();
        stack.extend(c);
    }
}
/// RFC 9535 section 2.3.4.2.2, in 128-bit arithmetic
pub fn slice_indices(len: usize, start: Option<i64>, end: Option<i64>, step: Option<i64>) -> Vec<usize> {
    let len = len as i128;
    let step = step.unwrap_or(1) as i128;
    let mut v = vec![];
    if step == 0 {
        return v;
    }
    let start = start.map(|x| x as i128).unwrap_or(if step >= 0 { 0 } else { len - 1 });
    let end = end.map(|x| x as i128).unwrap_or(if step >= 0 { len } else { -len - 1 });
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let (ns, ne) = (norm(start), norm(end));
    let (lower, upper) = if step >= 0 {
        (ns.max(0).min(len), ne.max(0).min(len))
    } else {
        (ne.max(-1).min(len - 1), ns.max(-1).min(len - 1))
    };
    if step > 0 {
        let mut i = lower;
        while i < upper {
            v.push(i as usize);
            i += step;
        }
    } else {
        let mut i = upper;
        while lower < i {
            v.push(i as usize);
            i += step;
        }
    }
    v
}
fn select<'a>(n: &N<'a>, sel: &Sel, ctx: &Ctx<'a, '_>, out: &mut Vec<N<'a>>) {
    match sel {
        Sel::Name(k) => {
            if let Value::Object(o) = n.v {
                if let Some((k, v)) = o.iter().find(|(x, _)| *x == k) {
                    out.push(child(n, PE::Name(k.clone()), v));
                }
            }
        }
        Sel::Index(i) => index(n, *i, out),
        Sel::Slice(a, b, c) => {
            if let Value::Array(arr) = n.v {
                for i in slice_indices(arr.len(), *a, *b, *c) {
                    out.push(child(n, PE::Idx(i), &arr[i]));
                }
            }
        }
        Sel::Wild => out.extend(children(n)),
        Sel::Filter(e) => {
            for c in children(n) {
                if over() {
                    return;
                }
                if truth(e, c.v, ctx) {
                    out.push(c);
                }
            }
        }
        Sel::Sub(q) => {
            let r = run(q, ctx.root, ctx);
            if r.len() == 1 {
                match r[0].v {
                    Value::String(s) => select(n, &Sel::Name(s.clone()), ctx, out),
                    Value::Number(x) if x.is_i64() => index(n, x.as_i64().unwrap(), out),
                    _ => {}
                }
            }
        }
    }
}
fn index<'a>(n: &N<'a>, i: i64, out: &mut Vec<N<'a>>) {
    if let Value::Array(arr) = n.v {
        let k = if i >= 0 { i as i128 } else { arr.len() as i128 + i as i128 };
        if k >= 0 && k < arr.len() as i128 {
            out.push(child(n, PE::Idx(k as usize), &arr[k as usize]));
        }
    }
}

fn truth<'a>(e: &Expr, cur: &'a Value, ctx: &Ctx<'a, '_>) -> bool {
    spend();
    if over() {
        return false;
    }
    match e {
        // all operands are evaluated, like in the code under test: STEPS stands for its work
        Expr::Or(v) if LAZY.with(|l| l.get()) => v.iter().any(|x| truth(x, cur, ctx)),
        Expr::And(v) if LAZY.with(|l| l.get()) => v.iter().all(|x| truth(x, cur, ctx)),
        Expr::Or(v) => v.iter().fold(false, |a, x| truth(x, cur, ctx) || a),
        Expr::And(v) => v.iter().fold(true, |a, x| truth(x, cur, ctx) && a),
        Expr::Not(x) => !truth(x, cur, ctx),
        Expr::Test(q) => !query(q, cur, ctx).is_empty(),
        Expr::Call(c) => match call(c, cur, ctx) {
            Ret::Bool(b) => b,
            Ret::Nodes(n) => !n.is_empty(),
            Ret::Val(_) => false,
        },
        Expr::Cmp(l, op, r) => {
            let l = operand(l, cur, ctx);
            let r = operand(r, cur, ctx);
            compare(&l, *op, &r)
        }
    }
}
fn query<'a>(q: &Query, cur: &'a Value, ctx: &Ctx<'a, '_>) -> Vec<N<'a>> {
    match q.root {
        Root::Abs => run(q, ctx.root, ctx),
        Root::Rel => run(q, cur, ctx),
    }
}
fn single<'a>(mut v: Vec<N<'a>>) -> V<'a> {
    if v.len() == 1 {
        V::Ref(v.pop().unwrap().v)
    } else {
        V::Nothing
    }
}
fn lit<'a>(l: &Lit) -> V<'a> {
    match l {
        Lit::Null => V::Null,
        Lit::Bool(b) => V::Bool(*b),
        Lit::Num(n) => V::Num(*n),
        Lit::Str(s) => V::Str(s.clone()),
    }
}
fn operand<'a>(o: &Operand, cur: &'a Value, ctx: &Ctx<'a, '_>) -> V<'a> {
    match o {
        Operand::Lit(l) => lit(l),
        Operand::Query(q) => single(query(q, cur, ctx)),
        Operand::Call(c) => match call(c, cur, ctx) {
            Ret::Val(v) => v,
            _ => V::Nothing,
        },
    }
}
pub fn call<'a>(c: &Call, cur: &'a Value, ctx: &Ctx<'a, '_>) -> Ret<'a> {
    let Some((params, _)) = ctx.funcs.sig(&c.name) else { return Ret::Val(V::Nothing) };
    let args = params
        .iter()
        .zip(&c.args)
        .map(|(t, a)| match t {
            Ty::Value => A::Val(match a {
                Arg::Lit(l) => lit(l),
                Arg::Query(q) => single(query(q, cur, ctx)),
                Arg::Call(c) => match call(c, cur, ctx) {
                    Ret::Val(v) => v,
                    _ => V::Nothing,
                },
                Arg::Logic(_) => V::Nothing,
            }),
            Ty::Logical => A::Bool(match a {
                Arg::Lit(_) => false,
                Arg::Query(q) => !query(q, cur, ctx).is_empty(),
                Arg::Call(c) => match call(c, cur, ctx) {
                    Ret::Bool(b) => b,
                    Ret::Nodes(n) => !n.is_empty(),
                    _ => false,
                },
                Arg::Logic(e) => truth(e, cur, ctx),
            }),
            Ty::Nodes => A::Nodes(match a {
                Arg::Query(q) => query(q, cur, ctx),
                Arg::Call(c) => match call(c, cur, ctx) {
                    Ret::Nodes(n) => n,
                    _ => vec![],
                },
                _ => vec![],
            }),
        })
        .collect();
    ctx.funcs.call(&c.name, args)
}

fn number(n: &serde_json::Number) -> Num {
    if let Some(i) = n.as_i64() {
        Num::of_i(i)
    } else if let Some(u) = n.as_u64() {
        Num { int: Some(u as i128), f: u as f64 }
    } else {
        Num { int: None, f: n.as_f64().unwrap() }
    }
}
fn num_cmp(a: &Num, b: &Num) -> Option<Ordering> {
    let by_f = a.f.partial_cmp(&b.f);
    if let (Some(x), Some(y)) = (a.int, b.int) {
        let exact = Some(x.cmp(&y));
        if exact != by_f {
            AMBIGUOUS.with(|c| c.set(true));
        }
        return exact;
    }
    // integer against a double: exact and rounded comparison can differ beyond 2^53
    let big = |n: &Num| n.int.is_some_and(|i| i.unsigned_abs() > 1 << 53);
    if big(a) || big(b) {
        let (i, f, flip) = if a.int.is_some() { (a.int.unwrap(), b.f, false) } else { (b.int.unwrap(), a.f, true) };
        let exact = if f.is_finite() && f.abs() < 1e37 {
            let t = f.trunc();
            let o = i.cmp(&(t as i128));
            Some(if o == Ordering::Equal && f != t {
                if f > t { Ordering::Less } else { Ordering::Greater }
            } else {
                o
            })
        } else if f > 0.0 {
            Some(Ordering::Less)
        } else {
            Some(Ordering::Greater)
        };
        let exact = if flip { exact.map(|o| o.reverse()) } else { exact };
        if exact != by_f {
            AMBIGUOUS.with(|c| c.set(true));
        }
    }
    by_f
}

enum K<'v> {
    Nothing,
    Null,
    Bool(bool),
    Num(Num),
    Str(&'v str),
    Comp(&'v Value),
}
fn kind<'v>(v: &'v V<'_>) -> K<'v> {
    match v {
        V::Nothing => K::Nothing,
        V::Null => K::Null,
        V::Bool(b) => K::Bool(*b),
        V::Num(n) => K::Num(*n),
        V::Str(s) => K::Str(s),
        V::Ref(v) => vkind(v),
        V::Owned(v) => vkind(v),
    }
}
fn vkind(v: &Value) -> K<'_> {
    match v {
        Value::Null => K::Null,
        Value::Bool(b) => K::Bool(*b),
        Value::Number(n) => K::Num(number(n)),
        Value::String(s) => K::Str(s),
        v => K::Comp(v),
    }
}
fn eq(a: &K, b: &K) -> bool {
    match (a, b) {
        (K::Nothing, K::Nothing) => true,
        (K::Null, K::Null) => true,
        (K::Bool(x), K::Bool(y)) => x == y,
        (K::Num(x), K::Num(y)) => num_cmp(x, y) == Some(Ordering::Equal),
        (K::Str(x), K::Str(y)) => x == y,
        (K::Comp(x), K::Comp(y)) => deep(x, y),
        _ => false,
    }
}
fn deep(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| deep(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| deep(v, w)))
        }
        (Value::Array(_) | Value::Object(_), _) | (_, Value::Array(_) | Value::Object(_)) => false,
        _ => eq(&vkind(a), &vkind(b)),
    }
}
fn lt(a: &K, b: &K) -> bool {
    match (a, b) {
        (K::Num(x), K::Num(y)) => num_cmp(x, y) == Some(Ordering::Less),
        // Rust compares strings by UTF-8 bytes, which orders like code points
        (K::Str(x), K::Str(y)) => x.chars().lt(y.chars()),
        _ => false,
    }
}
pub fn compare(a: &V, op: Op, b: &V) -> bool {
    let (a, b) = (kind(a), kind(b));
    match op {
        Op::Eq => eq(&a, &b),
        Op::Ne => !eq(&a, &b),
        Op::Lt => lt(&a, &b),
        Op::Gt => lt(&b, &a),
        Op::Le => lt(&a, &b) || eq(&a, &b),
        Op::Ge => lt(&b, &a) || eq(&a, &b),
    }
}

/// the five standard functions
pub struct Std;
impl Funcs for Std {
    fn sig(&self, name: &str) -> Option<Sig> {
        use Ty::*;
        Some(match name {
            "length" => (vec![Value], Value),
            "count" | "value" => (vec![Nodes], Value),
            "match" | "search" => (vec![Value, Value], Logical),
            _ => return None,
        })
    }
    fn call<'a>(&self, name: &str, args: Vec<A<'a>>) -> Ret<'a> {
        let int = |n: usize| Ret::Val(V::Num(Num::of_i(n as i64)));
        match (name, &args[..]) {
            ("length", [A::Val(v)]) => match kind(v) {
                K::Str(s) => int(s.chars().count()),
                K::Comp(serde_json::Value::Array(a)) => int(a.len()),
                K::Comp(serde_json::Value::Object(o)) => int(o.len()),
                _ => Ret::Val(V::Nothing),
            },
            ("count", [A::Nodes(n)]) => int(n.len()),
            ("value", [A::Nodes(n)]) => Ret::Val(single(n.clone())),
            ("match" | "search", [A::Val(s), A::Val(p)]) => Ret::Bool(match (kind(s), kind(p)) {
                (K::Str(s), K::Str(p)) => {
                    let run = |re: Option<iregexp::Re>| match re {
                        Some(re) if name == "match" => iregexp::is_match(&re, s),
                        Some(re) => iregexp::is_search(&re, s),
                        None => false,
                    };
                    let b = run(iregexp::parse(p));
                    // literal or anchor: not judged here, C05 does
                    if p.contains(['^', '$']) && b != run(iregexp::parse_anchors(p)) {
                        AMBIGUOUS.with(|c| c.set(true));
                    }
                    b
                }
                _ => false,
            }),
            _ => Ret::Val(V::Nothing),
        }
    }
}
