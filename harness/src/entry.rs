//! Every way into each evaluating crate, and a neutral rendering of what comes back.
use crate::adapt::{self, Cr, Got, Parsed};
use serde_json::Value;
use std::collections::HashMap;

/// long-lived default environments (leaked: three crates ask for `'static`)
#[derive(Clone, Copy)]
pub struct Envs {
    pub serde: &'static jsonpath_rfc9535_serde::env::Environment,
    pub iter: &'static jsonpath_rfc9535_iter::env::Environment,
    pub loc: &'static jsonpath_rfc9535_locations::env::Environment,
    pub sing: &'static jsonpath_rfc9535_singular::env::Environment,
}
impl Envs {
    pub fn new() -> Envs {
        Envs {
            serde: Box::leak(Box::new(jsonpath_rfc9535_serde::env::Environment::new())),
            iter: Box::leak(Box::new(jsonpath_rfc9535_iter::env::Environment::new())),
            loc: Box::leak(Box::new(jsonpath_rfc9535_locations::env::Environment::new())),
            sing: Box::leak(Box::new(jsonpath_rfc9535_singular::env::Environment::new())),
        }
    }
}
thread_local! {
    /// the two crates whose environments have a default
    static DEFAULTS: (&'static jsonpath_rfc9535_locations::env::Environment, &'static jsonpath_rfc9535_singular::env::Environment) = (Box::leak(Default::default()), Box::leak(Default::default()));
    static ENVS: Envs = Envs::new();
}
pub fn envs() -> Envs {
    ENVS.with(|e| *e)
}

/// run a compiled query
pub fn run(p: &Parsed, doc: &Value, e: &Envs) -> Result<Vec<Got>, String> {
    match p {
        Parsed::Serde(q) => q.find(doc, e.serde).map(adapt::got_serde).map_err(|e| e.to_string()),
        Parsed::Iter(q) => Ok(adapt::got_iter(jsonpath_rfc9535_iter::iter::QueryIter::new(e.iter, doc, q.clone()))),
        Parsed::Loc(q) => Ok(adapt::got_loc(q.find(doc, e.loc))),
        Parsed::Sing(q) => Ok(adapt::got_sing(q.find(doc, e.sing))),
        _ => Err("not an evaluating crate".into()),
    }
}
/// the same, by the looping variant
pub fn run_loop(p: &Parsed, doc: &Value, e: &Envs) -> Result<Vec<Got>, String> {
    match p {
        Parsed::Serde(q) => q.find_loop(doc, e.serde).map(adapt::got_serde).map_err(|e| e.to_string()),
        _ => Err("no looping variant".into()),
    }
}
pub fn env_find_loop(t: &str, doc: &Value, e: &Envs) -> Result<Vec<Got>, String> {
    e.serde.find_loop(t, doc).map(adapt::got_serde).map_err(|e| e.to_string())
}
pub fn env_find(c: Cr, t: &str, doc: &Value, e: &Envs) -> Result<Vec<Got>, String> {
    match c {
        Cr::Serde => e.serde.find(t, doc).map(adapt::got_serde).map_err(|e| e.to_string()),
        Cr::Iter => e.iter.find(t, doc).map(adapt::got_iter).map_err(|e| e.to_string()),
        Cr::Loc => e.loc.find(t, doc).map(adapt::got_loc).map_err(|e| e.to_string()),
        Cr::Sing => e.sing.find(t, doc).map(adapt::got_sing).map_err(|e| e.to_string()),
        _ => Err("not an evaluating crate".into()),
    }
}
/// whether a query text is run by the looping variant: the same answer for the same text always
pub fn loops(c: Cr, t: &str) -> bool {
    c == Cr::Serde && t.bytes().fold(7u32, |h, b| (h ^ b as u32).wrapping_mul(0x0100_0193)) >> 8 & 3 == 0
}
pub fn find_by(c: Cr, t: &str, doc: &Value) -> Result<Vec<Got>, String> {
    if loops(c, t) {
        adapt::find_loop(t, doc)
    } else {
        adapt::find(c, t, doc)
    }
}
pub fn env_find_by(c: Cr, t: &str, doc: &Value, e: &Envs) -> Result<Vec<Got>, String> {
    if loops(c, t) {
        env_find_loop(t, doc, e)
    } else {
        env_find(c, t, doc, e)
    }
}
pub fn run_by(p: &Parsed, c: Cr, t: &str, doc: &Value, e: &Envs) -> Result<Vec<Got>, String> {
    if loops(c, t) {
        run_loop(p, doc, e)
    } else {
        run(p, doc, e)
    }
}
/// one way to run a query text
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Find,
    Loop,
    Env,
    EnvLoop,
    Compiled,
}
impl Via {
    pub fn label(self, c: Cr) -> String {
        match self {
            Via::Find => c.name().to_string(),
            Via::Loop => format!("{} find_loop", c.name()),
            Via::Env => format!("{} Environment::find", c.name()),
            Via::EnvLoop => format!("{} Environment::find_loop", c.name()),
            Via::Compiled => format!("{} compiled query", c.name()),
        }
    }
    pub fn run(self, c: Cr, t: &str, doc: &Value) -> Result<Vec<Got>, String> {
        match self {
            Via::Find => adapt::find(c, t, doc),
            Via::Loop => adapt::find_loop(t, doc),
            Via::Env => env_find(c, t, doc, &envs()),
            Via::EnvLoop => env_find_loop(t, doc, &envs()),
            Via::Compiled => adapt::standard(c, t).map_err(|e| e.display).and_then(|q| run(&q, doc, &envs())),
        }
    }
}
/// the module-level function always, the looping variant of the serde crate always, and the
/// others in turn (`n` is any number that varies from case to case)
pub fn ways(c: Cr, n: usize) -> Vec<Via> {
    let mut v = vec![Via::Find];
    if c == Cr::Serde {
        v.push(Via::Loop);
    }
    match n % 8 {
        0 => v.push(Via::Env),
        1 => v.push(Via::Compiled),
        2 if c == Cr::Serde => v.push(Via::EnvLoop),
        _ => {}
    }
    v
}

/// all entry points that take a query text
pub fn entries(c: Cr, t: &str, doc: &Value, e: &Envs) -> Vec<(&'static str, Result<Vec<Got>, String>)> {
    let mut v = vec![("module find", adapt::find(c, t, doc)), ("Environment::find", env_find(c, t, doc, e))];
    let std = adapt::standard(c, t).map_err(|e| e.display);
    v.push(("Query::standard, then find", std.and_then(|q| run(&q, doc, e))));
    let own = adapt::parser_default(c).parse(t).map_err(|e| e.display);
    v.push(("JSONPathParser::default().parse, then find", own.and_then(|q| run(&q, doc, e))));
    match c {
        Cr::Loc => v.push(("Environment::default().find", DEFAULTS.with(|e| e.0.find(t, doc)).map(adapt::got_loc).map_err(|e| e.to_string()))),
        Cr::Sing => v.push(("Environment::default().find", DEFAULTS.with(|e| e.1.find(t, doc)).map(adapt::got_sing).map_err(|e| e.to_string()))),
        _ => {}
    }
    let own = adapt::parser(c).parse(t).map_err(|e| e.display);
    v.push(("JSONPathParser::new().parse, then find", own.and_then(|q| run(&q, doc, e))));
    if c == Cr::Serde {
        v.push(("module find_loop", adapt::find_loop(t, doc)));
        v.push(("Environment::find_loop", e.serde.find_loop(t, doc).map(adapt::got_serde).map_err(|e| e.to_string())));
        v.push((
            "Query::find_loop",
            jsonpath_rfc9535_serde::Query::standard(t)
                .and_then(|q| q.find_loop(doc, e.serde).map(adapt::got_serde))
                .map_err(|e| e.to_string()),
        ));
    }
    v
}

/// position of every value of a document in document order
pub fn positions(doc: &Value) -> HashMap<*const Value, usize> {
    let mut m = HashMap::new();
    let mut stack = vec![doc];
    while let Some(v) = stack.pop() {
        let n = m.len();
        m.insert(v as *const Value, n);
        match v {
            Value::Array(a) => stack.extend(a.iter().rev()),
            Value::Object(o) => stack.extend(o.values().rev()),
            _ => {}
        }
    }
    m
}
/// rendering that is the same in every process: document position and location of each node
pub fn show(r: &Result<Vec<Got>, String>, pos: &HashMap<*const Value, usize>) -> String {
    match r {
        Err(e) => format!("error {e}"),
        Ok(v) => {
            let mut o = format!("{} nodes", v.len());
            for g in v {
                match pos.get(&g.ptr) {
                    Some(n) => o.push_str(&format!(" #{n}@{}", g.loc)),
                    None => o.push_str(&format!(" not-in-document@{}", g.loc)),
                }
            }
            o
        }
    }
}
pub fn show_parse(r: &Result<Parsed, adapt::PErr>) -> String {
    match r {
        Ok(p) => format!("parsed {} {}", p.display(), p.debug()),
        Err(e) => format!("error {:?} {:?} {} | {}", e.kind, e.span, e.msg, e.display),
    }
}
pub fn same(a: &Result<Vec<Got>, String>, b: &Result<Vec<Got>, String>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.ptr == y.ptr && x.loc == y.loc),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
