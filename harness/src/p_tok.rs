//! C19: tokens tile the query; spans of the handcrafted syntax tree.
use crate::gen;
use crate::model::*;
use crate::p_parse::{corpus, gen_corpus, gen_edited, gen_valid, number_query, shrink_text, string_query};
use crate::rng::Rng;
use crate::run::*;
use crate::sweep;
use crate::util::*;
use jsonpath_rfc9535::lexer::tokenize;
use jsonpath_rfc9535::query::{FilterExpression as F, Query as HQ, Segment, Selector};
use jsonpath_rfc9535::token::{Token, TokenType as T};
use serde_json::json;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C19" => Prop {
            id: "C19",
            rule: "valid, mutated, truncated and arbitrary strings tokenized; spans, carried text, gaps between tokens and the final token are checked on every token list; when the string parses, every span of the syntax tree is checked against the text; non-trivial: at least three tokens",
            assumptions: &["the error token's own position is only required to lie inside the query"],
            stages: vec![
                stage("valid", 96_000, 500_000, valid),
                stage("edited", 320_000, 1_600_000, edited),
                stage("corpus", 80_000, 400_000, corp),
                stage("soup", 240_000, 1_200_000, soup),
                stage("text", 240_000, 1_200_000, text),
                stage("strings", 120_000, 600_000, strings),
                stage("numbers", 120_000, 600_000, numbers),
                stage("huge queries", 1_200, 20_000, huge),
                stage("every character", sweep::QUICK * sweep::FORMS, sweep::ALL * sweep::FORMS, every),
                stage("prefixes", 12_000, 60_000, prefixes),
            ],
        },
        _ => return None,
    })
}
fn blank(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
fn fixed(k: &T) -> Option<&'static str> {
    Some(match k {
        T::Colon => ":",
        T::Comma => ",",
        T::DoubleDot => "..",
        T::Filter => "?",
        T::LBracket => "[",
        T::RBracket => "]",
        T::Root => "$",
        T::Wild => "*",
        T::And => "&&",
        T::Current => "@",
        T::Eq => "==",
        T::False => "false",
        T::Ge => ">=",
        T::Gt => ">",
        T::Le => "<=",
        T::LParen => "(",
        T::Lt => "<",
        T::Ne => "!=",
        T::Not => "!",
        T::Null => "null",
        T::Or => "||",
        T::RParen => ")",
        T::True => "true",
        _ => return None,
    })
}
/// what is wrong with this token list
fn tokens(t: &str, ts: &[Token]) -> Option<String> {
    let Some(last) = ts.last() else { return Some("no tokens".into()) };
    let ends = ts.iter().filter(|k| matches!(k.kind, T::Eoq | T::Error { .. })).count();
    if ends != 1 || !matches!(last.kind, T::Eoq | T::Error { .. }) {
        return Some(format!("{ends} end or error tokens, last is {:?}", last.kind));
    }
    let mut pos = 0;
    for (i, k) in ts.iter().enumerate() {
        let (a, b) = k.span;
        if !(a <= b && b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b)) {
            return Some(format!("span of {k:?} is not inside the text ({} bytes)", t.len()));
        }
        if let T::Error { msg } = &k.kind {
            return if msg.trim().is_empty() { Some("error token without message".into()) } else { None };
        }
        if a < pos {
            return Some(format!("{k:?} overlaps or precedes the token before it"));
        }
        let own = &t[a..b];
        match &k.kind {
            T::Index { value } | T::Int { value } | T::Float { value } | T::Name { value } | T::Function { name: value } | T::DoubleQuoteString { value } | T::SingleQuoteString { value } => {
                if &**value != own {
                    return Some(format!("{k:?} carries other text than {own:?}"));
                }
            }
            T::Eoq => {
                if (a, b) != (t.len(), t.len()) {
                    return Some(format!("end of query at {a}..{b}"));
                }
            }
            f => {
                if fixed(f) != Some(own) {
                    return Some(format!("{k:?} covers {own:?}"));
                }
            }
        }
        // skipped text
        let gap = &t[pos..a];
        let mut g = gap;
        let prev = i.checked_sub(1).map(|j| &ts[j].kind);
        let quote = |k: &T| match k {
            T::DoubleQuoteString { .. } => Some('"'),
            T::SingleQuoteString { .. } => Some('\''),
            _ => None,
        };
        if let Some(q) = prev.and_then(quote) {
            match g.strip_prefix(q) {
                Some(x) => g = x,
                None => return Some(format!("string not closed by its quote before {k:?}")),
            }
        }
        if matches!(prev, Some(T::Function { .. })) {
            match g.strip_prefix('(') {
                Some(x) => g = x,
                None => return Some(format!("function name not followed by ( before {k:?}")),
            }
        }
        if let Some(q) = quote(&k.kind) {
            match g.strip_suffix(q) {
                Some(x) => g = x,
                None => return Some(format!("string not opened by its quote: {k:?}")),
            }
        }
        if matches!(k.kind, T::Name { .. } | T::Wild) && !matches!(prev, Some(T::DoubleDot)) {
            g = g.strip_suffix('.').unwrap_or(g);
        }
        if !g.chars().all(blank) {
            return Some(format!("text {gap:?} skipped before {k:?}"));
        }
        pos = b;
    }
    None
}

struct W<'t> {
    t: &'t str,
    n: u64,
}
type R = Result<(), String>;
impl W<'_> {
    fn at(&mut self, s: (usize, usize), what: &str) -> Result<&str, String> {
        self.n += 1;
        if s.0 <= s.1 && s.1 <= self.t.len() && self.t.is_char_boundary(s.0) && self.t.is_char_boundary(s.1) {
            Ok(&self.t[s.0..s.1])
        } else {
            Err(format!("span {s:?} of {what} is not inside the query"))
        }
    }
    fn exact(&mut self, s: (usize, usize), want: &str, what: &str) -> R {
        let x = self.at(s, what)?;
        if x == want {
            Ok(())
        } else {
            Err(format!("{what}: span {s:?} covers {x:?}, not {want:?}"))
        }
    }
    /// the span covers the literal's text, quotes in or out
    fn string(&mut self, s: (usize, usize), v: &str, what: &str) -> R {
        let x = self.at(s, what)?.to_string();
        let means = |t: &str| matches!(ref_std(t, false), Ok(p) if p.query.segs.len() == 1 && p.query.segs[0].sels == vec![Sel::Name(v.to_string())]);
        if x == v || means(&format!("$[\"{x}\"]")) || means(&format!("$['{x}']")) || means(&format!("$[{x}]")) {
            Ok(())
        } else {
            Err(format!("{what} {v:?}: span {s:?} covers {x:?}"))
        }
    }
    fn order(&self, a: usize, b: usize, what: &str) -> R {
        if a <= b {
            Ok(())
        } else {
            Err(format!("{what}: spans out of order ({a} then {b})"))
        }
    }
    fn query(&mut self, q: &HQ) -> R {
        let mut pos = 0;
        for s in &q.segments {
            let (sp, sels) = match s {
                Segment::Child { span, selectors } | Segment::Recursive { span, selectors } => (*span, selectors),
                #[allow(unreachable_patterns)]
                _ => continue,
            };
            self.at(sp, "segment")?;
            self.order(pos, sp.0, "segments")?;
            pos = sp.0;
            for s in sels {
                let sp = match s {
                    Selector::Name { span, name } => {
                        self.string(*span, name, "name")?;
                        span
                    }
                    Selector::Index { span, index } => {
                        let x = self.at(*span, "index")?;
                        if x.parse::<i64>().ok() != Some(*index) {
                            return Err(format!("index {index}: span {span:?} covers {x:?}"));
                        }
                        span
                    }
                    Selector::Slice { span, .. } => {
                        self.at(*span, "slice")?;
                        span
                    }
                    Selector::Wild { span } => {
                        self.exact(*span, "*", "wildcard")?;
                        span
                    }
                    Selector::Filter { span, expression } => {
                        let x = self.at(*span, "filter")?;
                        if !x.starts_with('?') {
                            return Err(format!("filter: span {span:?} covers {x:?}"));
                        }
                        let e = self.expr(expression)?;
                        self.order(span.0, e.0, "filter and its expression")?;
                        span
                    }
                    #[allow(unreachable_patterns)]
                    _ => continue,
                };
                self.order(pos, sp.0, "selectors")?;
                pos = sp.0;
            }
        }
        Ok(())
    }
    fn number(&mut self, s: (usize, usize), f: f64, what: &str) -> R {
        let x = self.at(s, what)?;
        if Num::of_text(x).f == f {
            Ok(())
        } else {
            Err(format!("{what} {f}: span {s:?} covers {x:?}"))
        }
    }
    fn expr(&mut self, e: &F) -> Result<(usize, usize), String> {
        match e {
            F::True { span } => self.exact(*span, "true", "literal")?,
            F::False { span } => self.exact(*span, "false", "literal")?,
            F::Null { span } => self.exact(*span, "null", "literal")?,
            F::String { span, value } => self.string(*span, value, "string")?,
            F::Int { span, value } => self.number(*span, *value as f64, "integer")?,
            F::Float { span, value } => self.number(*span, *value, "number")?,
            F::Not { span, expression } => {
                let x = self.at(*span, "negation")?;
                if !x.starts_with('!') {
                    return Err(format!("negation: span {span:?} covers {x:?}"));
                }
                let i = self.expr(expression)?;
                self.order(span.0, i.0, "negation and its operand")?;
            }
            F::Logical { span, left, right, .. } | F::Comparison { span, left, right, .. } => {
                self.at(*span, "operator expression")?;
                let l = self.expr(left)?;
                let r = self.expr(right)?;
                self.order(l.1, r.0, "operands")?;
            }
            F::RelativeQuery { span, query } => {
                let x = self.at(*span, "relative query")?;
                if !x.starts_with('@') {
                    return Err(format!("relative query: span {span:?} covers {x:?}"));
                }
                self.query(query)?;
                if let Some(Segment::Child { span: s, .. } | Segment::Recursive { span: s, .. }) = query.segments.first() {
                    self.order(span.0, s.0, "relative query and its segments")?;
                }
            }
            F::RootQuery { span, query } => {
                let x = self.at(*span, "root query")?;
                if !x.starts_with('$') {
                    return Err(format!("root query: span {span:?} covers {x:?}"));
                }
                self.query(query)?;
                if let Some(Segment::Child { span: s, .. } | Segment::Recursive { span: s, .. }) = query.segments.first() {
                    self.order(span.0, s.0, "root query and its segments")?;
                }
            }
            F::Function { span, name, args } => {
                self.exact(*span, name, "function name")?;
                let mut pos = span.0;
                for a in args {
                    let s = self.expr(a)?;
                    self.order(pos, s.0, "arguments")?;
                    pos = s.0;
                }
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
        Ok(e.span())
    }
}
/// (what is wrong, tokens, spans in the tree)
fn judge(t: &str) -> (Option<String>, usize, u64) {
    let ts = match sut(|| tokenize(t)) {
        Ok(ts) => ts,
        Err(p) => return (Some(format!("panic: {p}")), 0, 0),
    };
    if let Some(w) = tokens(t, &ts) {
        return (Some(w), ts.len(), 0);
    }
    match sut(|| jsonpath_rfc9535::Query::standard(t)) {
        Ok(Ok(q)) => {
            if matches!(ts.last().map(|k| &k.kind), Some(T::Error { .. })) {
                return (Some("parsed, though the tokenizer reports an error".into()), ts.len(), 0);
            }
            let mut w = W { t, n: 0 };
            let e = w.query(&q).err();
            (e, ts.len(), w.n)
        }
        _ => (None, ts.len(), 0),
    }
}
fn shape(w: &str) -> String {
    // the message without positions and values
    w.split(['{', '(', '"', ':']).next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect()
}
fn check_text(cx: &mut Cx, t: &str) -> Res {
    let (bad, n, spans) = judge(t);
    cx.case(t, n >= 3);
    cx.count("tokens checked", n as u64);
    cx.count("tree spans checked", spans);
    if spans > 0 {
        cx.count("trees checked", 1);
        cx.sample(|| json!(t));
    }
    if let Some(w) = bad {
        let s = shrink_text(t, |s| judge(s).0.is_some_and(|x| shape(&x) == shape(&w)));
        let d = judge(&s).0;
        return viol(format!("tokens: {}: {}", shape(&w), clip(&s, 150)), json!({"query": t, "what": w, "smaller": s, "smaller what": d, "tokens": clip(&format!("{:?}", sut(|| tokenize(&s))), 1500)}));
    }
    Ok(())
}
fn valid(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_valid(r).1;
    check_text(cx, &t)
}
fn every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i / sweep::FORMS, cx.tier == Tier::Quick, r);
    let Some(t) = sweep::query(i % sweep::FORMS, &cs, r) else { return Ok(()) };
    cx.count("characters tried", cs.len() as u64);
    check_text(cx, &t)
}
fn huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = crate::p_parse::gen_long(r);
    let t = if r.pct(30) { gen::mutate(r, &t) } else { t };
    cx.max("characters in one query", t.chars().count() as u64);
    check_text(cx, &t)
}
fn edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_edited(r);
    check_text(cx, &t)
}
fn corp(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_corpus(r);
    check_text(cx, &t)
}
fn soup(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen::soup(r);
    check_text(cx, &t)
}
fn text(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let n = r.below(20);
    let body: String = (0..n)
        .map(|_| match r.below(3) {
            0 => r.pick(gen::TOKENS).to_string(),
            1 => r.pick(&['$', '@', '[', ']', '(', ')', '.', '?', '\'', '"', '\\', ' ', ',', ':', '-', '0', 'e', 'a', '*', '!', '&', '|', '=', '<']).to_string(),
            _ => gen::rand_char(r).to_string(),
        })
        .collect();
    let t = format!("{}{body}", r.pick(&["", "$", "$[", "$[?", "$.", "$..", "$['", "$[?@.a==\"", "$[?count(", "$ \n"]));
    check_text(cx, &t)
}
fn strings(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = string_query(r);
    check_text(cx, &t)
}
fn numbers(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = number_query(r);
    check_text(cx, &t)
}
fn prefixes(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = if r.pct(50) { gen_valid(r).1 } else { r.pick(corpus()).clone() };
    let cs: Vec<char> = t.chars().collect();
    for k in 0..=cs.len().min(120) {
        let s: String = cs[..k].iter().collect();
        check_text(cx, &s)?;
    }
    Ok(())
}
