//! Independent model of RFC 9535: syntax tree, recogniser and type checker.
//! Written from the RFC's ABNF; shares no code with /repo.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Root {
    Abs,
    Rel,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    pub root: Root,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Name(String),
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Wild,
    Filter(Expr),
    /// extension of the singular crate: an embedded singular query
    Sub(Query),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Cmp(Operand, Op, Operand),
    Test(Query),
    Call(Call),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Operand {
    Lit(Lit),
    Query(Query),
    Call(Call),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub name: String,
    pub args: Vec<Arg>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Lit(Lit),
    Query(Query),
    Call(Call),
    Logic(Expr),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    Num(Num),
    Str(String),
}
/// A number: exact integer value if it has one (and fits), and nearest double.
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub int: Option<i128>,
    pub f: f64,
}
impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        self.f == o.f
            && match (self.int, o.int) {
                (Some(a), Some(b)) => {
                    // beyond 64 bits an implementation may hold the nearest double
                    a == b || (a.unsigned_abs() >= (1 << 63) && a as f64 == b as f64)
                }
                _ => true,
            }
    }
}
impl Num {
    pub fn of_text(t: &str) -> Num {
        let f: f64 = t.parse().unwrap_or(f64::NAN);
        // a literal with a fraction or an exponent is the nearest double
        if t.contains(['.', 'e', 'E']) {
            return Num::of_f(f);
        }
        Num { int: exact_int(t), f }
    }
    pub fn of_i(i: i64) -> Num {
        Num { int: Some(i as i128), f: i as f64 }
    }
    pub fn of_f(f: f64) -> Num {
        let int = if f.is_finite() && f.fract() == 0.0 && f.abs() < 1e37 {
            Some(f as i128)
        } else {
            None
        };
        Num { int, f }
    }
}
/// exact integer value of a decimal literal, when integral and |v| < 10^37
fn exact_int(t: &str) -> Option<i128> {
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let (mant, exp) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].trim_start_matches('+').parse::<i64>().ok()?),
        None => (t, 0),
    };
    let (ip, fp) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..]),
        None => (mant, ""),
    };
    let mut digits: String = format!("{ip}{fp}");
    let mut e = exp - fp.len() as i64;
    while e < 0 && digits.ends_with('0') && digits.len() > 1 {
        digits.pop();
        e += 1;
    }
    let d = digits.trim_start_matches('0');
    if d.is_empty() {
        return Some(0);
    }
    if e < 0 || d.len() as i64 + e > 36 {
        return None;
    }
    let mut v: i128 = d.parse().ok()?;
    for _ in 0..e {
        v *= 10;
    }
    Some(if neg { -v } else { v })
}

impl Query {
    pub fn singular(&self) -> bool {
        self.segs
            .iter()
            .all(|s| !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Value,
    Logical,
    Nodes,
}
pub type Sig = (Vec<Ty>, Ty);
pub type Sigs = HashMap<String, Sig>;

pub fn std_sigs() -> Sigs {
    use Ty::*;
    let mut m = HashMap::new();
    m.insert("length".into(), (vec![Value], Value));
    m.insert("count".into(), (vec![Nodes], Value));
    m.insert("value".into(), (vec![Nodes], Value));
    m.insert("match".into(), (vec![Value, Value], Logical));
    m.insert("search".into(), (vec![Value, Value], Logical));
    m
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sem {
    /// unknown function
    Name,
    /// ill-typed
    Type,
    /// a non-singular query compared (not derivable by the ABNF either)
    NonSingular,
    /// integer outside the I-JSON range
    Range,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub query: Query,
    /// semantic errors found (empty: valid)
    pub sem: Vec<Sem>,
    /// uses a form on which RFC ABNF and common practice differ (not judged)
    pub lenient: bool,
    /// top-level query had no `$` (singular extension)
    pub implicit: bool,
}
#[derive(Clone, Debug)]
pub struct SynErr {
    pub pos: usize,
    pub what: &'static str,
}

pub const MAXI: i64 = (1 << 53) - 1;

pub struct P<'a> {
    s: &'a [u8],
    t: &'a str,
    i: usize,
    sigs: &'a Sigs,
    ext: bool,
    sem: Vec<Sem>,
    lenient: bool,
    range: (i64, i64),
}
type R<T> = Result<T, SynErr>;

/// Parse with the strict RFC grammar (`ext` adds the singular crate's extensions).
pub fn parse(t: &str, sigs: &Sigs, ext: bool) -> Result<Parsed, SynErr> {
    parse_in(t, sigs, ext, (-MAXI, MAXI))
}
/// with another range of integers for indexes and slices
pub fn parse_in(t: &str, sigs: &Sigs, ext: bool, range: (i64, i64)) -> Result<Parsed, SynErr> {
    let mut p = P { s: t.as_bytes(), t, i: 0, sigs, ext, sem: vec![], lenient: false, range };
    let mut implicit = false;
    let query = if p.peek() == Some(b'$') {
        p.i += 1;
        Query { root: Root::Abs, segs: p.segments()? }
    } else if ext {
        implicit = true;
        p.implicit_root(false)?
    } else {
        return p.err("expected $");
    };
    if p.i != p.s.len() {
        return p.err("trailing text");
    }
    Ok(Parsed { query, sem: p.sem, lenient: p.lenient, implicit })
}

pub fn name_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80
}
pub fn name_char(c: char) -> bool {
    name_first(c) || c.is_ascii_digit()
}

impl<'a> P<'a> {
    fn err<T>(&self, what: &'static str) -> R<T> {
        Err(SynErr { pos: self.i, what })
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<u8> {
        self.s.get(self.i + k).copied()
    }
    fn rest(&self) -> &'a str {
        &self.t[self.i..]
    }
    fn eat(&mut self, x: &str) -> bool {
        if self.s[self.i..].starts_with(x.as_bytes()) {
            self.i += x.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn ch(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn shorthand(&mut self) -> Option<String> {
        let r = self.rest();
        let c = r.chars().next()?;
        if !name_first(c) {
            return None;
        }
        let n: String = r.chars().take_while(|c| name_char(*c)).collect();
        self.i += n.len();
        Some(n)
    }
    fn segments(&mut self) -> R<Vec<Seg>> {
        let mut v = vec![];
        loop {
            let save = self.i;
            self.ws();
            match self.peek() {
                Some(b'[') => v.push(Seg { desc: false, sels: self.bracketed()? }),
                Some(b'.') => {
                    if self.at(1) == Some(b'.') {
                        self.i += 2;
                        if self.peek() == Some(b'[') {
                            v.push(Seg { desc: true, sels: self.bracketed()? });
                        } else if self.eat("*") {
                            v.push(Seg { desc: true, sels: vec![Sel::Wild] });
                        } else if let Some(n) = self.shorthand() {
                            v.push(Seg { desc: true, sels: vec![Sel::Name(n)] });
                        } else {
                            return self.err("bad descendant segment");
                        }
                    } else {
                        self.i += 1;
                        if self.eat("*") {
                            v.push(Seg { desc: false, sels: vec![Sel::Wild] });
                        } else if let Some(n) = self.shorthand() {
                            v.push(Seg { desc: false, sels: vec![Sel::Name(n)] });
                        } else {
                            return self.err("bad dot segment");
                        }
                    }
                }
                _ => {
                    self.i = save;
                    return Ok(v);
                }
            }
        }
    }
    fn bracketed(&mut self) -> R<Vec<Sel>> {
        if !self.eat("[") {
            return self.err("expected [");
        }
        let mut v = vec![];
        loop {
            self.ws();
            v.push(self.selector()?);
            self.ws();
            if self.eat(",") {
                continue;
            }
            if self.eat("]") {
                return Ok(v);
            }
            return self.err("expected , or ]");
        }
    }
    fn int_text(&mut self) -> Option<&'a str> {
        let st = self.i;
        let mut j = self.i;
        if self.s.get(j) == Some(&b'0') {
            self.i = j + 1;
            return Some(&self.t[st..self.i]);
        }
        if self.s.get(j) == Some(&b'-') {
            j += 1;
        }
        match self.s.get(j) {
            Some(c) if (b'1'..=b'9').contains(c) => {}
            _ => return None,
        }
        while self.s.get(j).is_some_and(|c| c.is_ascii_digit()) {
            j += 1;
        }
        self.i = j;
        Some(&self.t[st..j])
    }
    fn int(&mut self) -> Option<i64> {
        let t = self.int_text()?;
        match t.parse::<i64>() {
            Ok(v) if self.range.0 <= v && v <= self.range.1 => Some(v),
            _ => {
                self.sem.push(Sem::Range);
                Some(0)
            }
        }
    }
    fn selector(&mut self) -> R<Sel> {
        match self.peek() {
            Some(b'"' | b'\'') => Ok(Sel::Name(self.string()?)),
            Some(b'*') => {
                self.i += 1;
                Ok(Sel::Wild)
            }
            Some(b'?') => {
                self.i += 1;
                self.ws();
                Ok(Sel::Filter(self.or_expr()?))
            }
            Some(c) if c == b'-' || c == b':' || c.is_ascii_digit() => {
                let start = if c == b':' {
                    None
                } else {
                    match self.int() {
                        Some(i) => Some(i),
                        None => return self.err("bad integer"),
                    }
                };
                let save = self.i;
                self.ws();
                if !self.eat(":") {
                    self.i = save;
                    return match start {
                        Some(i) => Ok(Sel::Index(i)),
                        None => self.err("bad selector"),
                    };
                }
                // "[start S] : S [end S] [: [S step]]"
                let mut save = self.i;
                self.ws();
                let mut end = None;
                let mut step = None;
                if matches!(self.peek(), Some(c) if c == b'-' || c.is_ascii_digit()) {
                    end = match self.int() {
                        Some(i) => Some(i),
                        None => return self.err("bad integer"),
                    };
                    save = self.i;
                    self.ws();
                }
                if self.eat(":") {
                    save = self.i;
                    self.ws();
                    if matches!(self.peek(), Some(c) if c == b'-' || c.is_ascii_digit()) {
                        step = match self.int() {
                            Some(i) => Some(i),
                            None => return self.err("bad integer"),
                        };
                        save = self.i;
                    }
                }
                self.i = save;
                Ok(Sel::Slice(start, end, step))
            }
            _ if self.ext => {
                // embedded singular query, explicit or implicit root
                let q = if self.eat("$") {
                    let segs = self.singular_segments(true)?;
                    Query { root: Root::Abs, segs }
                } else {
                    self.implicit_root(true)?
                };
                Ok(Sel::Sub(q))
            }
            _ => self.err("bad selector"),
        }
    }
    /// extension: query without `$`. `sub`: as an embedded singular query
    fn implicit_root(&mut self, sub: bool) -> R<Query> {
        if sub {
            // embedded: must start with a shorthand name or bracketed name/index
            let first = if let Some(n) = self.shorthand() {
                Seg { desc: false, sels: vec![Sel::Name(n)] }
            } else if self.peek() == Some(b'[') {
                match self.singular_bracket()? {
                    Some(s) => Seg { desc: false, sels: vec![s] },
                    None => return self.err("bad singular query"),
                }
            } else {
                return self.err("bad selector");
            };
            let mut segs = vec![first];
            segs.extend(self.singular_segments(true)?);
            return Ok(Query { root: Root::Abs, segs });
        }
        let first = if let Some(n) = self.shorthand() {
            Seg { desc: false, sels: vec![Sel::Name(n)] }
        } else if self.peek() == Some(b'[') {
            Seg { desc: false, sels: self.bracketed()? }
        } else {
            return self.err("expected query");
        };
        let mut segs = vec![first];
        segs.extend(self.segments()?);
        Ok(Query { root: Root::Abs, segs })
    }
    /// "[" name-or-index "]" without blanks; None when it is something else
    fn singular_bracket(&mut self) -> R<Option<Sel>> {
        let save = self.i;
        self.i += 1;
        let sp = self.i;
        self.ws();
        let mut blanks = self.i != sp;
        let nsem = self.sem.len();
        let s = match self.peek() {
            Some(b'"' | b'\'') => self.string().ok().map(Sel::Name),
            Some(c) if c == b'-' || c.is_ascii_digit() => self.int().map(Sel::Index),
            _ => None,
        };
        if let Some(s) = s {
            let sp = self.i;
            self.ws();
            blanks |= self.i != sp;
            if self.eat("]") {
                if blanks {
                    self.lenient = true;
                }
                return Ok(Some(s));
            }
        }
        self.i = save;
        self.sem.truncate(nsem);
        Ok(None)
    }
    fn singular_segments(&mut self, _strict: bool) -> R<Vec<Seg>> {
        let mut v = vec![];
        loop {
            let save = self.i;
            self.ws();
            match self.peek() {
                Some(b'.') if self.at(1) != Some(b'.') => {
                    self.i += 1;
                    match self.shorthand() {
                        Some(n) => v.push(Seg { desc: false, sels: vec![Sel::Name(n)] }),
                        None => {
                            self.i = save;
                            return Ok(v);
                        }
                    }
                }
                Some(b'[') => match self.singular_bracket()? {
                    Some(s) => v.push(Seg { desc: false, sels: vec![s] }),
                    None => {
                        self.i = save;
                        return Ok(v);
                    }
                },
                _ => {
                    self.i = save;
                    return Ok(v);
                }
            }
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.s.get(self.i..self.i + 4)?;
        let mut v = 0;
        for c in h {
            v = v * 16 + (*c as char).to_digit(16)?;
        }
        self.i += 4;
        Some(v)
    }
    fn string(&mut self) -> R<String> {
        let q = self.ch().unwrap();
        self.i += 1;
        let mut out = String::new();
        loop {
            let Some(c) = self.ch() else { return self.err("unterminated string") };
            if c == q {
                self.i += 1;
                return Ok(out);
            }
            if c == '\\' {
                self.i += 1;
                let Some(e) = self.ch() else { return self.err("unterminated escape") };
                self.i += e.len_utf8();
                match e {
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    '/' => out.push('/'),
                    '\\' => out.push('\\'),
                    'u' => {
                        let Some(h) = self.hex4() else { return self.err("bad \\u") };
                        let cp = if (0xD800..0xDC00).contains(&h) {
                            if !self.eat("\\u") {
                                return self.err("lone high surrogate");
                            }
                            let Some(l) = self.hex4() else { return self.err("bad \\u") };
                            if !(0xDC00..0xE000).contains(&l) {
                                return self.err("bad low surrogate");
                            }
                            0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)
                        } else if (0xDC00..0xE000).contains(&h) {
                            return self.err("lone low surrogate");
                        } else {
                            h
                        };
                        out.push(char::from_u32(cp).unwrap());
                    }
                    e if e == q => out.push(e),
                    _ => return self.err("bad escape"),
                }
                continue;
            }
            if (c as u32) < 0x20 {
                return self.err("control character in string");
            }
            out.push(c);
            self.i += c.len_utf8();
        }
    }
    fn or_expr(&mut self) -> R<Expr> {
        let e = self.or_expr_raw()?;
        Ok(self.checked(e))
    }
    /// or-expr whose single bare operand is returned un-typechecked (function args)
    fn or_expr_raw(&mut self) -> R<Bare> {
        let first = self.and_expr()?;
        let save = self.i;
        self.ws();
        if !self.rest().starts_with("||") {
            self.i = save;
            return Ok(first);
        }
        self.i = save;
        let first = self.checked(first);
        let mut v = vec![];
        push_flat(&mut v, first, true);
        loop {
            let save = self.i;
            self.ws();
            if !self.eat("||") {
                self.i = save;
                return Ok(Bare::Expr(Expr::Or(v)));
            }
            self.ws();
            let e = self.and_expr()?;
            let e = self.checked(e);
            push_flat(&mut v, e, true);
        }
    }
    fn and_expr(&mut self) -> R<Bare> {
        let first = self.basic()?;
        let save = self.i;
        self.ws();
        if !self.rest().starts_with("&&") {
            self.i = save;
            return Ok(first);
        }
        self.i = save;
        let first = self.checked(first);
        let mut v = vec![];
        push_flat(&mut v, first, false);
        loop {
            let save = self.i;
            self.ws();
            if !self.eat("&&") {
                self.i = save;
                return Ok(Bare::Expr(Expr::And(v)));
            }
            self.ws();
            let e = self.basic()?;
            let e = self.checked(e);
            push_flat(&mut v, e, false);
        }
    }
    /// type check a bare operand used as a test
    fn checked(&mut self, b: Bare) -> Expr {
        match b {
            Bare::Expr(e) => e,
            Bare::Query(q) => Expr::Test(q),
            Bare::Call(c) => {
                self.check_test(&c);
                Expr::Call(c)
            }
        }
    }
    fn check_test(&mut self, c: &Call) {
        if let Some((_, Ty::Value)) = self.sigs.get(&c.name) {
            self.sem.push(Sem::Type);
        }
    }
    fn cmp_op(&mut self) -> Option<Op> {
        for (t, o) in [
            ("==", Op::Eq),
            ("!=", Op::Ne),
            ("<=", Op::Le),
            (">=", Op::Ge),
            ("<", Op::Lt),
            (">", Op::Gt),
        ] {
            if self.eat(t) {
                return Some(o);
            }
        }
        None
    }
    fn basic(&mut self) -> R<Bare> {
        match self.peek() {
            Some(b'!') => {
                self.i += 1;
                self.ws();
                if self.peek() == Some(b'(') {
                    let e = self.paren()?;
                    return Ok(Bare::Expr(Expr::Not(Box::new(e))));
                }
                match self.peek() {
                    Some(b'@' | b'$') => {
                        let q = self.filter_query()?;
                        Ok(Bare::Expr(Expr::Not(Box::new(Expr::Test(q)))))
                    }
                    _ => match self.try_call()? {
                        Some(c) => {
                            self.check_test(&c);
                            Ok(Bare::Expr(Expr::Not(Box::new(Expr::Call(c)))))
                        }
                        None => self.err("bad operand of !"),
                    },
                }
            }
            Some(b'(') => Ok(Bare::Expr(self.paren()?)),
            _ => {
                // comparison first: comparable S op S comparable
                let save = self.i;
                let (nsem, len) = (self.sem.len(), self.lenient);
                if matches!(self.peek(), Some(b'@' | b'$')) {
                    let q = self.filter_query()?;
                    let after = self.i;
                    self.ws();
                    if let Some(op) = self.cmp_op() {
                        // re-parse the left side as a singular query of the grammar
                        let opend = self.i;
                        let sing = q.singular();
                        if sing {
                            let nsem = self.sem.len();
                            self.i = save + 1;
                            let _ = self.singular_segments(true)?;
                            self.sem.truncate(nsem);
                            self.i = opend;
                        } else {
                            // well-formed as a filter query, but not comparable
                            self.sem.push(Sem::NonSingular);
                        }
                        self.ws();
                        let r = self.comparable()?;
                        return Ok(Bare::Expr(Expr::Cmp(Operand::Query(q), op, r)));
                    }
                    self.i = after;
                    return Ok(Bare::Query(q));
                }
                if let Some(c) = self.try_call()? {
                    let after = self.i;
                    self.ws();
                    if let Some(op) = self.cmp_op() {
                        self.check_cmp_call(&c);
                        self.ws();
                        let r = self.comparable()?;
                        return Ok(Bare::Expr(Expr::Cmp(Operand::Call(c), op, r)));
                    }
                    self.i = after;
                    return Ok(Bare::Call(c));
                }
                if let Some(l) = self.literal()? {
                    self.ws();
                    if let Some(op) = self.cmp_op() {
                        self.ws();
                        let r = self.comparable()?;
                        return Ok(Bare::Expr(Expr::Cmp(Operand::Lit(l), op, r)));
                    }
                    self.i = save;
                    self.sem.truncate(nsem);
                    self.lenient = len;
                    return self.err("literal must be compared");
                }
                self.err("bad expression")
            }
        }
    }
    fn check_cmp_call(&mut self, c: &Call) {
        if let Some((_, t)) = self.sigs.get(&c.name) {
            if *t != Ty::Value {
                self.sem.push(Sem::Type);
            }
        }
    }
    fn comparable(&mut self) -> R<Operand> {
        match self.peek() {
            Some(b'@' | b'$') => {
                let save = self.i;
                let q = self.filter_query()?;
                if q.singular() {
                    let end = self.i;
                    let nsem = self.sem.len();
                    self.i = save + 1;
                    let _ = self.singular_segments(true)?;
                    self.sem.truncate(nsem);
                    self.i = end;
                } else {
                    self.sem.push(Sem::NonSingular);
                }
                Ok(Operand::Query(q))
            }
            _ => {
                if let Some(c) = self.try_call()? {
                    self.check_cmp_call(&c);
                    return Ok(Operand::Call(c));
                }
                match self.literal()? {
                    Some(l) => Ok(Operand::Lit(l)),
                    None => self.err("bad comparable"),
                }
            }
        }
    }
    fn paren(&mut self) -> R<Expr> {
        self.i += 1;
        self.ws();
        let e = self.or_expr()?;
        self.ws();
        if !self.eat(")") {
            return self.err("expected )");
        }
        Ok(e)
    }
    fn filter_query(&mut self) -> R<Query> {
        let root = if self.eat("@") {
            Root::Rel
        } else if self.eat("$") {
            Root::Abs
        } else {
            return self.err("expected query");
        };
        Ok(Query { root, segs: self.segments()? })
    }
    fn try_call(&mut self) -> R<Option<Call>> {
        let r = self.rest();
        let n: String = r
            .bytes()
            .enumerate()
            .take_while(|(k, c)| {
                c.is_ascii_lowercase() || (*k > 0 && (*c == b'_' || c.is_ascii_digit()))
            })
            .map(|(_, c)| c as char)
            .collect();
        if n.is_empty() || r.as_bytes().get(n.len()) != Some(&b'(') {
            return Ok(None);
        }
        self.i += n.len() + 1;
        let mut args = vec![];
        self.ws();
        if !self.eat(")") {
            loop {
                self.ws();
                args.push(self.arg()?);
                self.ws();
                if self.eat(",") {
                    continue;
                }
                if self.eat(")") {
                    break;
                }
                return self.err("expected , or )");
            }
        }
        let call = Call { name: n, args };
        self.check_call(&call);
        Ok(Some(call))
    }
    fn check_call(&mut self, c: &Call) {
        let sigs = self.sigs;
        let Some((params, _)) = sigs.get(&c.name) else {
            self.sem.push(Sem::Name);
            return;
        };
        if params.len() != c.args.len() {
            self.sem.push(Sem::Type);
            return;
        }
        for (p, a) in params.iter().zip(&c.args) {
            let ret = |c: &Call| sigs.get(&c.name).map(|s| s.1);
            let ok = match (p, a) {
                (Ty::Value, Arg::Lit(_)) => true,
                (Ty::Value, Arg::Query(q)) => q.singular(),
                (Ty::Value, Arg::Call(c)) => ret(c).map_or(true, |t| t == Ty::Value),
                (Ty::Value, Arg::Logic(_)) => false,
                (Ty::Logical, Arg::Lit(_)) => false,
                (Ty::Logical, Arg::Query(_)) => true,
                (Ty::Logical, Arg::Call(c)) => ret(c).map_or(true, |t| t != Ty::Value),
                (Ty::Logical, Arg::Logic(_)) => true,
                (Ty::Nodes, Arg::Query(_)) => true,
                (Ty::Nodes, Arg::Call(c)) => ret(c).map_or(true, |t| t == Ty::Nodes),
                (Ty::Nodes, _) => false,
            };
            if !ok {
                self.sem.push(Sem::Type);
            }
        }
    }
    fn arg(&mut self) -> R<Arg> {
        // literal alone?
        let save = self.i;
        let nsem = self.sem.len();
        if self.try_peek_literal() {
            if let Some(l) = self.literal()? {
                let end = self.i;
                self.ws();
                if matches!(self.peek(), Some(b',' | b')')) {
                    self.i = end;
                    return Ok(Arg::Lit(l));
                }
            }
            self.i = save;
            self.sem.truncate(nsem);
        }
        Ok(match self.or_expr_raw()? {
            Bare::Query(q) => Arg::Query(q),
            Bare::Call(c) => Arg::Call(c),
            Bare::Expr(e) => Arg::Logic(e),
        })
    }
    fn try_peek_literal(&self) -> bool {
        match self.peek() {
            Some(b'"' | b'\'' | b'-') => true,
            Some(c) if c.is_ascii_digit() => true,
            _ => {
                let r = self.rest();
                r.starts_with("true") || r.starts_with("false") || r.starts_with("null")
            }
        }
    }
    fn literal(&mut self) -> R<Option<Lit>> {
        match self.peek() {
            Some(b'"' | b'\'') => Ok(Some(Lit::Str(self.string()?))),
            Some(c) if c == b'-' || c.is_ascii_digit() => {
                let st = self.i;
                if self.int_text().is_none() {
                    if !self.eat("-0") {
                        return self.err("bad number");
                    }
                }
                if self.peek() == Some(b'.') && self.at(1).is_some_and(|c| c.is_ascii_digit()) {
                    self.i += 1;
                    while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                        self.i += 1;
                    }
                }
                if matches!(self.peek(), Some(b'e' | b'E')) {
                    let mut k = 1;
                    if matches!(self.at(1), Some(b'+' | b'-')) {
                        k = 2;
                    }
                    if self.at(k).is_some_and(|c| c.is_ascii_digit()) {
                        self.i += k;
                        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                            self.i += 1;
                        }
                    }
                }
                Ok(Some(Lit::Num(Num::of_text(&self.t[st..self.i]))))
            }
            _ => {
                if self.eat("true") {
                    Ok(Some(Lit::Bool(true)))
                } else if self.eat("false") {
                    Ok(Some(Lit::Bool(false)))
                } else if self.eat("null") {
                    Ok(Some(Lit::Null))
                } else {
                    Ok(None)
                }
            }
        }
    }
}

enum Bare {
    Expr(Expr),
    Query(Query),
    Call(Call),
}

pub fn push_flat(v: &mut Vec<Expr>, e: Expr, or: bool) {
    match e {
        Expr::Or(x) if or => v.extend(x),
        Expr::And(x) if !or => v.extend(x),
        e => v.push(e),
    }
}
