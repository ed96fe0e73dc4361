//! Generators: queries (as model trees), their textual forms, documents, mutations.
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Map, Value};

#[derive(Clone)]
pub struct Cfg {
    pub sigs: Vec<(String, Sig)>,
    pub ext: bool,
    pub filters: u64, // percent of selectors that are filters
    pub calls: u64,   // percent of basic expressions that involve calls
    pub regex: bool,
    pub max_segs: usize,
    pub max_sels: usize,
    pub max_depth: usize, // filter nesting
    pub hostile: u64,     // percent of hostile names / strings
    pub big_ints: u64,
    pub quoty: bool, // string literals in filters may hold quotes/backslashes/controls
    pub desc: u64,
}
impl Cfg {
    pub fn std() -> Cfg {
        Cfg {
            sigs: std_sigs_sorted(),
            ext: false,
            filters: 25,
            calls: 15,
            regex: true,
            max_segs: 4,
            max_sels: 3,
            max_depth: 2,
            hostile: 15,
            big_ints: 5,
            quoty: true,
            desc: 20,
        }
    }
}
pub fn std_sigs_sorted() -> Vec<(String, Sig)> {
    let mut v: Vec<_> = std_sigs().into_iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

pub const NAMES: &[&str] = &["a", "b", "c", "d"];
pub const HOSTILE: &[&str] = &[
    "", " ", "'", "\"", "\\", "\\'", "'\\", "\n", "\r", "\t", "\u{8}", "\u{c}", "\u{0}", "\u{1}", "\u{b}", "\u{1e}", "\u{1f}",
    "\u{7f}", "a b", "a'b", "a\"b", "a\\b", "\\n", "\\u0041", "/", "☺", "é", "e\u{301}", "𝄞", "𝄞a", "\u{ffff}", "\u{2028}",
    "\u{d7ff}", "\u{e000}", "\u{10ffff}", "0", "1", "-1", "$", "@", "*", "a.b", "['a']", "']['", "a,b", "length", "true",
    "null", "_", "_a1", "A", "Z9", "\u{80}", "\u{fffd}", "日本語", "''", "\"\"", "\\\\", "ends\\", "'starts",
];
pub const STRS: &[&str] = &[
    "a", "b", "ab", "abc", "", "A", "z", "é", "ü", "1", "10", "9", "true", "null", "\u{ffff}", "\u{10000}", "☺", "aa", "a b", "e\u{301}",
];
pub const PATTERNS: &[&str] = &[
    "a", "b", "ab", "a.*", ".*", "a|b", "[a-c]+", "(ab)*", "a?", "", "[^a]", "\\p{L}+", "\\.", "..", ".", "b.", "(a|b)c?", "a{2}", "[",
    "(", "a**", "\\d", "☺", ".b",
];

pub fn name(r: &mut Rng, hostile: u64) -> String {
    if r.pct(hostile) {
        if r.pct(80) {
            r.pick(HOSTILE).to_string()
        } else {
            rand_string(r)
        }
    } else {
        r.pick(NAMES).to_string()
    }
}
pub fn rand_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) {
            0 => r.below(0x20) as u32,
            1..=3 => 0x20 + r.below(0x60) as u32,
            4 => 0x80 + r.below(0x780) as u32,
            5 => 0x800 + r.below(0xF800) as u32,
            6 => 0x10000 + r.below(0x100000) as u32,
            _ => *r.pick(&[0x27u32, 0x22, 0x5c, 0x2f, 0x7f, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x75, 0x6e]),
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}
pub fn rand_string(r: &mut Rng) -> String {
    let n = r.below(6);
    (0..n).map(|_| rand_char(r)).collect()
}
pub fn string_lit(r: &mut Rng, c: &Cfg) -> String {
    if r.pct(c.hostile) {
        let s = name(r, 100);
        if c.quoty || !s.chars().any(|c| c == '\'' || c == '"' || c == '\\' || (c as u32) < 0x20) {
            return s;
        }
    }
    if r.pct(70) {
        r.pick(STRS).to_string()
    } else {
        r.pick(NAMES).to_string()
    }
}
pub const NUMS: &[&str] = &[
    "0", "1", "2", "3", "-1", "-2", "10", "100", "1.5", "-1.5", "0.1", "0.5", "-0.5", "1e2", "1e-2", "99", "1000000", "2.5e3", "1e15",
    "9007199254740991", "-9007199254740991", "4294967296",
];
pub const BIGNUMS: &[&str] = &["1e30", "1e300", "-1e300", "5e-324", "1.7976931348623157e308", "18446744073709551616", "1e19", "2.5e-7", "123456789012345680000", "1e400", "-1e400", "1e-400"];
pub fn num_lit(r: &mut Rng, c: &Cfg) -> Num {
    if r.pct(c.big_ints) {
        Num::of_text(r.pick(BIGNUMS))
    } else if r.pct(85) {
        Num::of_text(r.pick(NUMS))
    } else {
        Num::of_text(&format!("{}.{}", r.range(-50, 50), r.below(1000)))
    }
}
/// an integer within a few of plus or minus a power of two, in the I-JSON range
pub fn pow2ish(r: &mut Rng) -> i64 {
    let p = (1i64 << (5 + r.below(49))) + r.range(-3, 5);
    (if r.pct(50) { p } else { -p }).clamp(-MAXI, MAXI)
}
pub fn idx(r: &mut Rng, c: &Cfg) -> i64 {
    if r.pct(c.big_ints) {
        if r.pct(50) {
            return pow2ish(r);
        }
        *r.pick(&[MAXI, -MAXI, MAXI - 1, 1 << 31, -(1i64 << 31), 1 << 32, (1 << 32) + 1, 1000, -1000])
    } else {
        r.range(-4, 5)
    }
}

pub fn query(r: &mut Rng, c: &Cfg, root: Root, depth: usize) -> Query {
    let n = if depth > 0 { r.below(3) } else { r.below(c.max_segs + 1) };
    Query { root, segs: (0..n).map(|_| seg(r, c, depth)).collect() }
}
pub fn seg(r: &mut Rng, c: &Cfg, depth: usize) -> Seg {
    let desc = r.pct(c.desc);
    let n = if r.pct(70) { 1 } else { 1 + r.below(c.max_sels) };
    Seg { desc, sels: (0..n).map(|_| sel(r, c, depth)).collect() }
}
pub fn sel(r: &mut Rng, c: &Cfg, depth: usize) -> Sel {
    if r.pct(c.filters) && depth < c.max_depth {
        return Sel::Filter(expr(r, c, depth + 1, 2));
    }
    if c.ext && r.pct(25) {
        return Sel::Sub(sub_query(r, c));
    }
    match r.below(10) {
        0..=3 => Sel::Name(name(r, c.hostile)),
        4..=5 => Sel::Index(idx(r, c)),
        6 => {
            let mut o = |r: &mut Rng| if r.pct(55) { Some(idx(r, c)) } else { None };
            Sel::Slice(o(r), o(r), o(r))
        }
        _ => Sel::Wild,
    }
}
pub fn sub_query(r: &mut Rng, c: &Cfg) -> Query {
    let n = r.below(4);
    Query {
        root: Root::Abs,
        segs: (0..n)
            .map(|_| Seg {
                desc: false,
                sels: vec![if r.pct(70) { Sel::Name(name(r, c.hostile)) } else { Sel::Index(r.range(-2, 3)) }],
            })
            .collect(),
    }
}
pub fn singular(r: &mut Rng, c: &Cfg) -> Query {
    let n = if r.pct(60) { 1 } else { r.below(4) };
    let root = if r.pct(85) { Root::Rel } else { Root::Abs };
    Query {
        root,
        segs: (0..n)
            .map(|_| Seg {
                desc: false,
                sels: vec![if r.pct(75) { Sel::Name(name(r, c.hostile)) } else { Sel::Index(idx(r, c)) }],
            })
            .collect(),
    }
}
pub fn lit(r: &mut Rng, c: &Cfg) -> Lit {
    match r.below(8) {
        0 => Lit::Null,
        1 => Lit::Bool(true),
        2 => Lit::Bool(false),
        3 | 4 => Lit::Str(string_lit(r, c)),
        _ => Lit::Num(num_lit(r, c)),
    }
}
fn inner_root(r: &mut Rng) -> Root {
    if r.pct(85) {
        Root::Rel
    } else {
        Root::Abs
    }
}
pub fn expr(r: &mut Rng, c: &Cfg, depth: usize, size: usize) -> Expr {
    if size > 0 && r.pct(40) {
        let or = r.pct(50);
        let n = 2 + r.below(2);
        let mut v = vec![];
        for _ in 0..n {
            let e = expr(r, c, depth, size - 1);
            push_flat(&mut v, e, or);
        }
        return if or { Expr::Or(v) } else { Expr::And(v) };
    }
    if size > 0 && r.pct(20) {
        return Expr::Not(Box::new(expr(r, c, depth, size - 1)));
    }
    if r.pct(c.calls) {
        let t: &[Ty] = if r.pct(50) { &[Ty::Logical, Ty::Nodes] } else { &[Ty::Logical] };
        if let Some(call) = call(r, c, depth, t) {
            return Expr::Call(call);
        }
    }
    if r.pct(60) {
        let op = *r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
        Expr::Cmp(operand(r, c, depth), op, operand(r, c, depth))
    } else {
        let root = inner_root(r);
        Expr::Test(query(r, c, root, depth.max(1)))
    }
}
pub fn operand(r: &mut Rng, c: &Cfg, depth: usize) -> Operand {
    if r.pct(c.calls) {
        if let Some(call) = call(r, c, depth, &[Ty::Value]) {
            return Operand::Call(call);
        }
    }
    if r.pct(55) {
        Operand::Query(singular(r, c))
    } else {
        Operand::Lit(lit(r, c))
    }
}
pub fn call(r: &mut Rng, c: &Cfg, depth: usize, rets: &[Ty]) -> Option<Call> {
    if depth > c.max_depth + 2 {
        return None;
    }
    let cands: Vec<&(String, Sig)> = c.sigs.iter().filter(|(_, s)| rets.contains(&s.1)).collect();
    if cands.is_empty() {
        return None;
    }
    let (n, (params, _)) = (*r.pick(&cands)).clone();
    let mut args: Vec<Arg> = params.iter().map(|t| arg(r, c, depth, *t)).collect();
    if (n == "match" || n == "search") && params == [Ty::Value, Ty::Value] && r.pct(85) {
        args[1] = Arg::Lit(Lit::Str(r.pick(PATTERNS).to_string()));
        if r.pct(70) {
            args[0] = Arg::Query(singular(r, c));
        }
    }
    Some(Call { name: n, args })
}
pub fn arg(r: &mut Rng, c: &Cfg, depth: usize, t: Ty) -> Arg {
    match t {
        Ty::Value => {
            if r.pct(20) {
                if let Some(x) = call(r, c, depth + 1, &[Ty::Value]) {
                    return Arg::Call(x);
                }
            }
            if r.pct(65) {
                Arg::Query(singular(r, c))
            } else {
                Arg::Lit(lit(r, c))
            }
        }
        Ty::Logical => {
            if r.pct(25) {
                if let Some(x) = call(r, c, depth + 1, &[Ty::Logical, Ty::Nodes]) {
                    return Arg::Call(x);
                }
            }
            if r.pct(40) {
                let root = inner_root(r);
                return Arg::Query(query(r, c, root, depth + 1));
            }
            match expr(r, c, depth + 1, 1) {
                Expr::Test(q) => Arg::Query(q),
                Expr::Call(c) => Arg::Call(c),
                e => Arg::Logic(e),
            }
        }
        Ty::Nodes => {
            if r.pct(20) {
                if let Some(x) = call(r, c, depth + 1, &[Ty::Nodes]) {
                    return Arg::Call(x);
                }
            }
            let root = inner_root(r);
            Arg::Query(query(r, c, root, depth + 1))
        }
    }
}

// ---------------------------------------------------------------- printing

pub struct Style {
    pub ws: u64,        // percent of optional blank positions filled
    pub shorthand: u64, // percent of names written in dot form when possible
    pub esc: u64,       // percent of characters escaped although not needed
    pub parens: u64,    // percent of redundant parentheses
    pub numvar: u64,    // percent of unusual number spellings
}
impl Style {
    pub fn plain() -> Style {
        Style { ws: 0, shorthand: 0, esc: 0, parens: 0, numvar: 0 }
    }
    pub fn random(r: &mut Rng) -> Style {
        match r.below(4) {
            0 => Style::plain(),
            1 => Style { ws: 0, shorthand: 80, esc: 0, parens: 5, numvar: 0 },
            2 => Style { ws: 25, shorthand: 50, esc: 10, parens: 10, numvar: 20 },
            _ => Style { ws: 10, shorthand: 30, esc: 40, parens: 20, numvar: 50 },
        }
    }
}
pub struct Pr<'r> {
    pub o: String,
    pub r: &'r mut Rng,
    pub st: Style,
}
pub fn print(q: &Query, r: &mut Rng, st: Style) -> String {
    let mut p = Pr { o: String::new(), r, st };
    p.query(q, false);
    p.o
}
pub fn print_plain(q: &Query) -> String {
    let mut r = Rng::new(1);
    print(q, &mut r, Style::plain())
}
impl<'r> Pr<'r> {
    fn ws(&mut self) {
        while self.r.pct(self.st.ws) {
            let c = *self.r.pick(&[' ', ' ', '\t', '\n', '\r']);
            self.o.push(c);
        }
    }
    /// `strict`: position where the ABNF allows no blanks inside brackets
    pub fn query(&mut self, q: &Query, strict: bool) {
        self.o.push(if q.root == Root::Abs { '$' } else { '@' });
        self.segs(&q.segs, strict);
    }
    fn segs(&mut self, segs: &[Seg], strict: bool) {
        for s in segs {
            self.ws();
            self.seg(s, strict);
        }
    }
    fn can_short(&self, n: &str) -> bool {
        !n.is_empty() && name_first(n.chars().next().unwrap()) && n.chars().all(name_char)
    }
    fn seg(&mut self, s: &Seg, strict: bool) {
        if s.desc {
            self.o.push_str("..");
        }
        if s.sels.len() == 1 && self.r.pct(self.st.shorthand) {
            match &s.sels[0] {
                Sel::Name(n) if self.can_short(n) => {
                    if !s.desc {
                        self.o.push('.');
                    }
                    self.o.push_str(n);
                    return;
                }
                Sel::Wild => {
                    if !s.desc {
                        self.o.push('.');
                    }
                    self.o.push('*');
                    return;
                }
                _ => {}
            }
        }
        self.o.push('[');
        for (i, x) in s.sels.iter().enumerate() {
            if i > 0 {
                self.o.push(',');
            }
            if !strict {
                self.ws();
            }
            self.sel(x);
            if !strict {
                self.ws();
            }
        }
        self.o.push(']');
    }
    fn sel(&mut self, s: &Sel) {
        match s {
            Sel::Name(n) => self.string(n),
            Sel::Index(i) => self.o.push_str(&i.to_string()),
            Sel::Slice(a, b, c) => {
                if let Some(a) = a {
                    self.o.push_str(&a.to_string());
                    self.ws();
                }
                self.o.push(':');
                self.ws();
                if let Some(b) = b {
                    self.o.push_str(&b.to_string());
                    self.ws();
                }
                if let Some(c) = c {
                    self.o.push(':');
                    self.ws();
                    self.o.push_str(&c.to_string());
                } else if self.r.pct(30) && self.st.numvar > 0 {
                    self.o.push(':');
                }
            }
            Sel::Wild => self.o.push('*'),
            Sel::Filter(e) => {
                self.o.push('?');
                self.ws();
                self.expr(e, 0);
            }
            Sel::Sub(q) => {
                // implicit root when it starts with a name or bracket
                if !q.segs.is_empty() && self.r.pct(50) {
                    let first = &q.segs[0];
                    match &first.sels[0] {
                        Sel::Name(n) if self.can_short(n) && self.r.pct(70) => self.o.push_str(n),
                        _ => {
                            let save = self.st.shorthand;
                            self.st.shorthand = 0;
                            self.seg(first, true);
                            self.st.shorthand = save;
                        }
                    }
                    self.segs(&q.segs[1..], true);
                } else {
                    self.query(q, true)
                }
            }
        }
    }
    pub fn string(&mut self, s: &str) {
        let q = if self.r.pct(50) { '\'' } else { '"' };
        self.o.push(q);
        for c in s.chars() {
            let must = c == q || c == '\\' || (c as u32) < 0x20;
            if !must && !self.r.pct(self.st.esc) {
                self.o.push(c);
                continue;
            }
            let short = match c {
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                '/' => Some('/'),
                '\\' => Some('\\'),
                c if c == q => Some(c),
                _ => None,
            };
            match short {
                Some(x) if self.r.pct(70) => {
                    self.o.push('\\');
                    self.o.push(x);
                }
                _ => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        let h = if self.r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                        self.o.push_str(&h);
                    }
                }
            }
        }
        self.o.push(q);
    }
    fn num(&mut self, n: &Num) {
        let var = self.r.pct(self.st.numvar);
        let t = match n.int {
            Some(0) if n.f == 0.0 => (if var { *self.r.pick(&["-0", "0.0", "-0.0", "0e5", "-0e1", "0E-3", "0.000e0"]) } else { "0" }).to_string(),
            Some(i) if i.unsigned_abs() <= 1 << 53 || i as f64 != n.f => {
                if var {
                    match self.r.below(5) {
                        0 => format!("{i}.0"),
                        1 => format!("{i}e0"),
                        2 => format!("{i}E+0"),
                        3 if i % 10 == 0 => format!("{}e1", i / 10),
                        _ => format!("{i}0e-1"),
                    }
                } else {
                    i.to_string()
                }
            }
            _ if n.f.is_infinite() => format!("{}{}", if n.f < 0.0 { "-" } else { "" }, self.r.pick(&["1e400", "1E309", "2.5e+999", "123456789e4000"])),
            _ => {
                if n.f.abs() >= 1e17 || n.f.abs() < 1e-5 || var {
                    if self.r.pct(50) {
                        format!("{:e}", n.f)
                    } else {
                        format!("{:E}", n.f)
                    }
                } else {
                    format!("{}", n.f)
                }
            }
        };
        self.o.push_str(&t);
    }
    pub fn lit(&mut self, l: &Lit) {
        match l {
            Lit::Null => self.o.push_str("null"),
            Lit::Bool(b) => self.o.push_str(if *b { "true" } else { "false" }),
            Lit::Num(n) => self.num(n),
            Lit::Str(s) => self.string(s),
        }
    }
    fn operand(&mut self, o: &Operand) {
        match o {
            Operand::Lit(l) => self.lit(l),
            Operand::Query(q) => self.query(q, true),
            Operand::Call(c) => self.call(c),
        }
    }
    fn call(&mut self, c: &Call) {
        self.o.push_str(&c.name);
        self.o.push('(');
        for (i, a) in c.args.iter().enumerate() {
            if i > 0 {
                self.o.push(',');
            }
            self.ws();
            match a {
                Arg::Lit(l) => self.lit(l),
                Arg::Query(q) => self.query(q, false),
                Arg::Call(c) => self.call(c),
                // a bare test would read back as a query/call argument
                Arg::Logic(e @ (Expr::Test(_) | Expr::Call(_))) => self.paren(e),
                Arg::Logic(e) => self.expr(e, 0),
            }
            self.ws();
        }
        self.o.push(')');
    }
    fn paren(&mut self, e: &Expr) {
        self.o.push('(');
        self.ws();
        self.expr(e, 0);
        self.ws();
        self.o.push(')');
    }
    /// prec: 0 or-level, 1 and-level operand, 2 basic
    pub fn expr(&mut self, e: &Expr, prec: u8) {
        if self.r.pct(self.st.parens) {
            return self.paren(e);
        }
        match e {
            Expr::Or(v) => {
                if prec > 0 {
                    return self.paren(e);
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.ws();
                        self.o.push_str("||");
                        self.ws();
                    }
                    self.expr(x, 1);
                }
            }
            Expr::And(v) => {
                if prec > 1 {
                    return self.paren(e);
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.ws();
                        self.o.push_str("&&");
                        self.ws();
                    }
                    self.expr(x, 2);
                }
            }
            Expr::Not(x) => {
                self.o.push('!');
                self.ws();
                match &**x {
                    Expr::Test(q) if self.r.pct(70) => self.query(q, false),
                    Expr::Call(c) if self.r.pct(70) => self.call(c),
                    x => self.paren(x),
                }
            }
            Expr::Cmp(l, op, r) => {
                self.operand(l);
                self.ws();
                self.o.push_str(op.text());
                self.ws();
                self.operand(r);
            }
            Expr::Test(q) => self.query(q, false),
            Expr::Call(c) => self.call(c),
        }
    }
}

// ---------------------------------------------------------------- documents

pub fn scalar(r: &mut Rng, hostile: u64) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(false),
        3..=5 => {
            if r.pct(hostile) {
                json!(name(r, 100))
            } else {
                json!(*r.pick(STRS))
            }
        }
        6..=8 => json!(r.range(-3, 5)),
        9 => json!(*r.pick(&[1.0, 1.5, -0.5, 0.1, 100.0, 2.5, -0.0, 0.0, 99.0, 1e15, -1.5])),
        10 => json!(*r.pick(&[100i64, 10, 99, 1000000, 4294967296, MAXI, -MAXI])),
        _ => {
            if r.pct(hostile) {
                big_number(r)
            } else {
                json!(r.range(-3, 5))
            }
        }
    }
}
pub fn big_number(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => json!(u64::MAX),
        1 => json!(i64::MIN),
        2 => json!(i64::MAX),
        3 => json!(1u64 << 63),
        4 => json!(1e300),
        5 => json!(-1.7976931348623157e308),
        6 => json!(5e-324),
        _ => json!((1i64 << 53) + 1),
    }
}
pub fn doc(r: &mut Rng, depth: usize, width: usize, hostile: u64) -> Value {
    if depth == 0 || r.pct(15) {
        return scalar(r, hostile);
    }
    let n = r.below(width + 1);
    if r.pct(50) {
        Value::Array((0..n).map(|_| doc(r, depth - 1, width, hostile)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            m.insert(name(r, hostile), doc(r, depth - 1, width, hostile));
        }
        Value::Object(m)
    }
}
/// an array (or object) of similar records: good for filters
pub fn records(r: &mut Rng, hostile: u64) -> Value {
    let n = 1 + r.below(6);
    let mut rec = |r: &mut Rng| {
        if r.pct(15) {
            return scalar(r, hostile);
        }
        let mut m = Map::new();
        for k in NAMES {
            if r.pct(70) {
                m.insert(k.to_string(), if r.pct(80) { scalar(r, hostile) } else { doc(r, 2, 3, hostile) });
            }
        }
        Value::Object(m)
    };
    if r.pct(75) {
        Value::Array((0..n).map(|_| rec(r)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            let k = name(r, hostile);
            let v = rec(r);
            m.insert(k, v);
        }
        Value::Object(m)
    }
}
pub fn any_doc(r: &mut Rng, hostile: u64) -> Value {
    match r.below(10) {
        0..=3 => records(r, hostile),
        4..=5 => doc(r, 3, 4, hostile),
        6 => doc(r, 5, 3, hostile),
        7 => json!({"a": records(r, hostile), "b": doc(r, 2, 3, hostile)}),
        8 => doc(r, 2, 8, hostile),
        _ => scalar(r, hostile),
    }
}
/// make it likely that the query selects something: graft a matching path into the doc
pub fn guided_doc(r: &mut Rng, q: &Query, hostile: u64) -> Value {
    let mut leaf = if r.pct(50) { records(r, hostile) } else { any_doc(r, hostile) };
    for s in q.segs.iter().rev() {
        if r.pct(5) {
            break;
        }
        let mut base = if r.pct(50) { any_doc(r, hostile) } else { leaf.clone() };
        for x in &s.sels {
            match x {
                Sel::Name(n) => {
                    if !base.is_object() {
                        base = json!({});
                    }
                    base.as_object_mut().unwrap().insert(n.clone(), leaf.clone());
                }
                Sel::Index(i) => {
                    if !base.is_array() {
                        base = json!([0, 1, 2]);
                    }
                    let a = base.as_array_mut().unwrap();
                    let k = if *i >= 0 { *i } else { a.len() as i64 + i };
                    if (0..8).contains(&k) {
                        while a.len() as i64 <= k {
                            a.push(json!(7));
                        }
                        a[k as usize] = leaf.clone();
                    }
                }
                Sel::Slice(..) | Sel::Wild | Sel::Filter(_) => {
                    if !base.is_array() && !base.is_object() || r.pct(30) {
                        base = Value::Array((0..1 + r.below(4)).map(|_| if r.pct(60) { leaf.clone() } else { any_doc(r, hostile) }).collect());
                    }
                }
                Sel::Sub(_) => {}
            }
        }
        leaf = base;
        if s.desc && r.pct(50) {
            leaf = json!({"d": [leaf]});
        }
        if size(&leaf) > 4000 {
            break;
        }
    }
    leaf
}
pub fn size(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
        Value::Object(o) => 1 + o.values().map(size).sum::<usize>(),
        _ => 1,
    }
}

// ---------------------------------------------------------------- invalid strings

pub const TOKENS: &[&str] = &[
    "$", "@", ".", "..", "*", "[", "]", "(", ")", "?", "!", "&&", "||", "==", "!=", "<", "<=", ">", ">=", ",", ":", "'a'", "\"b\"", "a",
    "b", "0", "1", "-1", "-0", "01", "1.5", "1e2", "1E2", "-", "true", "false", "null", "length", "count", "value", "match", "search",
    "nosuch", "length(@.a)", "count(@.*)", "match(@.a,'a')", "value(@.a)", "@.a", "$.a", "@.*", "@..a", " ", "\n", "'", "\"", "\\", "'\\u0041'",
    "'\\ud83d\\ude00'", "'\\ud83d'", "&", "|", "=", "\u{0}", "☺", "\u{a0}", "1.", ".5", "9007199254740992", "99999999999999999999", "[0]",
    "['a']", "[*]", "[?@.a]", "[1:2]", "::", "+", "1e", "#", "~", "{", "}", "tru", "True", "nul", "'a", "a'",
];

pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.pct(80) {
        s.push('$');
    }
    if r.pct(50) {
        s.push_str("[?");
    }
    for _ in 0..r.below(9) {
        s.push_str(r.pick(TOKENS));
    }
    if r.pct(60) {
        s.push(']');
    }
    s
}
fn bounds(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
    v.push(s.len());
    v
}
/// one random edit of a string
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let b = bounds(s);
    let i = b[r.below(b.len())];
    match r.below(9) {
        0 => format!("{}{}", &s[..i], ""), // truncate
        1 | 2 => format!("{}{}{}", &s[..i], r.pick(TOKENS), &s[i..]),
        3 if b.len() > 1 => {
            let k = r.below(b.len() - 1);
            format!("{}{}", &s[..b[k]], &s[b[k + 1]..])
        }
        4 if b.len() > 1 => {
            let k = r.below(b.len() - 1);
            let c = rand_char(r);
            format!("{}{}{}", &s[..b[k]], c, &s[b[k + 1]..])
        }
        5 if b.len() > 1 => {
            let k = r.below(b.len() - 1);
            format!("{}{}{}", &s[..b[k + 1]], &s[b[k]..b[k + 1]], &s[b[k + 1]..])
        }
        6 if b.len() > 2 => {
            let k = r.below(b.len() - 2);
            format!("{}{}{}{}", &s[..b[k]], &s[b[k + 1]..b[k + 2]], &s[b[k]..b[k + 1]], &s[b[k + 2]..])
        }
        7 => {
            let j = b[r.below(b.len())];
            let (x, y) = (i.min(j), i.max(j));
            format!("{}{}", &s[..x], &s[y..])
        }
        _ => {
            let j = b[r.below(b.len())];
            let (x, y) = (i.min(j), i.max(j));
            format!("{}{}{}", &s[..y], &s[x..y], &s[y..])
        }
    }
}
