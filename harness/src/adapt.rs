//! Adapters: run each crate's parser/evaluator and convert its public syntax tree into the model.
use crate::eval::{self, PE};
use crate::model::*;
use serde_json::Value;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cr {
    Hand,
    Pest,
    Rec,
    Serde,
    Iter,
    Loc,
    Sing,
}
pub const ALL: [Cr; 7] = [Cr::Hand, Cr::Pest, Cr::Rec, Cr::Serde, Cr::Iter, Cr::Loc, Cr::Sing];
pub const EVAL: [Cr; 4] = [Cr::Serde, Cr::Iter, Cr::Loc, Cr::Sing];
pub const ENGINES: [Cr; 4] = [Cr::Serde, Cr::Iter, Cr::Loc, Cr::Sing];
impl Cr {
    pub fn name(self) -> &'static str {
        match self {
            Cr::Hand => "jsonpath_rfc9535",
            Cr::Pest => "pest",
            Cr::Rec => "pest_recursive",
            Cr::Serde => "serde",
            Cr::Iter => "iter",
            Cr::Loc => "locations",
            Cr::Sing => "singular",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum EK {
    Lexer,
    Syntax,
    Type,
    Name,
    /// a kind the properties do not speak of
    Other,
}
#[derive(Clone, Debug)]
pub struct PErr {
    pub kind: EK,
    pub msg: String,
    pub span: Option<(usize, usize)>,
    pub display: String,
}

fn flat(v: Vec<Expr>, or: bool) -> Expr {
    let mut o = vec![];
    for e in v {
        push_flat(&mut o, e, or);
    }
    if or {
        Expr::Or(o)
    } else {
        Expr::And(o)
    }
}

/// canonical form for comparing trees: redundant parentheses leave no trace
pub fn canon(q: &Query) -> Query {
    Query { root: q.root, segs: q.segs.iter().map(|s| Seg { desc: s.desc, sels: s.sels.iter().map(canon_sel).collect() }).collect() }
}
fn canon_sel(s: &Sel) -> Sel {
    match s {
        Sel::Filter(e) => Sel::Filter(canon_expr(e)),
        Sel::Sub(q) => Sel::Sub(canon(q)),
        // an omitted step means 1
        Sel::Slice(a, b, c) => Sel::Slice(*a, *b, Some(c.unwrap_or(1))),
        s => s.clone(),
    }
}
fn canon_expr(e: &Expr) -> Expr {
    match e {
        Expr::Or(v) => flat(v.iter().map(canon_expr).collect(), true),
        Expr::And(v) => flat(v.iter().map(canon_expr).collect(), false),
        Expr::Not(x) => Expr::Not(Box::new(canon_expr(x))),
        Expr::Cmp(l, o, r) => Expr::Cmp(canon_opd(l), *o, canon_opd(r)),
        Expr::Test(q) => Expr::Test(canon(q)),
        Expr::Call(c) => Expr::Call(canon_call(c)),
    }
}
fn canon_opd(o: &Operand) -> Operand {
    match o {
        Operand::Query(q) => Operand::Query(canon(q)),
        Operand::Call(c) => Operand::Call(canon_call(c)),
        o => o.clone(),
    }
}
fn canon_call(c: &Call) -> Call {
    Call {
        name: c.name.clone(),
        args: c
            .args
            .iter()
            .map(|a| match a {
                Arg::Lit(l) => Arg::Lit(l.clone()),
                Arg::Query(q) => Arg::Query(canon(q)),
                Arg::Call(c) => Arg::Call(canon_call(c)),
                Arg::Logic(e) => match canon_expr(e) {
                    Expr::Test(q) => Arg::Query(q),
                    Expr::Call(c) => Arg::Call(c),
                    e => Arg::Logic(e),
                },
            })
            .collect(),
    }
}

type C<T> = Result<T, String>;

macro_rules! convert {
    ($m:ident, $path:path, $lt:ident, $ln:ident, $lf:ident, $ls:ident, query=$q:ident) => {
        pub mod $m {
            use super::*;
            use $path as ast;
            convert!(@body ast, $lt, $ln, $lf, $ls);
            pub fn $q(q: &ast::Query, root: Root) -> C<Query> {
                let mut segs = vec![];
                for s in &q.segments {
                    match s {
                        ast::Segment::Child { selectors, .. } => segs.push(Seg { desc: false, sels: sels(selectors)? }),
                        ast::Segment::Recursive { selectors, .. } => segs.push(Seg { desc: true, sels: sels(selectors)? }),
                        #[allow(unreachable_patterns)]
                        _ => {}
                    }
                }
                Ok(Query { root, segs })
            }
        }
    };
    (@body $ast:ident, $lt:ident, $ln:ident, $lf:ident, $ls:ident) => {
        fn sels(v: &[$ast::Selector]) -> C<Vec<Sel>> {
            v.iter()
                .map(|s| {
                    Ok(match s {
                        $ast::Selector::Name { name, .. } => Sel::Name(name.clone()),
                        $ast::Selector::Index { index, .. } => Sel::Index(*index),
                        $ast::Selector::Slice { start, stop, step, .. } => Sel::Slice(*start, *stop, *step),
                        $ast::Selector::Wild { .. } => Sel::Wild,
                        $ast::Selector::Filter { expression, .. } => Sel::Filter(expr(expression)?),
                        #[allow(unreachable_patterns)]
                        s => return Err(format!("unknown selector {s:?}")),
                    })
                })
                .collect()
        }
        fn lit(e: &$ast::FilterExpression) -> Option<Lit> {
            Some(match e {
                $ast::FilterExpression::$lt { .. } => Lit::Bool(true),
                $ast::FilterExpression::$lf { .. } => Lit::Bool(false),
                $ast::FilterExpression::$ln { .. } => Lit::Null,
                $ast::FilterExpression::$ls { value, .. } => Lit::Str(value.clone()),
                $ast::FilterExpression::Int { value, .. } => Lit::Num(Num::of_i(*value)),
                $ast::FilterExpression::Float { value, .. } => Lit::Num(Num::of_f(*value)),
                _ => return None,
            })
        }
        pub fn expr(e: &$ast::FilterExpression) -> C<Expr> {
            Ok(match e {
                $ast::FilterExpression::Not { expression, .. } => Expr::Not(Box::new(expr(expression)?)),
                $ast::FilterExpression::Logical { left, operator, right, .. } => {
                    flat(vec![expr(left)?, expr(right)?], matches!(operator, $ast::LogicalOperator::Or))
                }
                $ast::FilterExpression::Comparison { left, operator, right, .. } => {
                    use $ast::ComparisonOperator as O;
                    let op = match operator {
                        O::Eq => Op::Eq,
                        O::Ne => Op::Ne,
                        O::Ge => Op::Ge,
                        O::Gt => Op::Gt,
                        O::Le => Op::Le,
                        O::Lt => Op::Lt,
                        #[allow(unreachable_patterns)]
                        o => return Err(format!("unknown operator {o:?}")),
                    };
                    Expr::Cmp(operand(left)?, op, operand(right)?)
                }
                $ast::FilterExpression::RelativeQuery { query: q, .. } => Expr::Test(query(q, Root::Rel)?),
                $ast::FilterExpression::RootQuery { query: q, .. } => Expr::Test(query(q, Root::Abs)?),
                $ast::FilterExpression::Function { name, args, .. } => {
                    Expr::Call(Call { name: name.to_string(), args: args.iter().map(arg).collect::<C<_>>()? })
                }
                e => return Err(format!("literal used as a test: {e:?}")),
            })
        }
        fn operand(e: &$ast::FilterExpression) -> C<Operand> {
            if let Some(l) = lit(e) {
                return Ok(Operand::Lit(l));
            }
            match expr(e)? {
                Expr::Test(q) => Ok(Operand::Query(q)),
                Expr::Call(c) => Ok(Operand::Call(c)),
                e => Err(format!("expression compared: {e:?}")),
            }
        }
        fn arg(e: &$ast::FilterExpression) -> C<Arg> {
            if let Some(l) = lit(e) {
                return Ok(Arg::Lit(l));
            }
            Ok(match expr(e)? {
                Expr::Test(q) => Arg::Query(q),
                Expr::Call(c) => Arg::Call(c),
                e => Arg::Logic(e),
            })
        }
    };
}
mod hand_ast {
    pub use jsonpath_rfc9535::query::*;
}
mod iter_ast {
    pub use jsonpath_rfc9535_iter::filter::*;
    pub use jsonpath_rfc9535_iter::query::*;
    pub use jsonpath_rfc9535_iter::segment::*;
    pub use jsonpath_rfc9535_iter::selector::*;
}
convert!(hand, super::hand_ast, True, Null, False, String, query = query);
convert!(pest, jsonpath_rfc9535_pest::ast, True, Null, False, String, query = query);
convert!(serde, jsonpath_rfc9535_serde::ast, True, Null, False, String, query = query);
convert!(iter, super::iter_ast, True, Null, False, String, query = query);
pub mod rec {
    use super::*;
    use jsonpath_rfc9535_pest_recursive::ast;
    convert!(@body ast, True_, Null, False_, StringLiteral);
    pub fn query(q: &ast::Query, root: Root) -> C<Query> {
        let mut segs = vec![];
        let mut cur = &q.ast;
        loop {
            match cur {
                ast::Segment::Root { .. } => break,
                ast::Segment::Child { left, selectors } => {
                    segs.push(Seg { desc: false, sels: sels(selectors)? });
                    cur = left;
                }
                ast::Segment::Recursive { left, selectors } => {
                    segs.push(Seg { desc: true, sels: sels(selectors)? });
                    cur = left;
                }
                #[allow(unreachable_patterns)]
                s => return Err(format!("unknown segment {s:?}")),
            }
        }
        segs.reverse();
        Ok(Query { root, segs })
    }
}

// ------------------------------------------------------------------ Debug trees (private syntax trees)

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Id(String),
    Str(String),
    Num(String),
    List(Vec<D>),
    Tup(String, Vec<D>),
    Struct(String, Vec<(String, D)>),
}
pub fn parse_debug(t: &str) -> C<D> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let d = dbg_val(&c, &mut i)?;
    dws(&c, &mut i);
    if i != c.len() {
        return Err("debug: trailing text".into());
    }
    Ok(d)
}
fn dws(c: &[char], i: &mut usize) {
    while c.get(*i).is_some_and(|x| x.is_whitespace()) {
        *i += 1;
    }
}
fn dbg_val(c: &[char], i: &mut usize) -> C<D> {
    dws(c, i);
    match c.get(*i) {
        Some('"') => {
            let st = *i;
            *i += 1;
            while let Some(x) = c.get(*i) {
                *i += 1;
                if *x == '\\' {
                    *i += 1;
                } else if *x == '"' {
                    return unrust(&c[st + 1..*i - 1]).map(D::Str);
                }
            }
            Err("debug: string".into())
        }
        Some('[') => {
            *i += 1;
            let mut v = vec![];
            loop {
                dws(c, i);
                if c.get(*i) == Some(&']') {
                    *i += 1;
                    return Ok(D::List(v));
                }
                v.push(dbg_val(c, i)?);
                dws(c, i);
                if c.get(*i) == Some(&',') {
                    *i += 1;
                }
            }
        }
        Some(x) if x.is_ascii_digit() || *x == '-' => {
            let st = *i;
            while c.get(*i).is_some_and(|x| x.is_ascii_alphanumeric() || matches!(x, '-' | '+' | '.')) {
                *i += 1;
            }
            Ok(D::Num(c[st..*i].iter().collect()))
        }
        Some(x) if x.is_alphabetic() || *x == '_' => {
            let st = *i;
            while c.get(*i).is_some_and(|x| x.is_alphanumeric() || *x == '_') {
                *i += 1;
            }
            let id: String = c[st..*i].iter().collect();
            if id == "inf" || id == "NaN" {
                return Ok(D::Num(id));
            }
            dws(c, i);
            match c.get(*i) {
                Some('{') => {
                    *i += 1;
                    let mut v = vec![];
                    loop {
                        dws(c, i);
                        if c.get(*i) == Some(&'}') {
                            *i += 1;
                            return Ok(D::Struct(id, v));
                        }
                        let D::Id(k) = dbg_field(c, i)? else { return Err("debug: field".into()) };
                        dws(c, i);
                        if c.get(*i) != Some(&':') {
                            return Err("debug: colon".into());
                        }
                        *i += 1;
                        v.push((k, dbg_val(c, i)?));
                        dws(c, i);
                        if c.get(*i) == Some(&',') {
                            *i += 1;
                        }
                    }
                }
                Some('(') => {
                    *i += 1;
                    let mut v = vec![];
                    loop {
                        dws(c, i);
                        if c.get(*i) == Some(&')') {
                            *i += 1;
                            return Ok(D::Tup(id, v));
                        }
                        v.push(dbg_val(c, i)?);
                        dws(c, i);
                        if c.get(*i) == Some(&',') {
                            *i += 1;
                        }
                    }
                }
                _ => Ok(D::Id(id)),
            }
        }
        _ => Err("debug: value".into()),
    }
}
fn dbg_field(c: &[char], i: &mut usize) -> C<D> {
    let st = *i;
    while c.get(*i).is_some_and(|x| x.is_alphanumeric() || *x == '_') {
        *i += 1;
    }
    Ok(D::Id(c[st..*i].iter().collect()))
}
fn unrust(c: &[char]) -> C<String> {
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' {
            o.push(c[i]);
            i += 1;
            continue;
        }
        i += 1;
        match c.get(i) {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('u') => {
                let e = c[i..].iter().position(|x| *x == '}').ok_or("debug: \\u")?;
                let h: String = c[i + 2..i + e].iter().collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("debug: \\u")?);
                i += e;
            }
            Some(x) => o.push(*x),
            None => return Err("debug: escape".into()),
        }
        i += 1;
    }
    Ok(o)
}
impl D {
    fn head(&self) -> &str {
        match self {
            D::Id(s) | D::Tup(s, _) | D::Struct(s, _) => s,
            _ => "",
        }
    }
    fn f(&self, k: &str) -> C<&D> {
        if let D::Struct(_, v) = self {
            if let Some((_, d)) = v.iter().find(|(x, _)| x == k) {
                return Ok(d);
            }
        }
        Err(format!("debug: no field {k} in {self:?}"))
    }
    fn list(&self) -> C<&[D]> {
        match self {
            D::List(v) => Ok(v),
            d => Err(format!("debug: not a list {d:?}")),
        }
    }
    fn s(&self) -> C<String> {
        match self {
            D::Str(s) => Ok(s.clone()),
            d => Err(format!("debug: not a string {d:?}")),
        }
    }
    fn i(&self) -> C<i64> {
        match self {
            D::Num(s) => s.parse().map_err(|_| format!("debug: not an int {s}")),
            d => Err(format!("debug: not an int {d:?}")),
        }
    }
    fn oi(&self) -> C<Option<i64>> {
        match self {
            D::Id(s) if s == "None" => Ok(None),
            D::Tup(s, v) if s == "Some" && v.len() == 1 => Ok(Some(v[0].i()?)),
            d => Err(format!("debug: not an option {d:?}")),
        }
    }
}
pub fn dquery(d: &D, root: Root) -> C<Query> {
    let mut segs = vec![];
    for s in d.f("segments")?.list()? {
        match s.head() {
            "Child" => segs.push(Seg { desc: false, sels: dsels(s.f("selectors")?)? }),
            "Recursive" => segs.push(Seg { desc: true, sels: dsels(s.f("selectors")?)? }),
            "Eoi" => {}
            h => return Err(format!("debug: segment {h}")),
        }
    }
    Ok(Query { root, segs })
}
fn dsels(d: &D) -> C<Vec<Sel>> {
    d.list()?
        .iter()
        .map(|s| {
            Ok(match s.head() {
                "Name" => Sel::Name(s.f("name")?.s()?),
                "Index" => Sel::Index(s.f("index")?.i()?),
                "Slice" => Sel::Slice(s.f("start")?.oi()?, s.f("stop")?.oi()?, s.f("step")?.oi()?),
                "Wild" => Sel::Wild,
                "Filter" => Sel::Filter(dexpr(s.f("expression")?)?),
                "SingularQuery" => Sel::Sub(dquery(s.f("query")?, Root::Abs)?),
                h => return Err(format!("debug: selector {h}")),
            })
        })
        .collect()
}
fn dlit(d: &D) -> C<Option<Lit>> {
    Ok(Some(match d.head() {
        "True" => Lit::Bool(true),
        "False" => Lit::Bool(false),
        "Null" => Lit::Null,
        "String" => Lit::Str(d.f("value")?.s()?),
        "Int" => Lit::Num(Num::of_i(d.f("value")?.i()?)),
        "Float" => match d.f("value")? {
            D::Num(s) => Lit::Num(Num::of_f(s.parse().map_err(|_| "debug: float")?)),
            _ => return Err("debug: float".into()),
        },
        _ => return Ok(None),
    }))
}
fn dexpr(d: &D) -> C<Expr> {
    Ok(match d.head() {
        "Not" => Expr::Not(Box::new(dexpr(d.f("expression")?)?)),
        "Logical" => flat(vec![dexpr(d.f("left")?)?, dexpr(d.f("right")?)?], d.f("operator")?.head() == "Or"),
        "Comparison" => {
            let op = match d.f("operator")?.head() {
                "Eq" => Op::Eq,
                "Ne" => Op::Ne,
                "Ge" => Op::Ge,
                "Gt" => Op::Gt,
                "Le" => Op::Le,
                "Lt" => Op::Lt,
                h => return Err(format!("debug: operator {h}")),
            };
            Expr::Cmp(doperand(d.f("left")?)?, op, doperand(d.f("right")?)?)
        }
        "RelativeQuery" => Expr::Test(dquery(d.f("query")?, Root::Rel)?),
        "RootQuery" => Expr::Test(dquery(d.f("query")?, Root::Abs)?),
        "Function" => Expr::Call(Call { name: d.f("name")?.s()?, args: d.f("args")?.list()?.iter().map(darg).collect::<C<_>>()? }),
        h => return Err(format!("literal used as a test or unknown node: {h}")),
    })
}
fn doperand(d: &D) -> C<Operand> {
    if let Some(l) = dlit(d)? {
        return Ok(Operand::Lit(l));
    }
    match dexpr(d)? {
        Expr::Test(q) => Ok(Operand::Query(q)),
        Expr::Call(c) => Ok(Operand::Call(c)),
        e => Err(format!("expression compared: {e:?}")),
    }
}
fn darg(d: &D) -> C<Arg> {
    if let Some(l) = dlit(d)? {
        return Ok(Arg::Lit(l));
    }
    Ok(match dexpr(d)? {
        Expr::Test(q) => Arg::Query(q),
        Expr::Call(c) => Arg::Call(c),
        e => Arg::Logic(e),
    })
}

// ------------------------------------------------------------------ parsers

/// A parser of one crate, with functions registered.
pub enum Parser {
    Hand(jsonpath_rfc9535::Parser),
    Pest(jsonpath_rfc9535_pest::JSONPathParser),
    Rec(jsonpath_rfc9535_pest_recursive::JSONPathParser),
    Serde(jsonpath_rfc9535_serde::JSONPathParser),
    Iter(jsonpath_rfc9535_iter::JSONPathParser),
    Loc(jsonpath_rfc9535_locations::JSONPathParser),
    Sing(jsonpath_rfc9535_singular::JSONPathParser),
}
pub enum Parsed {
    Hand(jsonpath_rfc9535::Query),
    Pest(jsonpath_rfc9535_pest::ast::Query),
    Rec(jsonpath_rfc9535_pest_recursive::ast::Query),
    Serde(jsonpath_rfc9535_serde::Query),
    Iter(jsonpath_rfc9535_iter::Query),
    Loc(jsonpath_rfc9535_locations::Query),
    Sing(jsonpath_rfc9535_singular::Query),
}
macro_rules! ek {
    ($m:ident, $e:expr, $span:expr) => {{
        use $m::errors::JSONPathErrorType as T;
        let e = $e;
        PErr {
            kind: match e.kind {
                T::LexerError => EK::Lexer,
                T::SyntaxError => EK::Syntax,
                T::TypeError => EK::Type,
                T::NameError => EK::Name,
                #[allow(unreachable_patterns)]
                _ => EK::Other,
            },
            display: e.to_string(),
            msg: e.msg.clone(),
            span: $span(&e),
        }
    }};
}
pub fn hand_err(e: jsonpath_rfc9535::JSONPathError) -> PErr {
    ek!(jsonpath_rfc9535, e, |e: &jsonpath_rfc9535::JSONPathError| Some(e.span))
}
macro_rules! ty {
    ($t:path, $x:expr) => {{
        use $t as T;
        match $x {
            Ty::Value => T::Value,
            Ty::Logical => T::Logical,
            Ty::Nodes => T::Nodes,
        }
    }};
}
macro_rules! sig {
    ($m:path, $t:path, $s:expr) => {{
        use $m as S;
        S { param_types: $s.0.iter().map(|t| ty!($t, t)).collect(), return_type: ty!($t, $s.1) }
    }};
}
pub fn parser(c: Cr) -> Parser {
    match c {
        Cr::Hand => Parser::Hand(jsonpath_rfc9535::Parser::new()),
        Cr::Pest => Parser::Pest(jsonpath_rfc9535_pest::JSONPathParser::new()),
        Cr::Rec => Parser::Rec(jsonpath_rfc9535_pest_recursive::JSONPathParser::new()),
        Cr::Serde => Parser::Serde(jsonpath_rfc9535_serde::JSONPathParser::new()),
        Cr::Iter => Parser::Iter(jsonpath_rfc9535_iter::JSONPathParser::new()),
        Cr::Loc => Parser::Loc(jsonpath_rfc9535_locations::JSONPathParser::new()),
        Cr::Sing => Parser::Sing(jsonpath_rfc9535_singular::JSONPathParser::new()),
    }
}
pub fn parser_default(c: Cr) -> Parser {
    match c {
        Cr::Hand => Parser::Hand(Default::default()),
        Cr::Pest => Parser::Pest(Default::default()),
        Cr::Rec => Parser::Rec(Default::default()),
        Cr::Serde => Parser::Serde(Default::default()),
        Cr::Iter => Parser::Iter(Default::default()),
        Cr::Loc => Parser::Loc(Default::default()),
        Cr::Sing => Parser::Sing(Default::default()),
    }
}
/// one of the two, the same for the same number
pub fn parser_by(c: Cr, n: usize) -> Parser {
    if n % 4 == 1 {
        parser_default(c)
    } else {
        parser(c)
    }
}
impl Parser {
    pub fn add(&mut self, name: &str, s: &Sig) {
        let n = name.to_string();
        match self {
            Parser::Hand(p) => p.add_function(
                name,
                s.0.iter().map(|t| ty!(jsonpath_rfc9535::ExpressionType, t)).collect(),
                ty!(jsonpath_rfc9535::ExpressionType, s.1),
            ),
            Parser::Pest(p) => {
                p.functions.insert(n, sig!(jsonpath_rfc9535_pest::parser::FunctionSignature, jsonpath_rfc9535_pest::parser::ExpressionType, s));
            }
            Parser::Rec(p) => p.add_function(
                name,
                s.0.iter().map(|t| ty!(jsonpath_rfc9535_pest_recursive::parser::ExpressionType, t)).collect(),
                ty!(jsonpath_rfc9535_pest_recursive::parser::ExpressionType, s.1),
            ),
            Parser::Serde(p) => {
                p.functions.insert(n, sig!(jsonpath_rfc9535_serde::function::FunctionSignature, jsonpath_rfc9535_serde::function::ExpressionType, s));
            }
            Parser::Iter(p) => {
                p.functions.insert(n, sig!(jsonpath_rfc9535_iter::function::FunctionSignature, jsonpath_rfc9535_iter::function::ExpressionType, s));
            }
            Parser::Loc(p) => {
                p.functions.insert(n, sig!(jsonpath_rfc9535_locations::function::FunctionSignature, jsonpath_rfc9535_locations::function::ExpressionType, s));
            }
            Parser::Sing(p) => {
                p.functions.insert(n, sig!(jsonpath_rfc9535_singular::function::FunctionSignature, jsonpath_rfc9535_singular::function::ExpressionType, s));
            }
        }
    }
    pub fn set_range(&mut self, lo: i64, hi: i64) {
        match self {
            Parser::Hand(p) => p.index_range = lo..=hi,
            Parser::Pest(p) => p.index_range = lo..=hi,
            Parser::Rec(p) => p.index_range = lo..=hi,
            Parser::Serde(p) => p.index_range = lo..=hi,
            Parser::Iter(p) => p.index_range = lo..=hi,
            Parser::Loc(p) => p.index_range = lo..=hi,
            Parser::Sing(p) => p.index_range = lo..=hi,
        }
    }
    pub fn remove(&mut self, name: &str) {
        match self {
            Parser::Hand(p) => drop(p.functions.remove(name)),
            Parser::Pest(p) => drop(p.functions.remove(name)),
            Parser::Rec(p) => drop(p.function_signatures.remove(name)),
            Parser::Serde(p) => drop(p.functions.remove(name)),
            Parser::Iter(p) => drop(p.functions.remove(name)),
            Parser::Loc(p) => drop(p.functions.remove(name)),
            Parser::Sing(p) => drop(p.functions.remove(name)),
        }
    }
    pub fn parse(&self, t: &str) -> Result<Parsed, PErr> {
        match self {
            Parser::Hand(p) => p.parse(t).map(Parsed::Hand).map_err(hand_err),
            Parser::Pest(p) => p.parse(t).map(Parsed::Pest).map_err(|e| ek!(jsonpath_rfc9535_pest, e, |_: &_| None)),
            Parser::Rec(p) => p.parse(t).map(Parsed::Rec).map_err(|e| ek!(jsonpath_rfc9535_pest_recursive, e, |_: &_| None)),
            Parser::Serde(p) => p.parse(t).map(Parsed::Serde).map_err(|e| ek!(jsonpath_rfc9535_serde, e, |_: &_| None)),
            Parser::Iter(p) => p.parse(t).map(Parsed::Iter).map_err(|e| ek!(jsonpath_rfc9535_iter, e, |_: &_| None)),
            Parser::Loc(p) => p.parse(t).map(Parsed::Loc).map_err(|e| ek!(jsonpath_rfc9535_locations, e, |_: &_| None)),
            Parser::Sing(p) => p.parse(t).map(Parsed::Sing).map_err(|e| ek!(jsonpath_rfc9535_singular, e, |_: &_| None)),
        }
    }
}
/// `Query::standard`
pub fn standard(c: Cr, t: &str) -> Result<Parsed, PErr> {
    match c {
        Cr::Hand => jsonpath_rfc9535::Query::standard(t).map(Parsed::Hand).map_err(hand_err),
        Cr::Pest => jsonpath_rfc9535_pest::ast::Query::standard(t).map(Parsed::Pest).map_err(|e| ek!(jsonpath_rfc9535_pest, e, |_: &_| None)),
        Cr::Rec => jsonpath_rfc9535_pest_recursive::ast::Query::standard(t).map(Parsed::Rec).map_err(|e| ek!(jsonpath_rfc9535_pest_recursive, e, |_: &_| None)),
        Cr::Serde => jsonpath_rfc9535_serde::Query::standard(t).map(Parsed::Serde).map_err(|e| ek!(jsonpath_rfc9535_serde, e, |_: &_| None)),
        Cr::Iter => jsonpath_rfc9535_iter::Query::standard(t).map(Parsed::Iter).map_err(|e| ek!(jsonpath_rfc9535_iter, e, |_: &_| None)),
        Cr::Loc => jsonpath_rfc9535_locations::Query::standard(t).map(Parsed::Loc).map_err(|e| ek!(jsonpath_rfc9535_locations, e, |_: &_| None)),
        Cr::Sing => jsonpath_rfc9535_singular::Query::standard(t).map(Parsed::Sing).map_err(|e| ek!(jsonpath_rfc9535_singular, e, |_: &_| None)),
    }
}
impl Parsed {
    pub fn display(&self) -> String {
        match self {
            Parsed::Hand(q) => q.to_string(),
            Parsed::Pest(q) => q.to_string(),
            Parsed::Rec(q) => q.to_string(),
            Parsed::Serde(q) => q.to_string(),
            Parsed::Iter(q) => q.to_string(),
            Parsed::Loc(q) => q.to_string(),
            Parsed::Sing(q) => q.to_string(),
        }
    }
    pub fn debug(&self) -> String {
        match self {
            Parsed::Hand(q) => format!("{q:?}"),
            Parsed::Pest(q) => format!("{q:?}"),
            Parsed::Rec(q) => format!("{q:?}"),
            Parsed::Serde(q) => format!("{q:?}"),
            Parsed::Iter(q) => format!("{q:?}"),
            Parsed::Loc(q) => format!("{q:?}"),
            Parsed::Sing(q) => format!("{q:?}"),
        }
    }
    pub fn model(&self) -> C<Query> {
        match self {
            Parsed::Hand(q) => hand::query(q, Root::Abs),
            Parsed::Pest(q) => pest::query(q, Root::Abs),
            Parsed::Rec(q) => rec::query(q, Root::Abs),
            Parsed::Serde(q) => serde::query(q, Root::Abs),
            Parsed::Iter(q) => iter::query(q, Root::Abs),
            Parsed::Loc(q) => dquery(&parse_debug(&format!("{q:?}"))?, Root::Abs),
            Parsed::Sing(q) => dquery(&parse_debug(&format!("{q:?}"))?, Root::Abs),
        }
    }
}

// ------------------------------------------------------------------ evaluation

/// a returned node: address of its value in the document, and its location text
#[derive(Clone, Debug)]
pub struct Got {
    pub ptr: *const Value,
    pub loc: String,
    /// structured location, where the crate exposes one
    pub parts: Option<Vec<PE>>,
}
pub type EvalRes = Result<Vec<Got>, String>;

macro_rules! loc_nodes {
    ($m:ident, $nodes:expr) => {
        $nodes
            .into_iter()
            .map(|n| {
                let mut p: Vec<PE> = n
                    .location
                    .iter()
                    .map(|e| match e {
                        #[allow(clippy::unnecessary_cast)]
                        $m::node::PathElement::Index(i) => PE::Idx(*i as usize),
                        $m::node::PathElement::Name(s) => PE::Name(s.to_string()),
                        #[allow(unreachable_patterns)]
                        e => PE::Name(format!("{e:?}")),
                    })
                    .collect();
                p.reverse();
                Got { ptr: n.value as *const Value, loc: n.path(), parts: Some(p) }
            })
            .collect()
    };
}
pub fn got_serde(v: Vec<jsonpath_rfc9535_serde::ast::Node>) -> Vec<Got> {
    v.into_iter().map(|n| Got { ptr: n.value as *const Value, loc: n.location.to_string(), parts: None }).collect()
}
pub fn got_iter<'a>(it: impl Iterator<Item = std::rc::Rc<jsonpath_rfc9535_iter::node::Node<'a>>>) -> Vec<Got> {
    it.map(|n| Got { ptr: n.value as *const Value, loc: n.location.to_string(), parts: None }).collect()
}
pub fn got_loc(v: jsonpath_rfc9535_locations::node::NodeList) -> Vec<Got> {
    loc_nodes!(jsonpath_rfc9535_locations, v)
}
pub fn got_sing(v: jsonpath_rfc9535_singular::node::NodeList) -> Vec<Got> {
    loc_nodes!(jsonpath_rfc9535_singular, v)
}
/// the crate's module-level `find`
pub fn find(c: Cr, t: &str, doc: &Value) -> EvalRes {
    match c {
        Cr::Serde => jsonpath_rfc9535_serde::find(t, doc).map(got_serde).map_err(|e| e.to_string()),
        Cr::Iter => jsonpath_rfc9535_iter::find(t, doc).map(got_iter).map_err(|e| e.to_string()),
        Cr::Loc => jsonpath_rfc9535_locations::find(t, doc).map(got_loc).map_err(|e| e.to_string()),
        Cr::Sing => jsonpath_rfc9535_singular::find(t, doc).map(got_sing).map_err(|e| e.to_string()),
        _ => Err("not an evaluating crate".into()),
    }
}
pub fn find_loop(t: &str, doc: &Value) -> EvalRes {
    jsonpath_rfc9535_serde::find_loop(t, doc).map(got_serde).map_err(|e| e.to_string())
}
pub fn expect(q: &Query, doc: &Value, funcs: &dyn eval::Funcs) -> Vec<(*const Value, Vec<PE>)> {
    eval::eval(q, doc, funcs).into_iter().map(|n| (n.v as *const Value, n.path.parts())).collect()
}
