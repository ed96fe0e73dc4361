//! C07-C12: what each parser accepts, what it makes of it, how it reports and prints it.
use crate::adapt::{self, Cr, PErr, EK};
use crate::gen::{self, Cfg, Style};
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sweep;
use crate::util::*;
use serde_json::json;

pub const FIVE: [Cr; 5] = [Cr::Pest, Cr::Rec, Cr::Serde, Cr::Iter, Cr::Loc];

pub fn corpus() -> &'static [String] {
    static C: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../../corpus/queries.json")).unwrap())
}

pub fn prop(id: &str) -> Option<Prop> {
    let grid = grid_size();
    Some(match id {
        "C07" => Prop {
            id: "C07",
            rule: "strings: printed valid queries in random spellings, 1-3 random edits of them and of the repository's own query literals, token sequences, every single-character insertion and replacement in template queries, number and string-literal spellings; each is judged by an independent RFC 9535 recogniser and parsed by the five grammar-based crates; non-trivial: a string longer than 3 characters that the recogniser judges",
            assumptions: &["nesting stays below 64 levels", "strings on which the RFC's ABNF for singular queries and common practice differ (blanks inside the brackets of a compared query) are not judged"],
            stages: vec![
                stage("valid", 48_000, 300_000, c07_valid),
                stage("edited", 240_000, 1_500_000, c07_edited),
                stage("corpus", 72_000, 400_000, c07_corpus),
                stage("token soup", 180_000, 900_000, c07_soup),
                stage("token pairs", pairs_size(), pairs_size(), c07_pairs),
                stage("character grid", grid / 4, grid, c07_grid),
                stage("numbers", 120_000, 600_000, c07_numbers),
                stage("strings", 120_000, 600_000, c07_strings),
                stage("huge queries", 2_400, 30_000, c07_huge),
                stage("every character", sweep::QUICK * sweep::FORMS, sweep::ALL * sweep::FORMS, c07_every),
            ],
        },
        "C08" => Prop {
            id: "C08",
            rule: "the strings of C07 parsed by the handcrafted parser, judged by the independent recogniser; non-trivial: a string longer than 3 characters that the recogniser judges",
            assumptions: &["nesting stays below 64 levels", "blanks inside the brackets of a compared query are not judged"],
            stages: vec![
                stage("valid", 60_000, 500_000, c08_valid),
                stage("edited", 480_000, 3_000_000, c08_edited),
                stage("corpus", 180_000, 1_000_000, c08_corpus),
                stage("token soup", 360_000, 2_000_000, c08_soup),
                stage("token pairs", pairs_size(), pairs_size(), c08_pairs),
                stage("character grid", grid, grid, c08_grid),
                stage("numbers", 240_000, 1_200_000, c08_numbers),
                stage("strings", 240_000, 1_200_000, c08_strings),
                stage("huge queries", 2_400, 30_000, c08_huge),
                stage("every character", sweep::QUICK * sweep::FORMS, sweep::ALL * sweep::FORMS, c08_every),
                stage("control escapes", 1, 1, c08_control),
            ],
        },
        "C09" => Prop {
            id: "C09",
            rule: "valid queries (generated in random spellings, and edited strings that stay valid) parsed by each crate; the syntax tree is converted to a neutral form and compared with the independent parser's; non-trivial: the query has at least one segment",
            assumptions: &["the locations and singular crates keep their syntax tree private: it is read from its Debug form, and from its printed form when that is not understood"],
            stages: vec![
                stage("random", 48_000, 300_000, c09_random),
                stage("filters", 48_000, 300_000, c09_filters),
                stage("precedence", 36_000, 200_000, c09_prec),
                stage("edited", 96_000, 500_000, c09_edited),
                stage("corpus", 24_000, 120_000, c09_corpus),
                stage("numbers", 48_000, 240_000, c09_numbers),
                stage("strings", 48_000, 240_000, c09_strings),
                stage("huge queries", 2_400, 30_000, c09_huge),
                stage("every character", sweep::QUICK * sweep::FORMS, sweep::ALL * sweep::FORMS, c09_every),
            ],
        },
        "C10" => Prop {
            id: "C10",
            rule: "function registries with every parameter and return type, calls with every kind of argument in every position of an expression (enumerated for one parameter, nested calls and argument counts; random otherwise), parsed by all seven crates with those functions registered; judged by the independent type checker; non-trivial: the string contains a call",
            assumptions: &[],
            stages: vec![
                stage("one argument", one_arg_size(), one_arg_size(), c10_one),
                stage("argument count", 11 * 13 * 3, 11 * 13 * 3, c10_count),
                stage("many parameters", 3_000, 40_000, c10_many),
                stage("nested", 3 * 3 * 3 * 3 * 12, 3 * 3 * 3 * 3 * 12, c10_nested),
                stage("names", NAMES.len() as u64 * 4, NAMES.len() as u64 * 4, c10_names),
                stage("name characters", NAME_CHARS * NAME_FORMS, NAME_CHARS * NAME_FORMS, c10_chars),
                stage("logical shapes", shapes_size(), shapes_size(), c10_shapes),
                stage("random", 40_000, 300_000, c10_random),
                stage("standard", 50_000, 300_000, c10_standard),
                stage("long and deep", 6_000, 60_000, c10_long),
            ],
        },
        "C11" => Prop {
            id: "C11",
            rule: "rejected strings (edits, token soup, unknown functions, ill-typed calls, out-of-range integers) in all seven crates; the error kind is compared with the cause found by the independent parser when that cause is unique; in the handcrafted crate every span is checked; non-trivial: the string is rejected for a judged cause",
            assumptions: &["when a string has several faults any of their kinds is accepted"],
            stages: vec![
                stage("semantic", 72_000, 400_000, c11_sem),
                stage("edited", 96_000, 500_000, c11_edited),
                stage("soup", 60_000, 300_000, c11_soup),
                stage("huge queries", 2_400, 30_000, c11_huge),
                stage("typing", one_arg_size(), one_arg_size(), c11_typing),
            ],
        },
        "C12" => Prop {
            id: "C12",
            rule: "valid queries parsed by each crate, printed with Display, reparsed by the same crate and by the independent parser; meaning and second printing are compared; non-trivial: the query has at least one segment",
            assumptions: &["string literals inside filters hold no quotes, backslashes or control characters (the property's exception)"],
            stages: vec![
                stage("random", 48_000, 300_000, c12_random),
                stage("hostile names", 48_000, 300_000, c12_hostile),
                stage("embedded queries and implicit root", 24_000, 200_000, c12_embedded),
                stage("filters", 60_000, 400_000, c12_filters),
                stage("edited", 72_000, 400_000, c12_edited),
                stage("corpus", 24_000, 120_000, c12_corpus),
                stage("numbers", 36_000, 200_000, c12_numbers),
                stage("huge queries", 1_200, 20_000, c12_huge),
                stage("every character", sweep::QUICK * sweep::FORMS, sweep::ALL * sweep::FORMS, c12_every),
                stage("bare string literals", 3, 3, c12_bare),
            ],
        },
        _ => return None,
    })
}

// ------------------------------------------------------------------ acceptance

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Want {
    Accept,
    Reject,
    Skip,
}
pub fn want(t: &str, sigs: &Sigs, ext: bool) -> Want {
    match parse(t, sigs, ext) {
        Ok(p) if p.lenient => Want::Skip,
        Ok(p) if p.sem.is_empty() => Want::Accept,
        Ok(_) => Want::Reject,
        Err(_) => Want::Reject,
    }
}
pub fn want_std(t: &str) -> Want {
    SIGS.with(|s| want(t, s, false))
}
/// replace \u0000-\u001f escapes, which the handcrafted crate rejects (known finding), by another escape
pub fn without_control_escapes(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\\' && i + 1 < b.len() {
            if b[i + 1] == 'u' && i + 5 < b.len() && b[i + 2] == '0' && b[i + 3] == '0' && matches!(b[i + 4], '0' | '1') && b[i + 5].is_ascii_hexdigit() {
                o.push_str("\\u0041");
                i += 6;
            } else {
                o.push(b[i]);
                o.push(b[i + 1]);
                i += 2;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
/// remove as much text as possible while `bad` stays true
pub fn shrink_text(t: &str, bad: impl Fn(&str) -> bool) -> String {
    let mut cur: Vec<char> = t.chars().collect();
    let t0 = std::time::Instant::now();
    let mut n = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() {
            if t0.elapsed().as_secs() >= 3 {
                return cur.into_iter().collect();
            }
            let mut c = cur.clone();
            c.drain(i..(i + n).min(c.len()));
            let s: String = c.iter().collect();
            if bad(&s) {
                cur = c;
                any = true;
            } else {
                i += n;
            }
        }
        if n > 1 {
            n /= 2;
        } else if !any {
            break;
        }
    }
    cur.into_iter().collect()
}
pub fn parse_std(c: Cr, t: &str) -> Result<Result<adapt::Parsed, PErr>, String> {
    sut(|| adapt::standard(c, t))
}
fn disagree(c: Cr, t: &str, w: Want) -> Option<(&'static str, String)> {
    match (w, parse_std(c, t)) {
        (_, Err(p)) => Some(("panic", p)),
        (Want::Accept, Ok(Err(e))) => {
            if c == Cr::Hand && e.kind != EK::Type {
                let u = without_control_escapes(t);
                if u != t && matches!(parse_std(c, &u), Ok(Ok(_))) {
                    return None;
                }
            }
            Some(("rejected a valid query", e.display))
        }
        (Want::Reject, Ok(Ok(p))) => Some(("accepted an invalid query", sut(|| p.display()).unwrap_or_default())),
        _ => None,
    }
}
pub fn accept(cx: &mut Cx, t: &str, crates: &[Cr], ext: bool) -> Res {
    let judge = |s: &str| SIGS.with(|g| want(s, g, ext));
    let w = judge(t);
    if w == Want::Skip {
        cx.count("not judged", 1);
        return Ok(());
    }
    cx.case(t, t.len() > 3);
    cx.count(if w == Want::Accept { "valid strings" } else { "invalid strings" }, 1);
    if w == Want::Accept && t.len() > 3 {
        cx.sample(|| json!(t));
    }
    for c in crates {
        cx.count("verdicts compared", 1);
        if let Some((what, d)) = disagree(*c, t, w) {
            let s = shrink_text(t, |s| {
                let w = judge(s);
                w != Want::Skip && disagree(*c, s, w).is_some_and(|x| x.0 == what)
            });
            return viol(
                format!("{}: {what}: {}", c.name(), clip(&s, 200)),
                json!({"crate": c.name(), "query": t, "smaller": s, "recogniser": format!("{w:?}"), "outcome": d}),
            );
        }
    }
    Ok(())
}

pub fn gen_valid(r: &mut Rng) -> (Query, String) {
    let c = match r.below(5) {
        0 => Cfg { filters: 70, max_segs: 2, ..Cfg::std() },
        1 => Cfg { hostile: 60, ..Cfg::std() },
        2 => Cfg { filters: 60, calls: 60, max_segs: 2, max_sels: 2, ..Cfg::std() },
        3 => Cfg { filters: 80, max_depth: 3, max_segs: 2, max_sels: 2, big_ints: 25, ..Cfg::std() },
        _ => Cfg::std(),
    };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    (q, t)
}
/// a valid query that has very much of one thing: segments, selectors, terms, characters, blanks, levels
pub fn gen_long(r: &mut Rng) -> String {
    let c = Cfg { hostile: 15, ..Cfg::std() };
    let n = match r.below(6) {
        0 => 60 + r.below(10),
        1 => 124 + r.below(8),
        2 => 250 + r.below(12),
        3 => 508 + r.below(10),
        4 => 1020 + r.below(10),
        _ => 40 + r.below(1_200),
    };
    // characters and blanks are cheaper
    let chars = match r.below(4) {
        0 => 65_530 + r.below(12),
        1 => 32_760 + r.below(16),
        _ => n * 4 + r.below(4),
    };
    let rel = |n: &str| Query { root: Root::Rel, segs: vec![Seg { desc: false, sels: vec![Sel::Name(n.into())] }] };
    let child = |s: Vec<Sel>| Query { root: Root::Abs, segs: vec![Seg { desc: false, sels: s }] };
    let term = |r: &mut Rng, k: usize| {
        let name = ["a", "b", "c", "d"][r.below(4)];
        match r.below(4) {
            0 => Expr::Test(rel(name)),
            1 => Expr::Not(Box::new(Expr::Test(rel(name)))),
            _ => Expr::Cmp(Operand::Query(rel(name)), *r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]), Operand::Lit(Lit::Num(Num::of_i((k % 300) as i64)))),
        }
    };
    let text = |r: &mut Rng, n: usize| -> String {
        if r.pct(30) {
            // all alike but for a few characters that take an escape or more than a byte
            let mut v = vec![*r.pick(&['a', ' ', '\u{e9}', '\u{1d11e}']); n];
            for _ in 0..1 + r.below(3) {
                let at = if r.pct(40) { n - 1 - r.below(3) } else { r.below(n) };
                v[at] = *r.pick(&['\\', '\'', '"', '\n', '\u{8}', '\u{1f}', '/', '\u{7f}', '\u{e000}', '\u{10000}', '\u{10ffff}', '\u{2028}']);
            }
            return v.into_iter().collect();
        }
        let cs: Vec<char> = match r.below(4) {
            0 => vec!['a'],
            1 => vec!['a', '\u{e9}'],
            2 => vec!['\\', '\'', '"', 'x', '\n'],
            _ => vec!['\u{1d11e}', 'b', '\u{20ac}'],
        };
        let k = r.below(7);
        (0..n).map(|i| cs[(i + k) % cs.len()]).collect()
    };
    let q = match r.below(11) {
        0 => Query { root: Root::Abs, segs: (0..n).map(|_| Seg { desc: false, sels: vec![if r.pct(60) { Sel::Name(gen::name(r, 20)) } else { Sel::Index(r.range(-2, 2)) }] }).collect() },
        1 => {
            // the same with one segment of another kind
            let mut segs: Vec<Seg> = (0..n).map(|_| Seg { desc: false, sels: vec![if r.pct(50) { Sel::Name("a".into()) } else { Sel::Index(0) }] }).collect();
            let k = if r.pct(50) { n } else { r.below(n + 1) };
            segs.insert(k, gen::seg(r, &c, 1));
            Query { root: Root::Abs, segs }
        }
        2 => child((0..n).map(|_| gen::sel(r, &Cfg { filters: 2, ..Cfg::std() }, 1)).collect()),
        3 => child((0..n).map(|k| if r.pct(50) { Sel::Index(k as i64 - 20) } else { Sel::Name(format!("k{k}")) }).collect()),
        4 => child(vec![Sel::Filter(Expr::Or((0..n).map(|k| term(r, k)).collect()))]),
        5 => child(vec![Sel::Filter(Expr::And((0..n).map(|k| term(r, k)).collect()))]),
        6 => {
            let m = 2 + r.below(6);
            child(vec![Sel::Filter(Expr::Or((0..n / m + 2).map(|k| if r.pct(50) { term(r, k) } else { Expr::And((0..2 + r.below(m)).map(|j| term(r, k + j)).collect()) }).collect()))])
        }
        7 => child(vec![Sel::Name(text(r, chars))]),
        8 => child(vec![Sel::Filter(Expr::Cmp(Operand::Query(rel("a")), *r.pick(&[Op::Eq, Op::Ne, Op::Lt]), Operand::Lit(Lit::Str(text(r, chars)))))]),
        9 => {
            // many queries in many filters side by side, in one bracket
            child((0..n / 4 + 2).map(|k| Sel::Filter(term(r, k))).collect())
        }
        _ => {
            // levels
            let mut e = term(r, 3);
            for k in 0..4 + r.below(26) {
                let f = |e: Expr| Query { root: Root::Rel, segs: vec![Seg { desc: false, sels: vec![Sel::Filter(e)] }] };
                e = match r.below(5) {
                    0 => Expr::Test(f(e)),
                    1 => Expr::Not(Box::new(e)),
                    2 => Expr::And(vec![e, term(r, k)]),
                    3 => Expr::Or(vec![term(r, k), e]),
                    _ => Expr::Cmp(Operand::Call(Call { name: "count".into(), args: vec![Arg::Query(f(e))] }), Op::Ge, Operand::Lit(Lit::Num(Num::of_i(1)))),
                };
            }
            child(vec![Sel::Filter(e)])
        }
    };
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    if r.pct(15) {
        // blanks, between any two tokens that take some
        let blanks: String = (0..chars).map(|_| *r.pick(&[' ', ' ', '\t', '\n', '\r'])).collect();
        let at: Vec<usize> = t.match_indices(['[', ',', '?', ']']).map(|x| x.0 + usize::from(!x.1.starts_with(']'))).collect();
        for _ in 0..8 * at.len().min(1) {
            let k = *r.pick(&at);
            let u = format!("{}{blanks}{}", &t[..k], &t[k..]);
            if want_std(&u) == Want::Accept {
                return u;
            }
        }
    }
    t
}
/// terms that are judged by more than the grammar, good and bad ones
const JUDGED: &[&str] = &[
    "length(@.b)", "count(@.*)", "match(@.a,'x')", "nope(@.a)", "@.*==1", "1==@['a','b']", "count(@.*)>1", "value(@..a)==1", "match(@.a,'x')==true", "@[9007199254740992]", "@[-9007199254740991]", "!length(@)", "(length(@))", "count(1)>0",
    "search(@.a)", "@[01]", "!@.a", "!(@.a==1)", "@.a=='\\u00e9'", "@.a=='\\ud834'", "@==-0", "@==00", "$.a[?value(@)]", "length(count(@.*))==1", "length(@.*)==1", "$..a<2", "!1", "@.a", "(@.a)==1", "count(@.a==1)>0", "true", "@.a==true", "@[1:9007199254740992]",
    "@[::-9007199254740992]", "length(@.a)==length(@.b)", "match(@.a,@.b,@.c)", "value(@.a)", "count((@.a))>0", "@.a===1", "@[-0]", "search(@.a,'[')",
];
/// a query that has very much of one thing, with a term somewhere, often at its end, that is judged by more than the grammar
fn long_judged(r: &mut Rng) -> String {
    let t = gen_long(r);
    let j = *r.pick(JUDGED);
    let (sep, new) = match r.below(3) {
        0 => ("&&", format!("&&{j}&&")),
        1 => ("||", format!("||{j}||")),
        _ => (",", format!(",?{j},")),
    };
    let at: Vec<usize> = t.match_indices(sep).map(|x| x.0).collect();
    match at.len() {
        0 if r.pct(50) => format!("{t}[?{j}]"),
        0 => t.replacen("[?", &format!("[?{j}&&"), 1),
        n => {
            let k = at[if r.pct(40) { n - 1 - r.below(n.min(3)) } else { r.below(n) }];
            format!("{}{new}{}", &t[..k], &t[k + sep.len()..])
        }
    }
}
fn long_edited(r: &mut Rng) -> String {
    match r.below(3) {
        0 => gen_long(r),
        1 => {
            let t = gen_long(r);
            gen::mutate(r, &t)
        }
        _ => long_judged(r),
    }
}
/// a judged term in a long query; calls of many arguments, nested deeply, with one argument that is out of place
fn c10_long(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    if r.pct(60) {
        let t = long_judged(r);
        cx.max("characters in one query", t.chars().count() as u64);
        return typed(cx, &std_sigs(), &t, "long");
    }
    let mut s = std_sigs();
    for (n, t) in [("v", Ty::Value), ("l", Ty::Logical), ("n", Ty::Nodes)] {
        s.insert(format!("f{n}"), (vec![t], t));
        s.insert(format!("g{n}"), (vec![Ty::Value, t, t], t));
    }
    let n = *r.pick(&["v", "l", "n"]);
    let depth = 1 + r.below(28);
    let right = match n {
        "v" => "@.a",
        "l" => "@.a==1",
        _ => "@.*",
    };
    let any = |r: &mut Rng| *r.pick(&["@.a", "@.*", "1", "'a'", "@.a==1", "!@.a", "(@.a)", "length(@.a)", "count(@.*)", "match(@.a,'b')", "$"]);
    let mut t = if r.pct(40) { any(r).to_string() } else { right.to_string() };
    let bad = if r.pct(50) { r.below(depth * 2) } else { usize::MAX };
    for k in 0..depth {
        let m = if k == bad { *r.pick(&["v", "l", "n"]) } else { n };
        t = if r.pct(60) {
            format!("f{m}({t})")
        } else {
            let side = if k == bad { any(r) } else { right };
            if r.pct(50) { format!("g{m}(1,{t},{side})") } else { format!("g{m}('a',{side},{t})") }
        };
    }
    let t = match n {
        "v" if r.pct(80) => format!("$[?{t}==1]"),
        _ => format!("$[?{t}]"),
    };
    cx.max("levels of calls", depth as u64);
    typed(cx, &s, &t, "nested")
}
fn c07_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i / sweep::FORMS, cx.tier == Tier::Quick, r);
    let Some(t) = sweep::query(i % sweep::FORMS, &cs, r) else { return Ok(()) };
    cx.count("characters tried", cs.len() as u64);
    accept(cx, &t, &FIVE, false)
}
fn c07_huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = long_edited(r);
    cx.max("characters in one query", t.chars().count() as u64);
    accept(cx, &t, &FIVE, false)
}
fn c08_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i / sweep::FORMS, cx.tier == Tier::Quick, r);
    let Some(t) = sweep::query(i % sweep::FORMS, &cs, r) else { return Ok(()) };
    cx.count("characters tried", cs.len() as u64);
    accept(cx, &t, &HAND, false)
}
fn c08_huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = long_edited(r);
    cx.max("characters in one query", t.chars().count() as u64);
    accept(cx, &t, &HAND, false)
}
fn c09_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i / sweep::FORMS, cx.tier == Tier::Quick, r);
    let Some(t) = sweep::query(i % sweep::FORMS, &cs, r) else { return Ok(()) };
    cx.count("characters tried", cs.len() as u64);
    meaning(cx, &t, &adapt::ALL)
}
fn c09_huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_long(r);
    cx.max("characters in one query", t.chars().count() as u64);
    meaning(cx, &t, &adapt::ALL)
}
fn c12_every(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    let cs = sweep::block(i / sweep::FORMS, cx.tier == Tier::Quick, r);
    let Some(t) = sweep::query(i % sweep::FORMS, &cs, r) else { return Ok(()) };
    cx.count("characters tried", cs.len() as u64);
    printing(cx, &t)
}
fn c12_huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_long(r);
    cx.max("characters in one query", t.chars().count() as u64);
    printing(cx, &t)
}
fn c11_huge(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_long(r);
    let t = if r.pct(30) { long_judged(r) } else if r.pct(40) { format!("{t}{}", r.pick(&["[?count(1)>0]", "[?nope(@)]", "[9007199254740992]", "[?length(@.*)==1]", "[?@.*==1]", "[?length(@)]"])) } else { gen::mutate(r, &t) };
    cx.max("characters in one query", t.chars().count() as u64);
    let s = std_sigs();
    errors(cx, &s, &t, "standard")
}
pub fn gen_edited(r: &mut Rng) -> String {
    let c = Cfg { filters: 50, max_segs: 3, max_sels: 2, max_depth: 2, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let mut t = gen::print(&q, r, st);
    for _ in 0..1 + r.below(3) {
        t = gen::mutate(r, &t);
    }
    t
}
pub fn gen_corpus(r: &mut Rng) -> String {
    let mut t = r.pick(corpus()).clone();
    for _ in 0..r.below(3) {
        t = gen::mutate(r, &t);
    }
    t
}

const TEMPLATES: &[&str] = &[
    "$.a['b'][1]",
    "$..[1:2:3,*]",
    "$[?@.a == 'b']",
    "$[?!(@.a && $[0]) || @]",
    "$[?count(@.*) > 1.5e2, -1]",
    "$[?match(@.a, \"x\\u0041\")]",
    "$[ 'a\\n' , 0 : ]",
    "$..a.*",
    "$[?length(value($..a))!=null]",
    "$[?@[?@<=-0.1]&&true!=false]",
];
fn grid_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u32..128).filter_map(char::from_u32).collect();
    v.extend(['\u{80}', '\u{85}', '\u{a0}', 'é', '\u{d7ff}', '\u{e000}', '\u{2028}', '\u{feff}', '\u{ffff}', '𝄞', '\u{10ffff}', '０']);
    v
}
fn grid_size() -> u64 {
    TEMPLATES.iter().map(|t| (t.chars().count() as u64 + 1) * 2).sum::<u64>() * grid_chars().len() as u64
}
fn grid(i: u64) -> String {
    let ch = grid_chars();
    let mut k = i / ch.len() as u64;
    let c = ch[(i % ch.len() as u64) as usize];
    for t in TEMPLATES {
        let v: Vec<char> = t.chars().collect();
        let n = (v.len() as u64 + 1) * 2;
        if k < n {
            let (pos, ins) = ((k / 2) as usize, k % 2 == 0);
            let mut o: String = v[..pos].iter().collect();
            o.push(c);
            o.extend(&v[(if ins { pos } else { (pos + 1).min(v.len()) })..]);
            return o;
        }
        k -= n;
    }
    unreachable!()
}
fn pairs_size() -> u64 {
    let n = gen::TOKENS.len() as u64;
    n * n * 3
}
fn pair(i: u64) -> String {
    let n = gen::TOKENS.len() as u64;
    let (a, b) = (gen::TOKENS[(i % n) as usize], gen::TOKENS[(i / n % n) as usize]);
    match i / n / n {
        0 => format!("${a}{b}"),
        1 => format!("$[{a}{b}]"),
        _ => format!("$[?{a}{b}]"),
    }
}
pub fn number_text(r: &mut Rng) -> String {
    if r.pct(60) {
        // grammatical or nearly so
        let mut s = String::new();
        if r.pct(35) {
            s.push('-');
        }
        match r.below(7) {
            0 => s.push('0'),
            1 => s.push_str(r.pick(&["9007199254740991", "9007199254740992", "9007199254740990", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1152921504606846976", "4611686018427387903", "9007199254740994", "99999999999999999999"])),
            _ => {
                s.push((b'1' + r.below(9) as u8) as char);
                let m = if r.pct(2) { 400 } else if r.pct(15) { 22 } else { 4 };
                for _ in 0..r.below(m) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
        }
        if r.pct(35) {
            s.push('.');
            for _ in 0..1 + r.below(6) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
        }
        if r.pct(35) {
            s.push(*r.pick(&['e', 'E']));
            s.push_str(r.pick(&["", "+", "-"]));
            let m = if r.pct(20) { 4 } else { 2 };
            for _ in 0..1 + r.below(m) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
        }
        if r.pct(15) {
            s = gen::mutate(r, &s);
        }
        s
    } else {
        (0..1 + r.below(7)).map(|_| *r.pick(&['0', '1', '0', '9', '-', '+', '.', 'e', 'E', '5', ' '])).collect()
    }
}
pub fn number_query(r: &mut Rng) -> String {
    let n = number_text(r);
    match r.below(8) {
        0 => format!("$[{n}]"),
        1 => format!("$[{n}:{}]", number_text(r)),
        2 => format!("$[:{n}:{}]", number_text(r)),
        3 => format!("$[?@.a=={n}]"),
        4 => format!("$[?{n}<@[{}]]", r.range(-9, 9)),
        5 => format!("$[?length({n})=={}]", number_text(r)),
        6 => format!("$[?match({n},'a')]"),
        _ => format!("$[?@[{n}]>={}||@]", number_text(r)),
    }
}
pub fn string_body(r: &mut Rng, quote: char) -> String {
    let mut s = String::new();
    for _ in 0..r.below(7) {
        match r.below(12) {
            0 | 1 => s.push_str(r.pick(&["\\n", "\\t", "\\r", "\\b", "\\f", "\\/", "\\\\", "\\\\", "\\'", "\\\"", "\\a", "\\0", "\\ ", "\\U0041", "\\x41"])),
            2 => s.push_str(&format!("\\u{:04x}", r.below(0x10000))),
            3 => s.push_str(&format!("\\u{:04X}", 0xd7f0 + r.below(0x820))),
            4 => s.push_str(&format!("\\u{:04x}\\u{:04X}", 0xd800 + r.below(0x400), 0xdc00 + r.below(0x400))),
            5 => s.push_str(&format!("\\u{:04x}\\u{:04x}", 0xd7f0 + r.below(0x820), 0xd7f0 + r.below(0x820))),
            6 => s.push_str(r.pick(&["\\u", "\\u1", "\\u12", "\\u123", "\\u+123", "\\u 123", "\\u00g0", "\\uD83D\\n", "\\uD83D\\", "\\uD83Dx", "\\uD83D\\u", "\\uD83D\\u0041", "\\uDE00\\uD83D", "\\u0041\\u0042", "\\ud83d\\ude0", "\\uD83D\\uDE00\\uD83D"])),
            7 => s.push(gen::rand_char(r)),
            8 => s.push_str(r.pick(&["\u{0}", "\u{1f}", "\n", "\t", "\u{7f}", "\u{80}", "'", "\"", "/", "é", "𝄞", "\u{10ffff}", "\u{ffff}"])),
            _ => s.push(*r.pick(&['a', 'b', 'u', '0', 'D', ' ', ']', '$', '@'])),
        }
    }
    if r.pct(80) {
        // keep it closed where possible: escape bare quotes
        let mut o = String::new();
        let mut esc = false;
        for c in s.chars() {
            if c == quote && !esc {
                o.push('\\');
            }
            esc = c == '\\' && !esc;
            o.push(c);
        }
        if esc {
            o.push('\\');
        }
        s = o;
    }
    s
}
pub fn string_query(r: &mut Rng) -> String {
    let q = *r.pick(&['\'', '"']);
    let s = format!("{q}{}{q}", string_body(r, q));
    match r.below(6) {
        0 => format!("$[{s}]"),
        1 => format!("$..[{s},1]"),
        2 => format!("$[?@=={s}]"),
        3 => format!("$[?@[{s}]]"),
        4 => format!("$[?match(@,{s})]"),
        _ => format!("$[?@[{s}]!=$[{s}]]"),
    }
}

fn c07_valid(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_valid(r).1;
    accept(cx, &t, &FIVE, false)
}
fn c07_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &gen_edited(r), &FIVE, false)
}
fn c07_corpus(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &gen_corpus(r), &FIVE, false)
}
fn c07_soup(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &gen::soup(r), &FIVE, false)
}
fn c07_pairs(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    accept(cx, &pair(i), &FIVE, false)
}
fn c07_grid(cx: &mut Cx, i: u64, r: &mut Rng) -> Res {
    // quick tier: a quarter of the grid, chosen by the seed
    let i = if cx.tier == Tier::Quick { i * 4 + r.below(4) as u64 } else { i };
    accept(cx, &grid(i.min(grid_size() - 1)), &FIVE, false)
}
fn c07_numbers(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &number_query(r), &FIVE, false)
}
fn c07_strings(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &string_query(r), &FIVE, false)
}
const HAND: [Cr; 1] = [Cr::Hand];
fn c08_valid(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_valid(r).1;
    accept(cx, &t, &HAND, false)
}
fn c08_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &gen_edited(r), &HAND, false)
}
fn c08_corpus(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &gen_corpus(r), &HAND, false)
}
fn c08_soup(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &gen::soup(r), &HAND, false)
}
fn c08_pairs(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    accept(cx, &pair(i), &HAND, false)
}
fn c08_grid(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    accept(cx, &grid(i), &HAND, false)
}
fn c08_numbers(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &number_query(r), &HAND, false)
}
fn c08_strings(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    accept(cx, &string_query(r), &HAND, false)
}
/// which \u0000-\u001f escapes are rejected, in each kind of string
fn c08_control(cx: &mut Cx, _i: u64, _r: &mut Rng) -> Res {
    let mut rejected = vec![];
    let mut n = 0;
    for (k, (a, b)) in [("$['", "']"), ("$[\"", "\"]"), ("$[?@=='", "']"), ("$[?@==\"", "\"]")].iter().enumerate() {
        for cp in 0..0x20u32 {
            for u in [format!("{cp:04x}"), format!("{cp:04X}")] {
                n += 1;
                let t = format!("{a}\\u{u}{b}");
                cx.case(&t, true);
                if !matches!(parse_std(Cr::Hand, &t), Ok(Ok(_))) {
                    rejected.push((k, u));
                }
            }
        }
    }
    if rejected.is_empty() {
        Ok(())
    } else if rejected.len() == n {
        viol("jsonpath_rfc9535: rejects every \\u0000-\\u001f escape", json!({"rejected": n}))
    } else {
        viol(format!("jsonpath_rfc9535: rejects {} of {n} \\u0000-\\u001f escapes", rejected.len()), json!({"rejected": format!("{rejected:?}")}))
    }
}

// ------------------------------------------------------------------ meaning

/// the model of what the crate parsed; None: private tree in a form not understood
pub fn model_of(p: &adapt::Parsed, c: Cr, sigs: &Sigs, cx: &mut Cx) -> Option<Query> {
    match sut(|| p.model()) {
        Ok(Ok(q)) => Some(adapt::canon(&q)),
        _ => {
            cx.count("read from the printed form", 1);
            let d = sut(|| p.display()).ok()?;
            parse(&d, sigs, c == Cr::Sing).ok().map(|p| adapt::canon(&p.query))
        }
    }
}
fn meaning(cx: &mut Cx, t: &str, crates: &[Cr]) -> Res {
    let Ok(p) = ref_std(t, false) else { return Ok(()) };
    if !p.sem.is_empty() || p.lenient {
        return Ok(());
    }
    let wantq = adapt::canon(&p.query);
    cx.case(t, !wantq.segs.is_empty());
    cx.sample(|| json!(t));
    for c in crates {
        let got = match parse_std(*c, t) {
            Ok(Ok(p)) => p,
            _ => {
                // acceptance is C07's and C08's business
                cx.count("not accepted", 1);
                continue;
            }
        };
        cx.count("trees compared", 1);
        let m = SIGS.with(|s| model_of(&got, *c, s, cx));
        let Some(m) = m else {
            cx.count("trees not understood", 1);
            continue;
        };
        if m != wantq {
            let s = shrink_text(t, |s| differs(*c, s));
            let (a, b) = (ref_std(&s, false).map(|p| adapt::canon(&p.query)), parse_std(*c, &s).ok().and_then(|x| x.ok()).and_then(|p| p.model().ok()));
            return viol(
                format!("{}: another meaning: {}", c.name(), clip(&s, 200)),
                json!({"crate": c.name(), "query": t, "smaller": s, "text means": format!("{a:?}"), "crate parsed": format!("{b:?}")}),
            );
        }
    }
    Ok(())
}
fn differs(c: Cr, s: &str) -> bool {
    let Ok(p) = ref_std(s, false) else { return false };
    if !p.sem.is_empty() || p.lenient {
        return false;
    }
    match parse_std(c, s) {
        Ok(Ok(g)) => match sut(|| g.model()) {
            Ok(Ok(m)) => adapt::canon(&m) != adapt::canon(&p.query),
            _ => match sut(|| g.display()) {
                Ok(d) => matches!(ref_std(&d, c == Cr::Sing), Ok(x) if adapt::canon(&x.query) != adapt::canon(&p.query)),
                _ => false,
            },
        },
        _ => false,
    }
}
fn c09_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen_valid(r).1;
    meaning(cx, &t, &adapt::ALL)
}
fn c09_filters(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 90, max_segs: 2, max_sels: 2, max_depth: 3, calls: 25, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    meaning(cx, &t, &adapt::ALL)
}
/// long chains of && || ! and parentheses over distinguishable operands
fn c09_prec(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    fn e(r: &mut Rng, k: &mut u32, depth: u32) -> String {
        let mut s = String::new();
        for j in 0..1 + r.below(5) {
            if j > 0 {
                s.push_str(r.pick(&["&&", "||", " && ", " || "]));
            }
            *k += 1;
            match r.below(7) {
                0 if depth < 4 => {
                    s.push('(');
                    s.push_str(&e(r, k, depth + 1));
                    s.push(')');
                }
                1 if depth < 4 => {
                    s.push_str("!(");
                    s.push_str(&e(r, k, depth + 1));
                    s.push(')');
                }
                2 => s.push_str(&format!("!@.x{k}")),
                3 => s.push_str(&format!("@.x{k}{}{k}", r.pick(&["==", "!=", "<", "<=", ">", ">="]))),
                4 => s.push_str(&format!("{k}{}$.x{k}", r.pick(&["==", "!=", "<", "<=", ">", ">="]))),
                5 => s.push_str(&format!("match(@.x{k},'{k}')")),
                _ => s.push_str(&format!("@.x{k}")),
            }
        }
        s
    }
    let t = format!("$[?{}]", e(r, &mut 0, 0));
    if want_std(&t) != Want::Accept {
        return viol("generator", json!(t));
    }
    meaning(cx, &t, &adapt::ALL)
}
fn c09_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    for _ in 0..4 {
        let t = gen_edited(r);
        if want_std(&t) == Want::Accept {
            return meaning(cx, &t, &adapt::ALL);
        }
    }
    Ok(())
}
fn c09_corpus(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    meaning(cx, &gen_corpus(r), &adapt::ALL)
}
fn c09_numbers(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    meaning(cx, &number_query(r), &adapt::ALL)
}
fn c09_strings(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    meaning(cx, &string_query(r), &adapt::ALL)
}

// ------------------------------------------------------------------ typing

const TYS: [Ty; 3] = [Ty::Value, Ty::Logical, Ty::Nodes];
const ARGS: &[&str] = &[
    "1", "-1.5", "'s'", "null", "true", "@", "$", "@.a", "$.a[0]", "@.*", "$..a", "@[0,1]", "@['a']['b']", "@[1:2]", "@[?@.a]", "@.a==1", "!@.a", "@.a&&@.b",
    "(@.a)", "(@.a==1)", "!(@.a||@.b)", "1==1", "@.*&&@.a", "v()", "l()", "n()", "!l()", "!n()", "!v()", "v()==1", "(l())", "(v())", "(1)", "n()&&l()", "nosuch()", "",
    "l()==1", "@.*==1", "v()==v()", "l()||@", "(n())", "!(l())", "('s')",
];
const POSITIONS: &[&str] = &[
    "$[?#]", "$[?!#]", "$[?#==1]", "$[?1==#]", "$[?#!=@.a]", "$[?(#)]", "$[?#&&@.a]", "$[?@.a||#]", "$[?!(#)]", "$[?(#)==1]", "$[?#<#]", "$[?@[?#]]", "$[?!#&&#]", "$[?#>=null||!@]", "$..[?#,1]",
    "$[?count(@[?#])==1]",
];
fn one_arg_size() -> u64 {
    (3 * 3 * ARGS.len() * POSITIONS.len()) as u64
}
fn nullary(s: &mut Sigs) {
    s.insert("v".into(), (vec![], Ty::Value));
    s.insert("l".into(), (vec![], Ty::Logical));
    s.insert("n".into(), (vec![], Ty::Nodes));
}
fn one_arg(i: u64) -> (Sigs, String) {
    let i = i as usize;
    let (p, i) = (TYS[i % 3], i / 3);
    let (rt, i) = (TYS[i % 3], i / 3);
    let (a, pos) = (ARGS[i % ARGS.len()], POSITIONS[i / ARGS.len()]);
    let mut s = std_sigs();
    nullary(&mut s);
    s.insert("f".into(), (vec![p], rt));
    (s, pos.replace('#', &format!("f({a})")))
}
fn typed(cx: &mut Cx, sigs: &Sigs, t: &str, key: &str) -> Res {
    let w = want(t, sigs, false);
    if w == Want::Skip {
        return Ok(());
    }
    cx.case((t, key), t.contains('('));
    cx.count(if w == Want::Accept { "well-typed strings" } else { "ill-typed or malformed strings" }, 1);
    if w == Want::Accept {
        cx.sample(|| json!({"query": t, "functions": key}));
    }
    let mut names: Vec<&String> = sigs.keys().collect();
    names.sort();
    let ctrl = without_control_escapes(t) != t;
    for c in adapt::ALL {
        if c == Cr::Hand && ctrl {
            continue;
        }
        let w = if c == Cr::Sing { want(t, sigs, true) } else { w };
        let got = sut(|| {
            let mut p = adapt::parser_by(c, t.len());
            for n in &names {
                if !matches!(n.as_str(), "length" | "count" | "value" | "match" | "search") || sigs[*n] != std_sigs()[*n] {
                    p.add(n, &sigs[*n]);
                }
            }
            p.parse(t)
        });
        cx.count("verdicts compared", 1);
        let bad = match (&got, w) {
            (Err(p), _) => Some(("panic", p.clone())),
            (Ok(Ok(_)), Want::Reject) => Some(("accepted", "accepted".to_string())),
            (Ok(Err(e)), Want::Accept) => Some(("rejected", e.display.clone())),
            _ => None,
        };
        if let Some((what, d)) = bad {
            return viol(format!("{}: {what}: {t} with {key}", c.name()), json!({"crate": c.name(), "query": t, "functions": key, "checker": format!("{w:?}"), "outcome": d}));
        }
    }
    Ok(())
}
fn c10_one(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (s, t) = one_arg(i);
    let key = format!("f{:?}", s["f"]);
    typed(cx, &s, &t, &key)
}
fn c10_count(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let i = i as usize;
    let (np, na, rt) = (i % 11, i / 11 % 13, TYS[i / 143]);
    let mut s = std_sigs();
    s.insert("f".into(), (vec![Ty::Value; np], rt));
    let args = |n: usize| vec!["@.a"; n].join(",");
    let a = if na == 12 { format!("{},", args(np)) } else { args(na) };
    let t = if rt == Ty::Value { format!("$[?f({a})==1]") } else { format!("$[?f({a})]") };
    typed(cx, &s, &t, &format!("f with {np} parameters returning {rt:?}"))
}
/// long parameter lists: all arguments fit, or one of them (anywhere) does not, or there is one too many or too few
fn c10_many(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let np = if r.pct(70) { 4 + r.below(14) } else { 18 + r.below(60) };
    let mut s = std_sigs();
    nullary(&mut s);
    let one = if r.pct(30) { Some(*r.pick(&TYS)) } else { None };
    let params: Vec<Ty> = (0..np).map(|_| one.unwrap_or(*r.pick(&TYS))).collect();
    let fit = |r: &mut Rng, t: Ty| match t {
        Ty::Value => *r.pick(&["1", "'a'", "@.a", "$['b'][0]", "v()", "null", "length(@)", "@", "count(@.*)"]),
        Ty::Logical => *r.pick(&["@.a", "@.*", "@.a==1", "!@", "l()", "n()", "(@)", "@.a&&@.b", "match(@,'a')"]),
        Ty::Nodes => *r.pick(&["@.*", "$..a", "@", "n()", "@[1:2]"]),
    };
    let mut args: Vec<&str> = params.iter().map(|t| fit(r, *t)).collect();
    let at = if r.pct(30) { np - 1 } else { r.below(np) };
    match r.below(8) {
        0 => {}
        1 => drop(args.pop()),
        2 => args.push("@.a"),
        3 => drop(args.remove(at)),
        4 => args.insert(at, fit(r, params[at])),
        _ => args[at] = *r.pick(ARGS),
    }
    s.insert("f".into(), (params, *r.pick(&TYS)));
    let key = format!("f{:?}", s["f"]);
    let call = format!("f({})", args.join(*r.pick(&[",", ", "])));
    let at = if s["f"].1 == Ty::Value { *r.pick(&["$[?#==1]", "$..[?1<#]", "$[?@.a&&length(#)!=1]"]) } else { *r.pick(&["$[?#]", "$[?!#||@.a]", "$[?@[?#]]"]) };
    cx.max("parameters of a function", np as u64);
    typed(cx, &s, &at.replace('#', &call), &key)
}
fn c10_nested(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let i = i as usize;
    let (op, or, ip, ir) = (TYS[i % 3], TYS[i / 3 % 3], TYS[i / 9 % 3], TYS[i / 27 % 3]);
    let arg = ["@", "@.*", "1", "@.a==1", "!@", "(@)", "g(@)", "f(@)", "g(@.*)", "v()", "!g(@)", "'a'"][i / 81];
    let mut s = std_sigs();
    nullary(&mut s);
    s.insert("f".into(), (vec![op, Ty::Value], or));
    s.insert("g".into(), (vec![ip], ir));
    let call = format!("f(g({arg}), 1)");
    let t = if or == Ty::Value { format!("$[?{call}==1]") } else { format!("$[?{call}]") };
    typed(cx, &s, &t, &format!("f{:?} g{:?}", s["f"], s["g"]))
}
const NAMES: &[&str] = &[
    "a", "f", "z", "a1", "a_", "a_b", "ab1_2", "true_x", "true1", "nullable", "null_", "falsey", "counts", "count1", "length_", "matcher", "match_1", "value2", "searching", "t", "n", "e", "e1", "x9",
    "true", "false", "null", "ltrue", "tru", "a__b", "a0000", "valuef", "is_true", "not", "and", "or", "in", "lengthlength", "countmatch",
];
fn c10_names(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let n = NAMES[i as usize / 4];
    let mut s = std_sigs();
    let (sig, t) = match i % 4 {
        0 => ((vec![Ty::Value], Ty::Logical), format!("$[?{n}(@.a)]")),
        1 => ((vec![Ty::Nodes], Ty::Value), format!("$[?1=={n}(@..a)||!@]")),
        2 => ((vec![Ty::Logical], Ty::Nodes), format!("$[?count({n}(@.a&&@.b))>0]")),
        _ => ((vec![], Ty::Logical), format!("$[?!{n}( ) && {n}()]")),
    };
    s.insert(n.to_string(), sig);
    let key = format!("{n}{:?}", s[n]);
    typed(cx, &s, &t, &key)
}
/// every ASCII character and some others at each position of a function name
const NAME_CHARS: u64 = 128 + 8;
const NAME_FORMS: u64 = 6;
fn c10_chars(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (k, form) = (i / NAME_FORMS, i % NAME_FORMS);
    let c = if k < 128 { k as u8 as char } else { ['é', 'ª', '²', '٣', 'ａ', '\u{2028}', '𝒶', '\u{feff}'][k as usize - 128] };
    let n = match form {
        0 => format!("{c}"),
        1 => format!("{c}q"),
        2 => format!("q{c}"),
        3 => format!("q{c}q"),
        4 => format!("q1{c}"),
        _ => format!("q_{c}9"),
    };
    let mut s = std_sigs();
    s.insert(n.clone(), (vec![Ty::Value], Ty::Logical));
    typed(cx, &s, &format!("$[?{n}(@.a)]"), &n)?;
    typed(cx, &s, &format!("$[?@.b&&!{n}(1)]"), &n)
}
/// an operand in every place of a small logical expression, in a filter and in an argument
const SHAPES: &[&str] = &[
    "X", "X&&Y", "Y&&X", "X||Y", "Y||X", "X&&Y&&Y", "Y&&X&&Y", "Y&&Y&&X", "X||Y||Y", "Y||X||Y", "Y||Y||X", "X&&Y||Y", "Y&&X||Y", "Y&&Y||X", "X||Y&&Y", "Y||X&&Y", "Y||Y&&X", "(X)", "(X)&&Y",
    "Y&&(X)", "(X)||Y", "!X", "!X&&Y", "Y||!X", "!(X)", "!(X)&&Y", "((X))", "(X&&Y)", "(Y||X)", "(Y||X)&&Y", "!(X&&Y)", "!(Y||X)", "X&&X", "X||X", "X==1&&Y", "Y||1==X", "X==X", "Y&&X!=X", "(X==1)", "!(1<X)",
    "(X)==1", "X==1==1", "X==1&&X", "X&&1==X", "X&&Y&&Y&&Y", "Y||Y||Y||X", "!X==1", "1==!X", "!!X", "(X)(Y)", "X Y",
];
const SHAPE_X: &[&str] = &[
    "v()", "l()", "n()", "v(1)", "@", "@.a", "@.*", "@..a", "$", "1", "'s'", "true", "null", "length(@.a)", "count(@.*)", "value(@.*)", "match(@.a,'b')", "p(v())", "p(l())", "p(n())", "p(@.a&&v())", "p(v()||@.a)",
    "p(1)", "p(@.a==1)",
];
const SHAPE_AT: &[&str] = &["$[?#]", "$[?p(#)]", "$[?@[?#]]", "$[?p(p(#))]", "$..[?!p(#)||@.c]", "$[?h(1,#,@.*)==1]"];
fn shapes_size() -> u64 {
    (SHAPES.len() * SHAPE_X.len() * SHAPE_AT.len()) as u64
}
fn c10_shapes(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let i = i as usize;
    let (sh, i) = (SHAPES[i % SHAPES.len()], i / SHAPES.len());
    let (x, at) = (SHAPE_X[i % SHAPE_X.len()], SHAPE_AT[i / SHAPE_X.len()]);
    let mut s = std_sigs();
    nullary(&mut s);
    s.insert("p".into(), (vec![Ty::Logical], Ty::Logical));
    s.insert("h".into(), (vec![Ty::Value, Ty::Logical, Ty::Nodes], Ty::Value));
    for y in ["@.b", "l()"] {
        let t = at.replace('#', &sh.replace('Y', y).replace('X', x));
        typed(cx, &s, &t, "v: Value, l: Logical, n: Nodes, p(Logical): Logical, h(Value, Logical, Nodes): Value")?;
    }
    Ok(())
}
fn c10_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut s = std_sigs();
    let mut key = vec![];
    for k in 0..1 + r.below(3) {
        let n = if r.pct(15) { r.pick(&["count", "length", "match", "value", "search"]).to_string() } else { format!("{}{k}", r.pick(NAMES)) };
        let sig: Sig = ((0..r.below(4)).map(|_| *r.pick(&TYS)).collect(), *r.pick(&TYS));
        key.push(format!("{n}{sig:?}"));
        s.insert(n, sig);
    }
    let mut sigs: Vec<(String, Sig)> = s.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    sigs.sort_by(|a, b| a.0.cmp(&b.0));
    let c = Cfg { sigs, filters: 90, calls: 80, max_segs: 1, max_sels: 1, max_depth: 2, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let mut t = gen::print(&q, r, st);
    if r.pct(60) {
        // swap types around: replace one call name or argument by another
        t = gen::mutate(r, &t);
    } else if r.pct(50) {
        let (a, b) = (r.pick(&c.sigs).0.clone(), r.pick(&c.sigs).0.clone());
        t = t.replacen(&format!("{a}("), &format!("{b}("), 1);
    }
    typed(cx, &s, &t, &key.join(" "))
}
fn c10_standard(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    const F: &[&str] = &["length", "count", "value", "match", "search"];
    const A: &[&str] = &["@", "@.a", "@.*", "$..a", "1", "'a'", "null", "true", "@.a==1", "!@", "(@)", "length(@)", "count(@.*)", "value(@..a)", "match(@,'a')", "(@.a&&@.b)", "@[0,1]", "$", "search('a','b')"];
    let call = |r: &mut Rng| {
        let args: Vec<&str> = (0..match r.below(10) {
            0 => 0,
            1 => 3,
            2..=5 => 1,
            _ => 2,
        })
            .map(|_| *r.pick(A))
            .collect();
        format!("{}({})", r.pick(F), args.join(","))
    };
    let mut t = r.pick(POSITIONS).to_string();
    while t.contains('#') {
        let k = call(r);
        t = t.replacen('#', &k, 1);
    }
    typed(cx, &std_sigs(), &t, "standard")
}

// ------------------------------------------------------------------ errors

/// may something in this text be read as a call of a function that is not known?
fn unknown_name(t: &str, sigs: &Sigs) -> bool {
    let b = t.as_bytes();
    (0..b.len()).any(|i| {
        if b[i] != b'(' {
            return false;
        }
        let e = t[..i].trim_end().len();
        let st = (0..e).rev().take_while(|j| b[*j].is_ascii_alphanumeric() || b[*j] == b'_' || b[*j] >= 0x80).last().unwrap_or(e);
        let n = t[st..e].trim_start_matches(|c: char| c.is_ascii_digit());
        !n.is_empty() && !sigs.contains_key(n)
    })
}
fn errors(cx: &mut Cx, sigs: &Sigs, t: &str, key: &str) -> Res {
    let rp = parse(t, sigs, false);
    let (allowed, what): (Vec<EK>, &str) = match &rp {
        Ok(p) if p.lenient || p.sem.is_empty() => return Ok(()),
        Ok(p) => {
            let mut s = p.sem.clone();
            s.sort();
            s.dedup();
            let mut a = vec![];
            for x in &s {
                match x {
                    Sem::Name => a.push(EK::Name),
                    Sem::Type => a.push(EK::Type),
                    // not derivable from the grammar either
                    Sem::NonSingular => a.extend([EK::Type, EK::Syntax]),
                    Sem::Range => a.extend([EK::Syntax, EK::Lexer]),
                }
            }
            (a, if s.len() == 1 { "one cause" } else { "several causes" })
        }
        // the text is malformed: a name or type error could still be met first only if there is a call or comparison
        Err(_) if !t.contains('(') && !t.contains(['=', '<', '>']) => (vec![EK::Syntax, EK::Lexer], "malformed"),
        // a name error is for an unknown function only
        Err(_) if !unknown_name(t, sigs) => (vec![EK::Syntax, EK::Lexer, EK::Type], "malformed, no unknown name"),
        Err(_) => (vec![EK::Syntax, EK::Lexer, EK::Type, EK::Name], "malformed with calls"),
    };
    let mut names: Vec<&String> = sigs.keys().collect();
    names.sort();
    let judged = what != "malformed with calls";
    cx.case((t, key), judged);
    if judged {
        cx.sample(|| json!({"query": t, "allowed": format!("{allowed:?}")}));
    }
    let ctrl = without_control_escapes(t) != t;
    for c in adapt::ALL {
        if c == Cr::Sing && matches!(parse(t, sigs, true), Ok(p) if p.sem.is_empty()) {
            continue;
        }
        if c == Cr::Hand && ctrl {
            // rejected for that escape (C08's known finding)
            continue;
        }
        let got = sut(|| {
            let mut p = adapt::parser_by(c, t.len());
            for n in &names {
                if !matches!(n.as_str(), "length" | "count" | "value" | "match" | "search") {
                    p.add(n, &sigs[*n]);
                }
            }
            p.parse(t).map(|_| ())
        });
        let e = match got {
            Ok(Err(e)) => e,
            // acceptance and panics are other properties' business
            _ => {
                cx.count("not rejected", 1);
                continue;
            }
        };
        cx.count(&format!("errors judged: {what}"), 1);
        let fail = |w: String| viol(format!("{}: {w}: {}", c.name(), clip(t, 200)), json!({"crate": c.name(), "query": t, "functions": key, "error": e.display, "kind": format!("{:?}", e.kind), "span": e.span}));
        let mut allowed = allowed.clone();
        if c == Cr::Sing {
            // the extended grammar may read a malformed standard query as an ill-typed extended one
            if let (Err(_), Ok(p)) = (&rp, parse(t, sigs, true)) {
                if !p.sem.is_empty() {
                    allowed.extend([EK::Type, EK::Name]);
                }
            }
        }
        if !allowed.contains(&e.kind) {
            return fail(format!("{:?} error ({what}, {allowed:?} allowed)", e.kind));
        }
        if e.msg.trim().is_empty() || e.display.trim().is_empty() {
            return fail("empty message".into());
        }
        if let Some((a, b)) = e.span {
            cx.count("spans checked", 1);
            if !(a <= b && b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b)) {
                return fail(format!("span {a}..{b} not inside the query ({} bytes)", t.len()));
            }
        }
    }
    Ok(())
}
fn c11_sem(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = match r.below(6) {
        // unknown function
        0 | 1 => {
            let t = gen_valid(r).1;
            let f = r.pick(&["length(", "count(", "value(", "match(", "search("]);
            if t.contains(f) {
                t.replacen(f, r.pick(&["nosuch(", "lengthy(", "coun(", "x1_("]), 1)
            } else {
                format!("{t}[?{}({})]", r.pick(&["nosuch", "f", "counts"]), r.pick(&["", "@", "1,2"]))
            }
        }
        // out of range integer
        2 => {
            let n = r.pick(&["9007199254740992", "-9007199254740992", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "18446744073709551615"]);
            let pre = gen_valid(r).1;
            format!("{pre}{}", r.pick(&["[#]", "[1,#]", "[#:]", "[:#]", "[::#]", "[?@[#]]", "[?@[#]==1]", "..[1:2:#]"]).replace('#', n))
        }
        // ill-typed
        3 => {
            let pre = gen_valid(r).1;
            format!("{pre}{}", r.pick(&["[?length(@.*)==1]", "[?count(1)==1]", "[?match(@.a)]", "[?length(@)]", "[?match(@,'a')==true]", "[?count(@,@)==1]", "[?@.*==1]", "[?1<@..a]", "[?value(1)==2]", "[?!count(@)]", "[?length(match(@,'a'))==1]", "[?count()>1]"]))
        }
        _ => {
            let q = r.pick(&["$[?#]", "$.é[?#]", "$['𝄞'][?#]", "$[?@.☺ && #]", "$[?#]['é']"]);
            q.replace('#', r.pick(&["nosuch(@)", "length(@)", "count(1)>1", "@.*==1", "@[9007199254740992]", "f1(@)==1", "match(@.a)", "length()", "length(@,@)==1"]))
        }
    };
    let s = std_sigs();
    errors(cx, &s, &t, "standard")
}
fn c11_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = if r.pct(30) { gen_corpus(r) } else if r.pct(30) { string_query(r) } else { gen_edited(r) };
    let s = std_sigs();
    errors(cx, &s, &t, "standard")
}
fn c11_soup(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let t = gen::soup(r);
    let s = std_sigs();
    errors(cx, &s, &t, "standard")
}
fn c11_typing(cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let (s, t) = one_arg(i);
    let key = format!("f{:?}", s["f"]);
    errors(cx, &s, &t, &key)
}

// ------------------------------------------------------------------ printing

/// (where the listed finding applies) without string literals in need of escapes
fn printable(q: &Query, c: Cr) -> bool {
    let bare = matches!(c, Cr::Hand | Cr::Pest | Cr::Rec);
    fn lit(l: &Lit, bare: bool) -> bool {
        match l {
            Lit::Str(s) => !bare || !s.chars().any(|c| c == '"' || c == '\'' || c == '\\' || (c as u32) < 0x20),
            _ => true,
        }
    }
    fn call(c: &Call, b: bool) -> bool {
        c.args.iter().all(|a| match a {
            Arg::Lit(l) => lit(l, b),
            Arg::Query(q) => query(q, b),
            Arg::Call(c) => call(c, b),
            Arg::Logic(e) => expr(e, b),
        })
    }
    fn opd(o: &Operand, b: bool) -> bool {
        match o {
            Operand::Lit(l) => lit(l, b),
            Operand::Query(q) => query(q, b),
            Operand::Call(c) => call(c, b),
        }
    }
    fn expr(e: &Expr, b: bool) -> bool {
        match e {
            Expr::Or(v) | Expr::And(v) => v.iter().all(|e| expr(e, b)),
            Expr::Not(e) => expr(e, b),
            Expr::Cmp(l, _, r) => opd(l, b) && opd(r, b),
            Expr::Test(q) => query(q, b),
            Expr::Call(c) => call(c, b),
        }
    }
    fn query(q: &Query, b: bool) -> bool {
        q.segs.iter().all(|s| {
            s.sels.iter().all(|s| match s {
                Sel::Filter(e) => expr(e, b),
                Sel::Sub(q) => query(q, b),
                _ => true,
            })
        })
    }
    query(q, bare)
}
/// a fractional negative zero prints as -0, which is the integer 0 when parsed again
fn negative_zero(q: &Query) -> bool {
    format!("{q:?}").contains("-0.0")
}
/// the same meaning after printing; a literal with a fraction or an exponent is a
/// double, and beyond 2^53 its shortest digits may stand for another integer
fn same_meaning(t: &str, x: &Query, y: &Query) -> bool {
    fn doubles(q: &Query) -> String {
        let d = format!("{q:?}").replace("f: -0.0", "f: 0.0");
        let mut parts = d.split("int: Some(");
        let mut out = parts.next().unwrap_or("").to_string();
        for p in parts {
            let (n, rest) = p.split_once(')').unwrap_or((p, ""));
            match n.parse::<i128>() {
                Ok(i) if i.unsigned_abs() > 1 << 53 => out.push_str("int: large"),
                _ => out.push_str(&format!("int: Some({n})")),
            }
            out.push_str(rest);
        }
        out
    }
    if x == y {
        return true;
    }
    let b = t.as_bytes();
    let fractional = b.windows(3).any(|w| w[0].is_ascii_digit() && matches!(w[1], b'.' | b'e' | b'E') && (w[2].is_ascii_digit() || matches!(w[2], b'+' | b'-')));
    fractional && doubles(x) == doubles(y)
}
/// None: fine or not judged
fn reprint(c: Cr, t: &str) -> Option<(&'static str, String)> {
    reprint_ext(c, t, false)
}
fn reprint_ext(c: Cr, t: &str, ext: bool) -> Option<(&'static str, String)> {
    let p = ref_std(t, ext).ok()?;
    if !p.sem.is_empty() || p.lenient || !printable(&p.query, c) {
        return None;
    }
    let wantq = adapt::canon(&p.query);
    let a = match parse_std(c, t) {
        Ok(Ok(a)) => a,
        _ => return None,
    };
    let d1 = match sut(|| a.display()) {
        Ok(d) => d,
        Err(e) => return Some(("printing panics", e)),
    };
    // it cannot read escapes of control characters; five of these have short forms, which it can
    let plain = d1.replace("\\\\", "").to_lowercase();
    let short = ["\\u0008", "\\u0009", "\\u000a", "\\u000c", "\\u000d"].iter().any(|e| plain.contains(e));
    let ctrl = c == Cr::Hand && !short && without_control_escapes(&d1) != d1;
    if !ctrl {
        let b = match parse_std(c, &d1) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return Some(("printed form rejected by the same crate", format!("{d1}: {}", e.display))),
            Err(e) => return Some(("parsing the printed form panics", format!("{d1}: {e}"))),
        };
        let d2 = sut(|| b.display()).unwrap_or_default();
        if d2 != d1 && !negative_zero(&p.query) {
            return Some(("prints differently the second time", format!("{d1} then {d2}")));
        }
        if let (Ok(Ok(x)), Ok(Ok(y))) = (sut(|| a.model()), sut(|| b.model())) {
            if !same_meaning(t, &adapt::canon(&x), &adapt::canon(&y)) {
                return Some(("another meaning after printing", d1));
            }
        }
    }
    match ref_std(&d1, ext) {
        Err(e) => Some(("printed form is not a query", format!("{d1}: {e:?}"))),
        Ok(x) if !x.sem.is_empty() => Some(("printed form is not valid", d1)),
        Ok(x) if !same_meaning(t, &adapt::canon(&x.query), &wantq) => Some(("printed form means something else", d1)),
        _ => None,
    }
}
fn printing(cx: &mut Cx, t: &str) -> Res {
    match ref_std(t, false) {
        Ok(p) if p.sem.is_empty() && !p.lenient && printable(&p.query, Cr::Serde) => cx.case(t, !p.query.segs.is_empty()),
        _ => return Ok(()),
    }
    cx.sample(|| json!(t));
    for c in adapt::ALL {
        cx.count("round trips", 1);
        if let Some((what, d)) = reprint(c, t) {
            let s = shrink_text(t, |s| reprint(c, s).is_some_and(|x| x.0 == what));
            let small = reprint(c, &s).map(|x| x.1);
            return viol(format!("{}: {what}: {}", c.name(), clip(&s, 200)), json!({"crate": c.name(), "query": t, "smaller": s, "outcome": d, "smaller outcome": small}));
        }
    }
    Ok(())
}
/// the singular crate's embedded queries and implicit root
fn c12_embedded(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let mut t = crate::p_sing::ext_text(r);
    if r.pct(30) {
        t = gen::mutate(r, &t);
    }
    match ref_std(&t, true) {
        Ok(p) if p.sem.is_empty() && !p.lenient => cx.case(&t, crate::p_sing::has_sub(&p.query)),
        _ => return Ok(()),
    }
    cx.count("round trips", 1);
    if let Some((what, d)) = reprint_ext(Cr::Sing, &t, true) {
        let s = shrink_text(&t, |s| reprint_ext(Cr::Sing, s, true).is_some_and(|x| x.0 == what));
        let small = reprint_ext(Cr::Sing, &s, true).map(|x| x.1);
        return viol(format!("singular: {what}: {}", clip(&s, 200)), json!({"crate": "singular", "query": t, "smaller": s, "outcome": d, "smaller outcome": small}));
    }
    Ok(())
}
fn c12_random(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg::std();
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    printing(cx, &t)
}
fn c12_hostile(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { hostile: 90, filters: 30, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    printing(cx, &t)
}
fn c12_filters(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    let c = Cfg { filters: 90, calls: 30, max_segs: 2, max_sels: 2, max_depth: 3, big_ints: 20, ..Cfg::std() };
    let q = gen::query(r, &c, Root::Abs, 0);
    let st = Style::random(r);
    let t = print_std(&q, r, st);
    printing(cx, &t)
}
fn c12_edited(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    for _ in 0..4 {
        let t = if r.pct(30) { string_query(r) } else { gen_edited(r) };
        if want_std(&t) == Want::Accept {
            return printing(cx, &t);
        }
    }
    Ok(())
}
fn c12_corpus(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    printing(cx, &gen_corpus(r))
}
fn c12_numbers(cx: &mut Cx, _i: u64, r: &mut Rng) -> Res {
    printing(cx, &number_query(r))
}

/// the listed finding: these crates print string literals without escapes (their tests pin it)
fn c12_bare(_cx: &mut Cx, i: u64, _r: &mut Rng) -> Res {
    let c = [Cr::Hand, Cr::Pest, Cr::Rec][i as usize % 3];
    let mut bad = vec![];
    for t in ["$[?@['a'] == 'x\\'y']", "$[?@['a'] == \"x\\\"y\"]", "$[?@['a'] == 'x\\\\y']", "$[?@['a'] == 'x\\ny']"] {
        if let Ok(Ok(p)) = parse_std(c, t) {
            let d = p.display();
            if !matches!(parse_std(c, &d), Ok(Ok(q)) if q.display() == d && q.model().ok() == p.model().ok()) {
                bad.push(json!({"query": t, "printed": d}));
            }
        }
    }
    if bad.is_empty() {
        return Ok(());
    }
    viol(format!("{}: string literals in filters are printed without escapes", c.name()), json!({"cases": bad}))
}
