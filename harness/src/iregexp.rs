//! Independent I-Regexp (RFC 9485) parser and set-of-positions matcher.
use std::collections::{BTreeSet, HashMap};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Re {
    Alt(Vec<Re>),
    Cat(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Ch(char),
    Dot,
    /// `^` / `$` read as anchors (second reading, see `parse_anchors`)
    Bol,
    Eol,
    Prop(String, bool),
    Class(Vec<Item>, bool),
}
#[derive(Clone, Debug)]
pub enum Item {
    Ch(char),
    Range(char, char),
    Prop(String, bool),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    anchors: bool,
}

pub fn parse(t: &str) -> Option<Re> {
    parse_with(t, false)
}
/// the reading of common implementations: unescaped `^` and `$` are anchors
pub fn parse_anchors(t: &str) -> Option<Re> {
    parse_with(t, true)
}
fn parse_with(t: &str, anchors: bool) -> Option<Re> {
    let s: Vec<char> = t.chars().collect();
    let mut p = P { s: &s, i: 0, anchors };
    let r = p.alt()?;
    if p.i == s.len() {
        Some(r)
    } else {
        None
    }
}

fn normal(c: char) -> bool {
    !matches!(c, '(' | ')' | '*' | '+' | '.' | '?' | '[' | '\\' | ']' | '{' | '|' | '}')
}
const CATS: &[&str] = &[
    "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc", "Pd",
    "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C", "Cc", "Cf",
    "Cn", "Co",
];

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.cat()?];
        while self.eat('|') {
            v.push(self.cat()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            v.push(self.quant(a)?);
        }
        Some(Re::Cat(v))
    }
    fn quant(&mut self, a: Re) -> Option<Re> {
        Some(match self.peek() {
            Some('*') => {
                self.i += 1;
                Re::Rep(Box::new(a), 0, None)
            }
            Some('+') => {
                self.i += 1;
                Re::Rep(Box::new(a), 1, None)
            }
            Some('?') => {
                self.i += 1;
                Re::Rep(Box::new(a), 0, Some(1))
            }
            Some('{') => {
                self.i += 1;
                let lo = self.num()?;
                let hi = if self.eat(',') {
                    if self.peek() == Some('}') {
                        None
                    } else {
                        Some(self.num()?)
                    }
                } else {
                    Some(lo)
                };
                if !self.eat('}') {
                    return None;
                }
                if hi.is_some_and(|h| h < lo) {
                    return None;
                }
                Re::Rep(Box::new(a), lo, hi)
            }
            _ => a,
        })
    }
    fn num(&mut self) -> Option<u32> {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect::<String>().parse().ok()
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        match c {
            '(' => {
                self.i += 1;
                let r = self.alt()?;
                if !self.eat(')') {
                    return None;
                }
                Some(r)
            }
            '.' => {
                self.i += 1;
                Some(Re::Dot)
            }
            '[' => self.class(),
            '\\' => {
                self.i += 1;
                match self.esc()? {
                    Item::Ch(c) => Some(Re::Ch(c)),
                    Item::Prop(p, n) => Some(Re::Prop(p, n)),
                    _ => None,
                }
            }
            '^' if self.anchors => {
                self.i += 1;
                Some(Re::Bol)
            }
            '$' if self.anchors => {
                self.i += 1;
                Some(Re::Eol)
            }
            c if normal(c) => {
                self.i += 1;
                Some(Re::Ch(c))
            }
            _ => None,
        }
    }
    /// after the backslash
    fn esc(&mut self) -> Option<Item> {
        let c = self.peek()?;
        self.i += 1;
        match c {
            '(' | ')' | '*' | '+' | '-' | '.' | '?' | '[' | '\\' | ']' | '^' | '{' | '|' | '}' => Some(Item::Ch(c)),
            'n' => Some(Item::Ch('\n')),
            'r' => Some(Item::Ch('\r')),
            't' => Some(Item::Ch('\t')),
            'p' | 'P' => {
                if !self.eat('{') {
                    return None;
                }
                let mut n = String::new();
                while let Some(x) = self.peek() {
                    self.i += 1;
                    if x == '}' {
                        return if CATS.contains(&n.as_str()) { Some(Item::Prop(n, c == 'P')) } else { None };
                    }
                    n.push(x);
                }
                None
            }
            _ => None,
        }
    }
    fn class(&mut self) -> Option<Re> {
        self.i += 1;
        let neg = self.eat('^');
        let mut v = vec![];
        if self.eat('-') {
            v.push(Item::Ch('-'));
        } else {
            self.cce1(&mut v)?;
        }
        loop {
            match self.peek()? {
                ']' => {
                    self.i += 1;
                    return Some(Re::Class(v, neg));
                }
                '-' => {
                    self.i += 1;
                    v.push(Item::Ch('-'));
                    return if self.eat(']') { Some(Re::Class(v, neg)) } else { None };
                }
                _ => self.cce1(&mut v)?,
            }
        }
    }
    fn cce1(&mut self, v: &mut Vec<Item>) -> Option<()> {
        let a = match self.cchar()? {
            Item::Ch(c) => c,
            it => {
                v.push(it);
                return Some(());
            }
        };
        if self.peek() == Some('-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
            self.i += 1;
            match self.cchar()? {
                Item::Ch(b) if a <= b => v.push(Item::Range(a, b)),
                _ => return None,
            }
        } else {
            v.push(Item::Ch(a));
        }
        Some(())
    }
    fn cchar(&mut self) -> Option<Item> {
        let c = self.peek()?;
        match c {
            '[' | ']' | '-' => None,
            '\\' => {
                self.i += 1;
                self.esc()
            }
            c => {
                self.i += 1;
                Some(Item::Ch(c))
            }
        }
    }
}

static PROPS: Mutex<Option<HashMap<String, regex::Regex>>> = Mutex::new(None);

fn has_prop(c: char, p: &str) -> bool {
    // Unicode data only: a one-character category test
    let mut g = PROPS.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    let re = m
        .entry(p.to_owned())
        .or_insert_with(|| regex::Regex::new(&format!("^\\p{{{p}}}$")).unwrap());
    let mut b = [0; 4];
    re.is_match(c.encode_utf8(&mut b))
}

fn item(c: char, it: &Item) -> bool {
    match it {
        Item::Ch(x) => *x == c,
        Item::Range(a, b) => *a <= c && c <= *b,
        Item::Prop(p, neg) => has_prop(c, p) != *neg,
    }
}

/// positions reachable after matching `re` from any of `from`
fn step(re: &Re, s: &[char], from: &BTreeSet<usize>) -> BTreeSet<usize> {
    let one = |f: &dyn Fn(char) -> bool| -> BTreeSet<usize> {
        from.iter().filter(|i| s.get(**i).is_some_and(|c| f(*c))).map(|i| i + 1).collect()
    };
    match re {
        Re::Ch(x) => one(&|c| c == *x),
        Re::Bol => from.iter().copied().filter(|i| *i == 0).collect(),
        Re::Eol => from.iter().copied().filter(|i| *i == s.len()).collect(),
        Re::Dot => one(&|c| c != '\n' && c != '\r'),
        Re::Prop(p, neg) => one(&|c| has_prop(c, p) != *neg),
        Re::Class(items, neg) => one(&|c| items.iter().any(|i| item(c, i)) != *neg),
        Re::Alt(v) => {
            let mut o = BTreeSet::new();
            for r in v {
                o.extend(step(r, s, from));
            }
            o
        }
        Re::Cat(v) => {
            let mut cur = from.clone();
            for r in v {
                cur = step(r, s, &cur);
            }
            cur
        }
        Re::Rep(r, lo, hi) => {
            let mut cur = from.clone();
            for _ in 0..*lo {
                let n = step(r, s, &cur);
                if n == cur || n.is_empty() {
                    cur = n;
                    break;
                }
                cur = n;
            }
            let mut all = cur.clone();
            let mut k = *lo;
            while hi.map_or(true, |h| k < h) {
                cur = step(r, s, &cur);
                let before = all.len();
                all.extend(cur.iter().copied());
                if all.len() == before {
                    break;
                }
                k += 1;
            }
            all
        }
    }
}

pub fn is_match(re: &Re, t: &str) -> bool {
    let s: Vec<char> = t.chars().collect();
    step(re, &s, &BTreeSet::from([0])).contains(&s.len())
}
pub fn is_search(re: &Re, t: &str) -> bool {
    let s: Vec<char> = t.chars().collect();
    let all: BTreeSet<usize> = (0..=s.len()).collect();
    !step(re, &s, &all).is_empty()
}
