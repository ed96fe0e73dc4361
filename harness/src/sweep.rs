//! Every Unicode scalar value, in blocks of 256.
use crate::rng::Rng;

pub const BLOCK: u32 = 256;
pub const BMP: u64 = 0x10000 / BLOCK as u64;
pub const ALL: u64 = 0x110000 / BLOCK as u64;
/// blocks of the quick tier: the basic plane, and some of the others
pub const QUICK: u64 = BMP + 32;

/// block i; in the quick tier, those beyond the basic plane are drawn
pub fn block(i: u64, quick: bool, r: &mut Rng) -> Vec<char> {
    let b = if i < BMP || !quick { i } else { BMP + r.below((ALL - BMP) as usize) as u64 };
    (0..BLOCK).filter_map(|k| char::from_u32(b as u32 * BLOCK + k)).collect()
}
pub const FORMS: u64 = 6;
/// a query text in which every character of the block occurs, all valid; None: no such text
pub fn query(form: u64, cs: &[char], r: &mut Rng) -> Option<String> {
    let lit = |q: char, s: &str| {
        let mut o = String::from(q);
        for c in s.chars() {
            match c {
                '\\' => o.push_str("\\\\"),
                c if c == q => {
                    o.push('\\');
                    o.push(c)
                }
                c if c < ' ' => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push(q);
        o
    };
    let shorthand: Vec<char> = cs.iter().copied().filter(|c| *c >= '\u{80}' || c.is_ascii_alphabetic() || *c == '_').collect();
    let escaped = |r: &mut Rng, c: char| {
        let mut b = [0u16; 2];
        c.encode_utf16(&mut b).iter().map(|u| if r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") }).collect::<String>()
    };
    if cs.is_empty() {
        return None;
    }
    let join = |v: Vec<String>| v.join(",");
    Some(match form {
        0 => format!("$[{}]", join(cs.iter().map(|c| lit('\'', &c.to_string())).collect())),
        1 => format!("$[{}]", join(cs.iter().map(|c| lit('"', &format!("a{c}b"))).collect())),
        2 if !shorthand.is_empty() => format!("${}", shorthand.iter().map(|c| format!(".{c}")).collect::<String>()),
        3 if !shorthand.is_empty() => format!("${}", shorthand.iter().map(|c| format!("..a{c}")).collect::<String>()),
        4 => format!("$[?@.a=={}]", lit('\'', &cs.iter().collect::<String>())),
        5 => {
            let v = join(cs.iter().map(|c| format!("'{}'", escaped(r, *c))).collect());
            format!("$[{v}]")
        }
        _ => return None,
    })
}
