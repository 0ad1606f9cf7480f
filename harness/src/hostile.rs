//! Strings that are hard to write as a scalar.
use crate::model::*;
use crate::rng::Rng;

pub const ODD: &[&str] = &[
    "", " ", "  ", "\t", "\n", "\n\n", "\n\n\n", "\r", "\r\n", "a\r", "a\rb", "a\r\nb", "-", "- ", "- x", "-x", "--", "---", "...", "-\t", "-\u{a0}x", "?", "? x", ":", ": ", ":x", "x:", "x: ", "x: y", "x:y",
    "a:b:c", "std::x", "x:\ty", "x:\u{a0}y", "a b:", "#", "# x", "x # y", "x#y", "&", "&a", "&a b", "*", "*a", "*a b", "!", "!x", "!!str x", "%", "@", "`", "|", "|-", "|\n x", ">", ">x",
    "> x", "[", "]", "[]", "[a", "[a, b]", "{", "}", "{}", "{a: b}", "a, b", "a,b", ",", ", ", "a]", "a}", "a[b", "a{b", "'", "''", "'a'", "it's", "\"", "\"\"", "\"a\"", "say \"hi\"", "it's \"x\"",
    "\\", "\\\\", "\\n", "a\\", "\\\"", "\\x", "null", "Null", "NULL", "~", "nUll", "true", "false", "True", "TRUE", "False", "yes", "no", "on", "off", "Yes", "0", "1", "-1", "+1", "-0", "00", "007", "0x1f",
    "0o7", "1_000", "1.0", "-1.5", ".5", "5.", "1e5", "1E5", "1e", "e1", "+.5", "inf", "-inf", "+inf", ".inf", "nan", "NaN", ".nan", "infinity", "Infinity", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "170141183460469231731687303715884105727", "340282366920938463463374607431768211455",
    "1,5", "12:30", "2025-03-26T09:48:35.393+01:00", "a\n", "a\n\n", "\na", "\n\na", "a\nb", "a\n\nb", "a\n\n\nb\n", " a", "a ", " a ", "  a\nb", "a\n  b", "a\n  b\n", "  a", "\ta", "a\t", "a\tb",
    "\ta\nb", "a\n\tb", "a \nb", "a\n ", "a\n  \n", " \na", "  \n a", " \n", "a\n \nb", "a  b", "\u{a0}", "\u{a0}a", "a\u{a0}", "\u{3000}x", "x\u{2003}", "\u{feff}", "\u{feff}a", "\u{2028}", "a\u{2028}b", "\u{85}",
    "\u{85}a", "\u{b}", "\u{c}a", "\0", "a\0b", "\u{7f}", "é", "日本", "😀", "a\u{301}", "# a\nb", "a\n# b", "- a\n- b", "a: 1\nb: 2", "---\na: 1", "a\n---\nb", "$\\binom{1}{1}$", "a|b", "a>b",
];
const ALPHA: &[char] = &[
    'a', 'b', 'c', 'x', ' ', ' ', ' ', '\n', '\n', '-', ':', '#', ',', '[', ']', '{', '}', '"', '\'', '\\', '|', '>', '&', '*', '!', '%', '@', '~', '.', '0', '1', '\t', '\r', 'é', '日', '\u{a0}', '=', '_',
];

/// Words up to about `n` characters; with `wild`, odd blanks between them.
fn words(r: &mut Rng, n: usize, wild: bool) -> String {
    let mut s = String::new();
    while s.len() < n {
        s.push_str(&gen_word(r, wild));
        if r.chance(1, 30) {
            s.push_str(&"w".repeat(r.below(120)));
        }
        s.push_str(if wild && r.chance(1, 12) { *r.pick(&["  ", "   ", "\t", " \t ", "\u{a0}", "\n", "\n\n", " \n", "\n ", "\n  ", "\n\n\n", ", ", ": ", " #", "\""]) } else { " " });
    }
    if !(wild && r.chance(1, 6)) {
        s.truncate(s.trim_end().len());
    }
    s
}

pub fn string(r: &mut Rng) -> String {
    match r.below(12) {
        0..=3 => r.pick(ODD).to_string(),
        4 => format!("{}{}", r.pick(ODD), r.pick(ODD)),
        5 => format!("{}{}{}", r.pick(ODD), r.pick(&[" ", "\n", "a", ""]), r.pick(ODD)),
        6 | 7 => {
            let n = r.below(12);
            (0..n).map(|_| *r.pick(ALPHA)).collect()
        }
        8 => {
            let n = if r.chance(1, 6) { long(r, 4000) } else { *r.pick(&[70, 80, 88, 89, 90, 91, 92, 95, 120, 180, 300]) };
            words(r, n, false)
        }
        9 => {
            let n = if r.chance(1, 8) { long(r, 4000) } else { *r.pick(&[60, 88, 90, 91, 100, 200]) };
            let w = words(r, n, true);
            format!("{}{}{}", r.pick(&["", "", "", " ", "  ", "\n", "\t", "- ", "# ", "a: "]), w, r.pick(&["", "", "", "\n", "\n\n", " ", "\n ", ":", "\n\t"]))
        }
        10 => {
            // several lines
            let n = if r.chance(1, 30) { long(r, 300) } else { 1 + r.below(5) };
            let mut s = String::new();
            for _ in 0..n {
                if r.chance(1, 3) {
                    s.push_str(r.pick(ODD));
                } else {
                    let n = r.below(30);
                    s.push_str(&words(r, n, false));
                }
                if r.chance(4, 5) {
                    s.push('\n');
                }
            }
            s
        }
        _ => {
            let n = r.below(30);
            words(r, n, true)
        }
    }
}

/// A quoted scalar that means `s`, written in one of the ways the subset has.
pub fn quoted(r: &mut Rng, s: &str, double: bool) -> Option<Scalar> {
    let mut v: Vec<Piece> = Vec::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let breaks = r.chance(1, 3);
    let text = |v: &mut Vec<Piece>, c: char| match v.last_mut() {
        Some(Piece::Text(t)) => t.push(c),
        _ => v.push(Piece::Text(c.to_string())),
    };
    while i < cs.len() {
        let c = cs[i];
        i += 1;
        match c {
            '\n' if double && !breaks => v.push(Piece::Esc('n')),
            '\n' => {
                let mut n = 1;
                while i < cs.len() && cs[i] == '\n' {
                    n += 1;
                    i += 1;
                }
                v.push(Piece::Break(n + 1));
            }
            '\r' if double => v.push(Piece::Esc('r')),
            '\r' => return None,
            '"' | '\\' if double => v.push(Piece::Esc(c)),
            '\t' if double && r.chance(1, 2) => v.push(Piece::Esc('t')),
            '\'' if !double => v.push(Piece::Esc('\'')),
            c => {
                if r.chance(1, 300) && !matches!(v.last(), Some(Piece::Break(_))) && i > 1 {
                    v.push(Piece::Break(1));
                }
                text(&mut v, c)
            }
        }
    }
    Some(Scalar { style: if double { Style::Double } else { Style::Single }, value: s.to_string(), chomp: ' ', src: Src::Quoted(v) })
}
