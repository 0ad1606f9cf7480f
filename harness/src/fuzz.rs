//! Hostile texts: mutations of rendered documents, and token soup.
use crate::model::*;
use crate::render::{render, Layout};
use crate::rng::Rng;

const BITS: &[&str] = &[
    "\n", "\n", " ", "  ", "    ", ":", ": ", "-", "- ", "- - ", "#", " # c", "'", "\"", "''", "\\", "\\n", "\\\"", "\\x", "[", "]", "{", "}", ",", ", ",
    "|", ">", "|-", ">+", "|2", ">1", "|9", "|10", "|0", "|99999999999999999999", "\t", "\r", "\r\n", "&a", "&a ", "*a", "*", "&", "a", "b: c", "key:", "---", "...", "é", "😀",
    "\u{a0}", "\u{3000}", "\u{feff}", "\u{2028}", "\0", "~", "null", "[]", "{}", "? ", "! ", "%", "@", "`", "a: 'x'", "x: |\n    t\n   u\n", "- a: 1\n  b: 2\n", "- - x\n  - y\n", "\n\n", "\n# c\n", "\n  # c\n",
];

pub fn soup(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    if !r.chance(1, 8) {
        s.push_str("---\n");
    }
    let n = r.below(max + 1);
    for _ in 0..n {
        s.push_str(*r.pick(BITS));
    }
    s
}

/// Lines that look like a document, with little regard for its rules.
pub fn linewise(r: &mut Rng, max: usize) -> String {
    let mut s = String::from("---\n");
    for _ in 0..r.below(max + 1) {
        let n = *r.pick(&[0, 0, 0, 1, 2, 2, 2, 3, 4, 4, 5, 6]);
        s.push_str(&" ".repeat(n));
        for _ in 0..r.below(3) {
            s.push_str(*r.pick(&["- ", "-  ", "a: ", "b:", "- ", "&x ", "k: "]));
        }
        s.push_str(*r.pick(&[
            "", "", "a:", "b: 1", "- x", "x", "'q'", "\"d\"", "|", ">", "|-", ">2", "|1", "[a, b]", "{a: b}", "# c", "*x", "[", "]", "-", "text text", "a: b: c", "'a", "\"", "x # c",
        ]));
        s.push('\n');
    }
    if r.chance(1, 4) {
        s.pop();
    }
    s
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    let n = 1 + if r.chance(1, 2) { 0 } else { r.below(4) };
    for _ in 0..n {
        let at = boundary(&s, r.below(s.len() + 1));
        match r.below(12) {
            0 | 1 => s.insert_str(at, *r.pick(BITS)),
            2 => {
                if at < s.len() {
                    s.remove(at);
                }
            }
            3 => {
                let to = boundary(&s, (at + r.below(12)).min(s.len()));
                if to > at {
                    s.replace_range(at..to, "");
                }
            }
            4 | 5 | 6 | 7 => {
                // line surgery
                let mut lines: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
                let i = r.below(lines.len());
                match r.below(7) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => {
                        let l = lines[i].clone();
                        let j = r.below(lines.len() + 1);
                        lines.insert(j, l);
                    }
                    2 => {
                        let k = 1 + r.below(4);
                        lines[i] = format!("{}{}", " ".repeat(k), lines[i]);
                    }
                    3 => {
                        let k = 1 + r.below(4);
                        let have = lines[i].len() - lines[i].trim_start_matches(' ').len();
                        lines[i] = lines[i][k.min(have)..].to_string();
                    }
                    4 => {
                        let j = r.below(lines.len());
                        lines.swap(i, j);
                    }
                    5 => lines.insert(i, String::new()),
                    _ => {
                        // indent the rest
                        let k = 1 + r.below(3);
                        for l in lines.iter_mut().skip(i).take(1 + k * 2) {
                            *l = format!("{}{}", " ".repeat(k), l);
                        }
                    }
                }
                s = lines.join("\n");
            }
            8 => s.truncate(at),
            9 => {
                let to = boundary(&s, (at + r.below(30)).min(s.len()));
                let piece = s[at..to].to_string();
                let j = boundary(&s, r.below(s.len() + 1));
                s.insert_str(j, &piece);
            }
            10 => {
                if let Some(c) = s[at..].chars().next() {
                    let with: String = r.pick(BITS).to_string();
                    s.replace_range(at..at + c.len_utf8(), &with);
                }
            }
            _ => {
                if let Some(p) = s[at..].find('\n') {
                    let p = at + p;
                    s.replace_range(p..p + 1, r.pick(&["\r\n", "\r", " \n", "\n\n", "", "\n ", "\n  "]));
                }
            }
        }
        if s.len() > 6000 {
            let b = boundary(&s, 6000);
            s.truncate(b);
        }
    }
    s
}

/// A rendered document of this size, in a random layout.
pub fn rendered(r: &mut Rng, size: usize) -> (Doc, String) {
    let mut cfg = Cfg::random(r, size);
    let d = gen_doc(r, &mut cfg);
    let l = Layout::random(r);
    let (t, _) = render(&d, l, r);
    (d, t)
}

/// Any text: rendered, mutated, or soup. The name says which.
pub fn any_text(r: &mut Rng, size: usize) -> (&'static str, String) {
    match r.below(10) {
        0 => ("rendered", rendered(r, size).1),
        1..=5 => {
            let t = rendered(r, size).1;
            ("mutated", mutate(r, &t))
        }
        6 | 7 => ("lines", linewise(r, 2 + size)),
        8 => ("soup", soup(r, 4 + size * 2)),
        _ => {
            let t = linewise(r, 2 + size);
            ("mutated lines", mutate(r, &t))
        }
    }
}
