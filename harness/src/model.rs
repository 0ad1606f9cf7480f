//! The document model: what a text means, independent of the library's own tree.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}
impl Style {
    pub fn block(self) -> bool {
        matches!(self, Style::Literal | Style::Folded)
    }
    pub fn letter(self) -> char {
        match self {
            Style::Plain => 'p',
            Style::Single => 's',
            Style::Double => 'd',
            Style::Literal => 'l',
            Style::Folded => 'f',
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Text(String),
    /// The letter written after the backslash (double), or `'` (single).
    Esc(char),
    /// n line breaks in the source.
    Break(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    None,
    Quoted(Vec<Piece>),
    Lines(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Scalar {
    pub style: Style,
    /// Decoded value.
    pub value: String,
    /// 'c', 's' or 'k' for block scalars, ' ' otherwise.
    pub chomp: char,
    pub src: Src,
}

#[derive(Clone, Debug)]
pub enum Node {
    Map { flow: bool, items: Vec<Item> },
    Seq { flow: bool, items: Vec<Item> },
    Scalar(Scalar),
    Ref(String),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub key: String,
    pub alias: Option<String>,
    pub node: Node,
}

#[derive(Clone, Debug)]
pub enum Item {
    Comment(String),
    Inline(String),
    Entry(Entry),
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub lead: Vec<String>,
    pub pre: Vec<String>,
    pub root: Node,
    pub post: Vec<String>,
}

pub fn plain(s: &str) -> Node {
    Node::Scalar(Scalar { style: Style::Plain, value: s.to_string(), chomp: ' ', src: Src::None })
}

/// Folding per YAML 1.2: lines without their indentation.
pub fn fold(lines: &[String], chomp: char) -> String {
    let trailing = lines.iter().rev().take_while(|l| l.is_empty()).count();
    let body = &lines[..lines.len() - trailing];
    let mut out = String::new();
    let mut prev: Option<bool> = None; // was the previous non-empty line more indented
    let mut blanks = 0;
    for l in body {
        if l.is_empty() {
            blanks += 1;
            continue;
        }
        let more = l.starts_with(' ') || l.starts_with('\t');
        match prev {
            None => out.extend(std::iter::repeat('\n').take(blanks)),
            Some(p) => {
                if p || more {
                    out.extend(std::iter::repeat('\n').take(blanks + 1));
                } else if blanks == 0 {
                    out.push(' ');
                } else {
                    out.extend(std::iter::repeat('\n').take(blanks));
                }
            }
        }
        out.push_str(l);
        prev = Some(more);
        blanks = 0;
    }
    finish(out, trailing, chomp)
}

pub fn literal(lines: &[String], chomp: char) -> String {
    let trailing = lines.iter().rev().take_while(|l| l.is_empty()).count();
    let out = lines[..lines.len() - trailing].join("\n");
    finish(out, trailing, chomp)
}

fn finish(mut out: String, trailing: usize, chomp: char) -> String {
    match chomp {
        's' => {}
        'k' => {
            // an all-empty scalar has one line break less: nothing precedes the first one
            let n = if out.is_empty() { trailing } else { trailing + 1 };
            out.extend(std::iter::repeat('\n').take(n));
        }
        _ => out.push('\n'),
    }
    out
}

pub fn decode_pieces(ps: &[Piece], double: bool) -> String {
    let mut out = String::new();
    for p in ps {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Esc(c) => out.push(if double {
                match c {
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    c => *c,
                }
            } else {
                '\''
            }),
            Piece::Break(n) => out.extend(std::iter::repeat('\n').take(n - 1)),
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Canonical dumps, for comparison and for reports.

#[derive(Clone, Copy)]
pub struct Show {
    pub comments: bool,
    /// Distinguish end-of-line comments from own-line ones.
    pub comment_kind: bool,
    pub style: bool,
    /// Only distinguish plain from other scalars.
    pub plainness: bool,
    pub flow: bool,
    pub alias: bool,
}
pub const FULL: Show =
    Show { comments: true, comment_kind: true, style: true, plainness: true, flow: true, alias: true };
/// Data only: keys, order, nesting, decoded values, aliases.
pub const DATA: Show =
    Show { comments: false, comment_kind: false, style: false, plainness: false, flow: false, alias: true };

pub fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 || c == '\u{7f}' || (c as u32 >= 0x80 && c as u32 <= 0xa0) => {
                out.push_str(&format!("\\u{{{:x}}}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl Node {
    pub fn dump(&self, show: Show) -> String {
        let mut s = String::new();
        self.dump_to(show, &mut s);
        s
    }
    pub fn dump_to(&self, show: Show, out: &mut String) {
        match self {
            Node::Scalar(sc) => {
                if show.style {
                    out.push(sc.style.letter());
                    if sc.style.block() {
                        out.push(sc.chomp);
                    }
                } else if show.plainness {
                    out.push(if sc.style == Style::Plain { 'p' } else { 'q' });
                }
                esc(&sc.value, out);
            }
            Node::Ref(n) => {
                out.push('*');
                out.push_str(n);
            }
            Node::Map { flow, items } | Node::Seq { flow, items } => {
                let map = matches!(self, Node::Map { .. });
                if show.flow && *flow {
                    out.push('~');
                }
                out.push(if map { '{' } else { '[' });
                let mut first = true;
                for it in items {
                    match it {
                        Item::Comment(_) | Item::Inline(_) if !show.comments => continue,
                        _ => {}
                    }
                    if !first {
                        out.push_str(", ");
                    }
                    first = false;
                    match it {
                        Item::Comment(c) => {
                            out.push('#');
                            esc(c, out);
                        }
                        Item::Inline(c) => {
                            out.push_str(if show.comment_kind { "##" } else { "#" });
                            esc(c, out);
                        }
                        Item::Entry(e) => {
                            if map {
                                esc(&e.key, out);
                                out.push_str(": ");
                            }
                            if show.alias {
                                if let Some(a) = &e.alias {
                                    out.push('&');
                                    out.push_str(a);
                                    out.push(' ');
                                }
                            }
                            e.node.dump_to(show, out);
                        }
                    }
                }
                out.push(if map { '}' } else { ']' });
            }
        }
    }
    /// All comments in document order.
    pub fn comments(&self, out: &mut Vec<(bool, String)>) {
        if let Node::Map { items, .. } | Node::Seq { items, .. } = self {
            for it in items {
                match it {
                    Item::Comment(c) => out.push((false, c.clone())),
                    Item::Inline(c) => out.push((true, c.clone())),
                    Item::Entry(e) => e.node.comments(out),
                }
            }
        }
    }
    pub fn each_comment(&mut self, f: &mut dyn FnMut(&mut String)) {
        if let Node::Map { items, .. } | Node::Seq { items, .. } = self {
            for it in items {
                match it {
                    Item::Comment(c) | Item::Inline(c) => f(c),
                    Item::Entry(e) => e.node.each_comment(f),
                }
            }
        }
    }
    pub fn entries(&self) -> Vec<&Entry> {
        match self {
            Node::Map { items, .. } | Node::Seq { items, .. } => items
                .iter()
                .filter_map(|i| if let Item::Entry(e) = i { Some(e) } else { None })
                .collect(),
            _ => Vec::new(),
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.entries().iter().map(|e| e.node.depth()).max().unwrap_or(0)
    }
    pub fn count(&self) -> usize {
        1 + self.entries().iter().map(|e| e.node.count()).sum::<usize>()
    }
    pub fn is_leaf(&self) -> bool {
        match self {
            Node::Map { flow, .. } | Node::Seq { flow, .. } => *flow,
            _ => true,
        }
    }
    pub fn is_block_scalar(&self) -> bool {
        matches!(self, Node::Scalar(s) if s.style.block())
    }
}

impl Doc {
    pub fn dump(&self, show: Show) -> String {
        let mut s = String::new();
        if show.comments {
            for c in &self.lead {
                s.push_str("lead ");
                esc(c, &mut s);
                s.push('\n');
            }
            for c in &self.pre {
                s.push_str("pre ");
                esc(c, &mut s);
                s.push('\n');
            }
        }
        self.root.dump_to(show, &mut s);
        if show.comments {
            for c in &self.post {
                s.push_str("\npost ");
                esc(c, &mut s);
            }
        }
        s
    }
    pub fn each_comment(&mut self, f: &mut dyn FnMut(&mut String)) {
        self.lead.iter_mut().chain(&mut self.pre).for_each(&mut *f);
        self.root.each_comment(f);
        self.post.iter_mut().for_each(f);
    }
    pub fn comments(&self) -> Vec<String> {
        let mut inner = Vec::new();
        self.root.comments(&mut inner);
        let mut out = self.lead.clone();
        out.extend(self.pre.iter().cloned());
        out.extend(inner.into_iter().map(|(_, c)| c));
        out.extend(self.post.iter().cloned());
        out
    }
}

// ---------------------------------------------------------------------------------------------
// Generation.

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_depth: usize,
    pub width: usize,
    /// Comments per 100 places.
    pub comments: usize,
    pub aliases: usize,
    pub refs: bool,
    pub flow: bool,
    pub single: bool,
    pub double: bool,
    pub block: bool,
    /// Multi-line quoted scalars.
    pub breaks: bool,
    pub unicode: bool,
    pub dup_keys: bool,
    /// Short keys from a small pool, so that paths hit.
    pub few_keys: bool,
    /// Some collections have many entries.
    pub wide: bool,
    /// Number comments so that each text is unique.
    pub unique_comments: bool,
    pub counter: usize,
    /// Nodes that may still be added.
    pub budget: usize,
    /// One dimension of the document is far larger than usual.
    pub extreme: bool,
    /// Names given so far.
    pub names: Vec<String>,
}

impl Cfg {
    pub fn random(r: &mut Rng, size: usize) -> Cfg {
        let quoted = !r.chance(1, 8);
        Cfg {
            max_depth: 1 + r.below(2 + size.min(5)),
            width: 1 + r.below(1 + size.min(6)),
            comments: *r.pick(&[0, 0, 5, 15, 40]),
            aliases: *r.pick(&[0, 0, 10, 30]),
            refs: r.chance(1, 2),
            flow: !r.chance(1, 5),
            single: quoted,
            double: quoted,
            block: !r.chance(1, 4),
            breaks: r.chance(1, 3),
            unicode: r.chance(1, 2),
            dup_keys: r.chance(1, 6),
            few_keys: false,
            wide: size > 1 && r.chance(1, 40),
            unique_comments: false,
            counter: 0,
            budget: 400,
            extreme: size > 1 && r.chance(1, 60),
            names: Vec::new(),
        }
    }
}

const WORDS: &[&str] = &[
    "a", "b", "foo", "bar", "x1", "test", "answer", "true", "null", "no", "7", "-3", "0.5", "1e3", "it", "he",
    "Foo", "value", "y", "id", "(z)", "<em>", "a/b", "$v", "c=d", "{x}", "p:q", "~", "end.", "50%", "a-b", "_u",
    "x^2", "f(x,y)", "1,2", "k&r", "a*b", "Q?", "!", "`c`", "@at", "\\n", "\\", "|x|", "a>b", "it's", "don't",
];
const UWORDS: &[&str] = &[
    "é", "日本", "Ünï", "ß", "😀", "Ωmega", "naïve", "\u{200b}z", "٣", "a\u{301}", "ñandú", "→", "½", "x\u{a0}y", "Ⅷ",
];
const KEYS: &[&str] = &[
    "a", "b", "c", "d", "key", "name", "type", "x", "y", "item", "item2", "parts", "a b", "k-1", "_p", "0", "42", "true",
    "null", "Content", "long key name", "a_b-c d", "z",
];
const UKEYS: &[&str] = &["é", "日本語", "Ünï", "ß-x", "Ω", "٣", "½", "ñ andú"];

const LETTERS: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'f', 'n', 'o', 's', 't', 'x', 'y', 'z', 'A', 'B', 'E', 'N', 'T', 'X', 'Z', '0', '1', '2', '5', '9', '_',
];
const ULETTERS: &[char] = &['é', 'ß', 'Ω', '日', '٣', '½', 'Ⅷ', 'ǆ', 'İ', 'ı', 'ſ', 'K', '𝒜', '٠', 'ª', 'א'];
const MARKS: &[char] = &[
    ' ', ' ', ' ', '-', '-', ':', ':', '#', ',', '[', ']', '{', '}', '"', '\'', '\\', '|', '>', '&', '*', '!', '%', '@', '`', '~', '.', '=', '?', '/', '(', ')', '<', '+', '$', ';', '^', '\t',
];
const UMARKS: &[char] = &['→', '😀', '\u{301}', '\u{200b}', '\u{a0}', '\u{3000}', '\u{2003}', '\u{ad}', '\u{7f}', '\u{1}', '，', '：', '“', '’', '\u{202e}', '\u{feff}', '\u{85}', '\u{b}', '\u{c}', '\u{2028}', '\u{2029}', '\u{1c}', '\0', '\u{1b}', '\u{fffd}', '\u{10ffff}'];

/// Characters from all over, without line breaks.
pub fn gen_odd(r: &mut Rng, unicode: bool, max: usize) -> String {
    let n = r.below(max + 1);
    let marks = 1 + r.below(4);
    (0..n)
        .map(|_| match (r.chance(marks, 6), unicode && r.chance(1, 6)) {
            (false, false) => *r.pick(LETTERS),
            (false, true) => *r.pick(ULETTERS),
            (true, false) => *r.pick(MARKS),
            (true, true) => *r.pick(UMARKS),
        })
        .collect()
}

/// Any key the subset has.
pub fn gen_odd_key(r: &mut Rng, unicode: bool) -> String {
    let n = match r.below(12) {
        0 => 20 + r.below(200),
        1 | 2 => 1,
        _ => 1 + r.below(12),
    };
    let mut s = String::new();
    for i in 0..n {
        let c = if i > 0 && r.chance(1, 4) {
            *r.pick(&[' ', ' ', '-', '_'])
        } else if unicode && r.chance(1, 8) {
            *r.pick(ULETTERS)
        } else {
            *r.pick(LETTERS)
        };
        s.push(c);
        if c == ' ' && r.chance(1, 2) {
            s.push(' ');
        }
    }
    s.truncate(s.trim_end().len());
    s
}

pub fn gen_word(r: &mut Rng, unicode: bool) -> String {
    if r.chance(1, 10) {
        let s = gen_odd(r, unicode, 6);
        return if s.trim().is_empty() { "w".to_string() } else { s.trim().to_string() };
    }
    if unicode && r.chance(1, 3) {
        r.pick(UWORDS).to_string()
    } else {
        r.pick(WORDS).to_string()
    }
}

/// Whether `s` is a plain scalar of the subset, the same in every layout (conservative).
pub fn plain_ok(s: &str, flow: bool) -> bool {
    let first = match s.chars().next() {
        Some(c) => c,
        None => return false,
    };
    // (a blank of another kind than the ASCII ones ends a plain scalar as any character does)
    if s.trim_start() != s || s.ends_with(|c: char| c.is_ascii() && c.is_whitespace()) || s.contains('\n') || s.contains('\r') {
        return false;
    }
    // a dash or colon before another blank than a space: not the same in YAML and in the subset
    let blank = |c: char| c.is_whitespace() && c != ' ';
    if s.chars().zip(s.chars().skip(1)).any(|(a, b)| matches!(a, '-' | ':') && blank(b)) {
        return false;
    }
    if "[]{}\"'#>|,&*!%@`?:".contains(first) || s == "-" || s.starts_with("- ") || s.ends_with(':') {
        return false;
    }
    if s.contains(": ") || s.contains('#') || s.contains("---") {
        return false;
    }
    if flow && s.chars().any(|c| ",[]{}\"#>|".contains(c)) {
        return false;
    }
    true
}

/// `name:` at the start would make a key when something follows on the next lines: avoided.
fn gen_phrase(r: &mut Rng, unicode: bool, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
            if r.chance(1, 25) {
                s.push(' ');
            }
        }
        s.push_str(&gen_word(r, unicode));
    }
    s
}

pub fn gen_plain(r: &mut Rng, unicode: bool, flow: bool) -> String {
    for _ in 0..20 {
        let max = if r.chance(1, 6) { 12 } else { 3 };
        let s = match r.below(40) {
            0..=5 => gen_odd(r, unicode, 8),
            6 => gen_phrase(r, unicode, 60),
            7 if unicode => gen_phrase(r, unicode, max) + r.pick(&["\u{a0}", "\u{3000}", " \u{2003}", "\u{a0}\u{a0}"]),
            _ => gen_phrase(r, unicode, max),
        };
        if plain_ok(&s, flow) {
            return s;
        }
    }
    "plain".to_string()
}

fn gen_text(r: &mut Rng, unicode: bool) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => " ".repeat(1 + r.below(3)),
        2 => format!(" {}", gen_phrase(r, unicode, 3)),
        3 => format!("{} ", gen_phrase(r, unicode, 3)),
        4 => r.pick(&[": ", "# x", " # not a comment", "- a", "[a, b]", "{a: 1}", "a: b", "| x", "> y", "&a", "*a", "---", ", ", "\t", "a\tb", "'", "''"]).to_string(),
        5 => {
            let n = if r.chance(1, 8) { 90 } else { 25 };
            gen_phrase(r, unicode, n)
        }
        6 | 7 => gen_odd(r, unicode, 12),
        _ => gen_phrase(r, unicode, 4),
    }
}

pub fn gen_quoted(r: &mut Rng, double: bool, unicode: bool, breaks: bool) -> Vec<Piece> {
    let n = if r.chance(1, 20) { r.below(40) } else { r.below(5) };
    let mut v: Vec<Piece> = Vec::new();
    for _ in 0..n {
        let p = match r.below(if breaks { 8 } else { 6 }) {
            // the last one is a line break that a backslash keeps
            0 | 1 => Piece::Esc(if double { *r.pick(if breaks { &['n', 'r', 't', '"', '\\', '\n'] } else { &['n', 'r', 't', '"', '\\', '\\'] }) } else { '\'' }),
            2..=5 => {
                let mut t = gen_text(r, unicode);
                t = if double { t.replace(['"', '\\'], "_") } else { t.replace('\'', "_") };
                Piece::Text(t)
            }
            _ if r.chance(1, 12) => Piece::Break(1 + r.below(30)),
            _ => Piece::Break(1 + r.below(4)),
        };
        match (&p, v.last_mut()) {
            (Piece::Text(t), _) if t.is_empty() => {}
            (Piece::Text(t), Some(Piece::Text(l))) => l.push_str(t),
            (Piece::Break(n), Some(Piece::Break(m))) => *m += n,
            _ => v.push(p),
        }
    }
    v
}

/// Content lines of a block scalar: at least one non-blank line; trailing empty lines count.
pub fn gen_lines(r: &mut Rng, unicode: bool) -> Vec<String> {
    let n = 1 + if r.chance(1, 20) { r.below(40) } else { r.below(6) };
    let mut v = Vec::new();
    for i in 0..n {
        let l = match r.below(11) {
            0 | 1 if i > 0 || r.chance(1, 3) => String::new(),
            2 if i > 0 || r.chance(1, 3) => format!("{}{}", " ".repeat(1 + r.below(4)), gen_phrase(r, unicode, 4)),
            3 => r
                .pick(&["# no comment", "a: b", "- c", "\ttab", "x\ty", "\"q\"", "'s'", "trail ", "end:", "[x", "&a b", "*r", "---", "|", "\u{a0}nb", "a #b"])
                .to_string(),
            4 if i > 0 && r.chance(1, 4) => " ".repeat(1 + r.below(3)),
            5 => {
                let l = gen_odd(r, unicode, 15);
                if i == 0 { l.trim_start().to_string() } else { l }
            }
            6 if r.chance(1, 8) => gen_phrase(r, unicode, 60),
            _ => gen_phrase(r, unicode, 6),
        };
        v.push(l);
    }
    if v.iter().all(|l| l.trim().is_empty()) {
        v.push("content".to_string());
    }
    // no line of blanks only at the end: its meaning depends on the layout after it
    while v.last().map_or(false, |l| !l.is_empty() && l.trim_matches(' ').is_empty()) {
        v.pop();
    }
    if v.iter().all(|l| l.trim().is_empty()) {
        v.push("content".to_string());
    }
    for l in v.iter_mut() {
        if !l.trim().is_empty() && r.chance(1, 20) {
            l.push_str(r.pick(&["\t", "\u{a0}", "\u{2028}", "\u{85}", "\u{b}", "\u{3000}", " \t ", "\u{c}", "\u{2029}"]));
        }
    }
    if r.chance(1, 15) {
        let n = 1 + r.below(12);
        v.splice(0..0, std::iter::repeat(String::new()).take(n));
    }
    if r.chance(1, 5) {
        let n = 1 + if r.chance(1, 8) { r.below(12) } else { r.below(2) };
        v.extend(std::iter::repeat(String::new()).take(n));
    }
    v
}

pub fn gen_scalar(r: &mut Rng, cfg: &Cfg, flow: bool) -> Scalar {
    loop {
        let style = *r.pick(&[Style::Plain, Style::Plain, Style::Plain, Style::Single, Style::Double, Style::Literal, Style::Folded]);
        match style {
            Style::Plain => {
                return Scalar { style, value: gen_plain(r, cfg.unicode, flow), chomp: ' ', src: Src::None };
            }
            Style::Single | Style::Double => {
                let double = style == Style::Double;
                if !(if double { cfg.double } else { cfg.single }) {
                    continue;
                }
                let ps = gen_quoted(r, double, cfg.unicode, cfg.breaks);
                return Scalar { style, value: decode_pieces(&ps, double), chomp: ' ', src: Src::Quoted(ps) };
            }
            Style::Literal | Style::Folded => {
                if flow || !cfg.block {
                    continue;
                }
                let lines = gen_lines(r, cfg.unicode);
                let chomp = *r.pick(&['c', 'c', 's', 'k']);
                let value = if style == Style::Literal { literal(&lines, chomp) } else { fold(&lines, chomp) };
                return Scalar { style, value, chomp, src: Src::Lines(lines) };
            }
        }
    }
}

pub fn gen_key(r: &mut Rng, cfg: &Cfg) -> String {
    if cfg.few_keys {
        return r.pick(&["a", "b", "c", "d", "k x"]).to_string();
    }
    if r.chance(1, 5) {
        return gen_odd_key(r, cfg.unicode);
    }
    if cfg.unicode && r.chance(1, 5) {
        return r.pick(UKEYS).to_string();
    }
    let mut k = r.pick(KEYS).to_string();
    if r.chance(1, 4) {
        k.push_str(&r.below(30).to_string());
    }
    k
}

fn gen_comment(r: &mut Rng, cfg: &mut Cfg) -> String {
    let mut s = match r.below(8) {
        0 => String::new(),
        1 => r.pick(&["#", " # more", " 'q", " \"", "x: 1", " - a", " [", "  two  ", "!", "\ttab", " & *"]).to_string(),
        2 | 3 => gen_odd(r, cfg.unicode, 12),
        4 if r.chance(1, 4) => format!(" {}", gen_phrase(r, cfg.unicode, 60)),
        _ => format!(" {}", gen_phrase(r, cfg.unicode, 4)),
    };
    if r.chance(1, 8) {
        s.push_str(r.pick(&["#", " #", "##", " ", "  ", "\t", ".", ":", " -", "\\", "\"", "'", "---", "]", ",", " |"]));
    }
    if cfg.unique_comments {
        cfg.counter += 1;
        let mut at = *r.pick(&[0, s.len(), s.len() / 2]);
        while !s.is_char_boundary(at) {
            at += 1;
        }
        s.insert_str(at, &format!("«{}»", cfg.counter));
    }
    s
}

fn gen_name(r: &mut Rng, cfg: &mut Cfg) -> String {
    let n = match r.below(5) {
        0 if cfg.unicode => r.pick(UKEYS).chars().filter(|c| c.is_alphanumeric() || *c == '_').collect::<String>(),
        1 => r.pick(&["x", "y", "_1", "9", "anch"]).to_string(),
        2 => {
            let n = 1 + if r.chance(1, 10) { r.below(80) } else { r.below(6) };
            (0..n).map(|_| if cfg.unicode && r.chance(1, 8) { *r.pick(ULETTERS) } else { *r.pick(LETTERS) }).collect()
        }
        _ => format!("n{}", r.below(8)),
    };
    cfg.names.push(n.clone());
    n
}

pub fn gen_node(r: &mut Rng, cfg: &mut Cfg, depth: usize, flow: bool) -> Node {
    cfg.budget = cfg.budget.saturating_sub(1);
    let container = depth < cfg.max_depth && cfg.budget > 0 && (depth == 0 || r.chance(2, 5));
    if !container {
        if cfg.refs && r.chance(1, 12) {
            let n = if !cfg.names.is_empty() && r.chance(3, 4) {
                let i = r.below(cfg.names.len());
                cfg.names[i].clone()
            } else {
                "x".to_string()
            };
            return Node::Ref(n);
        }
        if cfg.flow && r.chance(1, 15) {
            return if r.chance(1, 2) {
                Node::Map { flow: true, items: vec![] }
            } else {
                Node::Seq { flow: true, items: vec![] }
            };
        }
        return Node::Scalar(gen_scalar(r, cfg, flow));
    }
    let go_flow = flow || (cfg.flow && r.chance(if depth == 0 { 1 } else { 3 }, if depth == 0 { 20 } else { 10 }));
    let map = r.chance(3, 5);
    let n = 1 + if cfg.wide && r.chance(1, 3) { r.below(40) } else { r.below(cfg.width) };
    let mut items: Vec<Item> = Vec::new();
    let mut used: Vec<String> = Vec::new();
    for i in 0..n {
        if i > 0 && cfg.budget == 0 {
            break;
        }
        if i > 0 && (!map || cfg.dup_keys) && r.chance(1, 12) {
            // the entry before once more
            let twin = items.iter().rev().find(|i| matches!(i, Item::Entry(_))).cloned();
            items.extend(twin);
            continue;
        }
        if !go_flow && !(depth == 0 && i == 0) {
            while r.chance(cfg.comments, 100) {
                items.push(Item::Comment(gen_comment(r, cfg)));
            }
        }
        let mut key = String::new();
        if map {
            key = gen_key(r, cfg);
            if !(cfg.dup_keys && r.chance(1, 3)) {
                let base = key.clone();
                let mut k = 0;
                while used.contains(&key) {
                    k += 1;
                    key = format!("{}{}", base, k);
                }
            }
            used.push(key.clone());
        }
        let alias = if !go_flow && r.chance(cfg.aliases, 100) { Some(gen_name(r, cfg)) } else { None };
        let node = gen_node(r, cfg, depth + 1, go_flow);
        // `&a *b` is legal here, but has no meaning in YAML
        let alias = if matches!(node, Node::Ref(_)) { None } else { alias };
        let leaf = node.is_leaf() && !node.is_block_scalar();
        items.push(Item::Entry(Entry { key, alias, node }));
        if !go_flow && leaf && r.chance(cfg.comments, 100) {
            items.push(Item::Inline(gen_comment(r, cfg)));
        }
    }
    if map {
        Node::Map { flow: go_flow, items }
    } else {
        Node::Seq { flow: go_flow, items }
    }
}

pub fn gen_doc(r: &mut Rng, cfg: &mut Cfg) -> Doc {
    let list = |r: &mut Rng, cfg: &mut Cfg| {
        let mut v = Vec::new();
        while r.chance(cfg.comments, 100) {
            v.push(gen_comment(r, cfg));
        }
        v
    };
    let lead = list(r, cfg);
    let pre = list(r, cfg);
    let root = gen_node(r, cfg, 0, false);
    let post = list(r, cfg);
    let mut d = Doc { lead, pre, root, post };
    if cfg.extreme {
        extreme(r, cfg, &mut d);
    }
    d
}

/// A length from a few to about 3000, near powers of two and tens more often than elsewhere.
pub fn long(r: &mut Rng, most: usize) -> usize {
    let n = match r.below(3) {
        0 => (1 << (4 + r.below(8))) + r.below(3),
        1 => *r.pick(&[80, 90, 100, 120, 200, 256, 360, 400, 500, 512, 1000, 1024]) + r.below(5),
        _ => 50 + r.below(3000),
    };
    (n - 1) % most + 1
}

fn long_plain(r: &mut Rng, unicode: bool, flow: bool, n: usize) -> String {
    let mut s = gen_plain(r, unicode, flow);
    let short = r.chance(1, 3);
    let mut misses = 0;
    while s.len() < n && misses < 100 {
        let w = if short { r.pick(LETTERS).to_string() } else { format!(" {}", gen_word(r, unicode)) };
        let t = format!("{}{}", s, w);
        if plain_ok(&t, flow) {
            s = t;
        } else {
            misses += 1;
        }
    }
    s
}

/// The n-th leaf, counted around.
fn leaf_mut<'a>(n: &'a mut Node, flow: bool, at: &mut usize) -> Option<(&'a mut Node, bool)> {
    let flow = flow || matches!(n, Node::Map { flow: true, .. } | Node::Seq { flow: true, .. });
    match n {
        Node::Map { items, .. } | Node::Seq { items, .. } => {
            for i in items.iter_mut() {
                if let Item::Entry(e) = i {
                    if let Some(l) = leaf_mut(&mut e.node, flow, at) {
                        return Some(l);
                    }
                }
            }
            None
        }
        _ if *at == 0 => Some((n, flow)),
        _ => {
            *at -= 1;
            None
        }
    }
}

/// Puts the comments before the n-th entry that may have comments before it; the number of such entries seen.
fn comment_places(n: &mut Node, top: bool, at: &mut usize, v: &mut Vec<String>) -> usize {
    let (Node::Map { flow: false, items } | Node::Seq { flow: false, items }) = n else { return 0 };
    let mut seen = 0;
    let mut i = 0;
    while i < items.len() {
        if matches!(items[i], Item::Entry(_)) {
            if !(top && i == 0) {
                if *at == 0 && !v.is_empty() {
                    items.splice(i..i, v.drain(..).map(Item::Comment));
                    return seen + 1;
                }
                *at = at.saturating_sub(1);
                seen += 1;
            }
            if let Item::Entry(e) = &mut items[i] {
                seen += comment_places(&mut e.node, false, at, v);
            }
        }
        i += 1;
    }
    seen
}

/// Makes one dimension of the document large.
fn extreme(r: &mut Rng, cfg: &mut Cfg, d: &mut Doc) {
    let u = cfg.unicode;
    match r.below(8) {
        // a long scalar
        0 | 1 | 2 => {
            let mut at = r.below(6);
            while at > 0 && leaf_mut(&mut d.root, false, &mut at.clone()).is_none() {
                at -= 1;
            }
            let Some((n, flow)) = leaf_mut(&mut d.root, false, &mut at) else { return };
            let Node::Scalar(s) = n else { return };
            // a comment may follow what fits on a line only
            match (&mut s.src, s.style) {
                (Src::None, _) => {
                    let most = long(r, 6000);
                    s.value = long_plain(r, u, flow, most);
                }
                (Src::Quoted(ps), style) => {
                    let double = style == Style::Double;
                    match r.below(3) {
                        0 => {
                            let most = long(r, 6000);
                            ps.push(Piece::Esc(if double { 'n' } else { '\'' }));
                            let t = long_plain(r, u, false, most).replace(['"', '\'', '\\'], "_");
                            ps.push(Piece::Text(t));
                        }
                        1 if cfg.breaks => {
                            let n = long(r, 400);
                            if matches!(ps.last(), Some(Piece::Break(_))) {
                                ps.pop();
                            }
                            ps.push(Piece::Break(n));
                        }
                        _ => {
                            for _ in 0..long(r, 400) {
                                ps.push(Piece::Esc(if double { *r.pick(&['n', 'r', 't', '"', '\\']) } else { '\'' }));
                                if r.chance(1, 2) {
                                    ps.push(Piece::Text(r.pick(LETTERS).to_string()));
                                }
                            }
                        }
                    }
                    s.value = decode_pieces(ps, double);
                }
                (Src::Lines(ls), style) => {
                    match r.below(3) {
                        0 => {
                            let n = long(r, 400);
                            ls.extend(std::iter::repeat(String::new()).take(n));
                        }
                        1 => {
                            let n = long(r, 6000);
                            let l = long_plain(r, u, false, n);
                            let at = r.below(ls.len());
                            ls.insert(at, l);
                        }
                        _ => {
                            for _ in 0..long(r, 300) {
                                let at = r.below(ls.len());
                                let l = if r.chance(1, 3) { String::new() } else { gen_plain(r, u, false) };
                                ls.insert(at, l);
                            }
                        }
                    }
                    s.value = if style == Style::Literal { literal(ls, s.chomp) } else { fold(ls, s.chomp) };
                }
            }
        }
        // deep
        3 | 4 => {
            if matches!(d.root, Node::Map { flow: true, .. } | Node::Seq { flow: true, .. }) || r.chance(1, 4) {
                if cfg.comments > 0 || !cfg.flow {
                    return;
                }
                let mut n = Node::Seq { flow: true, items: vec![] };
                for _ in 0..long(r, 100) {
                    let map = r.chance(1, 3);
                    let e = Item::Entry(Entry { key: if map { "k".to_string() } else { String::new() }, alias: None, node: n });
                    n = if map { Node::Map { flow: true, items: vec![e] } } else { Node::Seq { flow: true, items: vec![e] } };
                }
                d.root = n;
                return;
            }
            let maps = r.below(4);
            for _ in 0..long(r, 160) {
                let map = r.chance(maps, 3);
                let key = if map { r.pick(&["a", "b", "k x"]).to_string() } else { String::new() };
                let node = std::mem::replace(&mut d.root, plain("x"));
                let mut items = vec![Item::Entry(Entry { key, alias: None, node })];
                if r.chance(1, 12) {
                    items.push(Item::Entry(Entry { key: if map { "z".to_string() } else { String::new() }, alias: None, node: plain("1") }));
                }
                d.root = if map { Node::Map { flow: false, items } } else { Node::Seq { flow: false, items } };
            }
        }
        // wide
        5 => {
            let (Node::Map { items, flow } | Node::Seq { items, flow }) = &mut d.root else { return };
            let flow = *flow;
            for i in 0..long(r, 1200) {
                let node = if r.chance(1, 20) { Node::Scalar(gen_scalar(r, cfg, flow)) } else { plain(&format!("v{}", i)) };
                items.push(Item::Entry(Entry { key: format!("K{}", i), alias: None, node }));
            }
            if let Node::Seq { items, .. } = &mut d.root {
                for i in items.iter_mut() {
                    if let Item::Entry(e) = i {
                        e.key.clear();
                    }
                }
            }
        }
        // a long key and a long name
        6 => {
            let (Node::Map { items, flow } | Node::Seq { items, flow }) = &mut d.root else { return };
            let flow = *flow;
            let Some(Item::Entry(e)) = items.iter_mut().rev().find(|i| matches!(i, Item::Entry(_))) else { return };
            let n = long(r, 4000);
            if !e.key.is_empty() {
                e.key = gen_odd_key(r, u);
                while e.key.len() < n {
                    e.key.push_str(&gen_odd_key(r, u));
                }
            }
            if e.alias.is_some() && !flow {
                e.alias = Some((0..n).map(|_| *r.pick(LETTERS)).collect());
            }
        }
        // many or long comments before and after
        _ => {
            if cfg.comments == 0 {
                return;
            }
            let mut v = Vec::new();
            if r.chance(1, 2) {
                for _ in 0..long(r, 400) {
                    v.push(gen_comment(r, cfg));
                }
            } else {
                let n = long(r, 4000);
                let mut c = gen_comment(r, cfg);
                while c.len() < n {
                    c.push(' ');
                    c.push_str(&gen_word(r, u));
                }
                v.push(c);
            }
            match r.below(6) {
                0 => d.lead.extend(v),
                1 => d.pre.extend(v),
                2 => d.post.extend(v),
                _ => {
                    let mut at = r.below(20);
                    let n = comment_places(&mut d.root, true, &mut usize::MAX.clone(), &mut Vec::new());
                    if n > 0 {
                        at %= n;
                        comment_places(&mut d.root, true, &mut at, &mut v);
                    }
                }
            }
        }
    }
}
