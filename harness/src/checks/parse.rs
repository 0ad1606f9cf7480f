//! C01 to C08: parsing and formatting.
use crate::engine::*;
use crate::fuzz::*;
use crate::model::*;
use crate::proj;
use crate::render::*;
use crate::rng::Rng;
use yaml_subset::yaml::{parse_yaml_file, Document};

pub fn describe(ctx: &mut Ctx, n: &Node) {
    match n {
        Node::Scalar(s) => ctx.hit(&format!("scalar {:?}{}", s.style, if s.style.block() { format!(" {}", s.chomp) } else { String::new() })),
        Node::Ref(_) => ctx.hit("reference"),
        Node::Map { flow, .. } | Node::Seq { flow, .. } => {
            ctx.hit(match (matches!(n, Node::Map { .. }), flow) {
                (true, true) => "flow mapping",
                (true, false) => "block mapping",
                (false, true) => "flow sequence",
                (false, false) => "block sequence",
            });
            for e in n.entries() {
                if e.alias.is_some() {
                    ctx.hit("alias");
                }
                describe(ctx, &e.node);
            }
        }
    }
}

pub fn parse_ok(text: &str) -> Result<Document, String> {
    parse_yaml_file(text).map_err(|e| format!("a well-formed document is rejected:\n{}", e))
}

pub fn diff(what: &str, want: &str, got: &str) -> String {
    format!("{}\nexpected: {}\nactual:   {}", what, want, got)
}

const DATA_STYLES: Show = Show { comments: false, comment_kind: false, style: true, plainness: true, flow: true, alias: true };

fn case(r: &mut Rng, ctx: &mut Ctx, tune: impl Fn(&mut Cfg, &mut Rng)) -> Doc {
    let mut cfg = Cfg::random(r, ctx.size);
    tune(&mut cfg, r);
    let d = gen_doc(r, &mut cfg);
    ctx.max("depth", d.root.depth() as u64);
    ctx.max("nodes", d.root.count() as u64);
    d
}

fn c01(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let d = case(r, ctx, |_, _| {});
    let mut l = Layout::random(r);
    if r.chance(1, 12) {
        l.limits = true;
        l.compact = 100;
        l.indicator = 60;
    }
    let (text, marks) = render(&d, l, r);
    ctx.say(text.clone());
    if d.root.depth() > 2 {
        ctx.distinct(&text);
    }
    describe(ctx, &d.root);
    // what a known finding rejects must not be accepted with another meaning
    if marks.iter().any(|m| matches!(m, Mark::Limited)) && parse_yaml_file(&text).is_err() {
        ctx.hit("layouts of the known findings, rejected");
        return Ok(());
    }
    c01_oracle(&d, &text)
}

fn c01_oracle(d: &Doc, text: &str) -> Res {
    let got = proj::doc(&parse_ok(text)?)?;
    let (w, g) = (d.dump(DATA_STYLES), got.dump(DATA_STYLES));
    if w != g {
        return Err(diff("the parsed data differs from what the text denotes", &w, &g));
    }
    Ok(())
}

fn c02(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let unique = !r.chance(1, 4);
    let mut d = case(r, ctx, |c, r| {
        c.comments = *r.pick(&[5, 15, 40, 60]);
        c.unique_comments = unique;
    });
    if !unique {
        // few texts, so that the same ones follow each other
        let texts = [String::new(), d.comments().pop().unwrap_or_default(), " x".to_string()];
        let n = 1 + r.below(3);
        d.each_comment(&mut |c| {
            if !r.chance(1, 8) {
                *c = texts[r.below(n)].clone();
            }
        });
    }
    let l = Layout::random(r);
    let (text, _) = render(&d, l, r);
    ctx.say(text.clone());
    let wanted = d.comments();
    ctx.add("comments", wanted.len() as u64);
    if !wanted.is_empty() {
        ctx.distinct(&text);
    }
    let parsed = parse_ok(&text)?;
    let got = proj::doc(&parsed)?;
    if got.comments() != wanted {
        return Err(diff("the comments differ", &format!("{:?}", wanted), &format!("{:?}", got.comments())));
    }
    let (w, g) = (d.dump(FULL), got.dump(FULL));
    if w != g {
        return Err(diff("a comment is at another place", &w, &g));
    }
    let out = parsed.format().map_err(|e| format!("format fails: {}", e))?;
    if !unique {
        ctx.hit("repeated or empty comments");
        let hashes = |t: &str| t.matches('#').count();
        if hashes(&out) != hashes(&text) {
            return Err(diff("the formatted text does not have each comment once", &text, &out));
        }
        let again = proj::doc(&parse_ok(&out)?)?.comments();
        if again != wanted {
            return Err(diff("the formatted text has other comments", &format!("{:?}", wanted), &format!("{:?}", again)));
        }
        return Ok(());
    }
    let marks = |t: &str| -> Vec<String> {
t.split('«').skip(1).filter_map(|p| p.split_once('»').map(|x| x.0.to_string())).collect()
    };
    let wm: Vec<String> = wanted.iter().flat_map(|c| marks(c)).collect();
    if marks(&out) != wm {
        return Err(diff("the formatted text does not have each comment once, in order", &format!("{:?}", wm), &out));
    }
    // each ends its line, with the whole of its text
    let mut lines = out.split('\n').filter(|l| !marks(l).is_empty());
    for c in wanted.iter().filter(|c| !marks(c).is_empty()) {
        let line = lines.next().unwrap_or("");
        if !line.ends_with(&format!("#{}", c)) {
            return Err(format!("the comment {:?} does not end its line in the formatted text: {:?}", c, line));
        }
    }
    Ok(())
}

pub fn roundtrip(text: &str, ctx: &mut Ctx) -> Res {
    match parse_yaml_file(text) {
        Err(_) => {
            ctx.hit("rejected");
            Ok(())
        }
        Ok(d) => {
            ctx.hit("accepted");
            if let Ok(g) = proj::doc(&d) {
                if g.root.count() > 2 {
                    ctx.distinct(text);
                }
            }
            roundtrip_doc(&d)
        }
    }
}

pub fn roundtrip_doc(d: &Document) -> Res {
    let out = d.format().map_err(|e| format!("format fails: {}", e))?;
    let d2 = parse_yaml_file(&out).map_err(|e| format!("the formatted text is rejected:\n{}\n--- formatted\n{}", e, out))?;
    if d != &d2 {
        return Err(format!("the formatted text has another meaning\n--- formatted\n{}\nfirst:  {:?}\nsecond: {:?}", out, d, d2));
    }
    Ok(())
}

fn c03(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let (kind, text) = any_text(r, ctx.size);
    ctx.say(text.clone());
    ctx.hit(kind);
    roundtrip(&text, ctx)
}

fn c04(r: &mut Rng, ctx: &mut Ctx) -> Res {
    if r.chance(1, 3) {
        let (kind, text) = any_text(r, ctx.size);
        ctx.hit(kind);
        ctx.say(text.clone());
        return match parse_yaml_file(&text) {
            Err(_) => Ok(()),
            Ok(d) => {
                ctx.hit("accepted");
                ctx.distinct(&text);
                idempotent(&d)
            }
        };
    }
    let d = case(r, ctx, |_, _| {});
    let mut first: Option<(String, String)> = None;
    for _ in 0..3 {
        let l = Layout::random(r);
        let (text, _) = render(&d, l, r);
        ctx.say(text.clone());
        ctx.hit("layouts");
        let p = parse_ok(&text)?;
        idempotent(&p)?;
        let out = p.format().map_err(|e| e.to_string())?;
        match &first {
            None => {
                if d.root.depth() > 1 {
                    ctx.distinct(&out);
                }
                first = Some((text, out))
            }
            Some((t0, o0)) if *o0 != out => {
                ctx.say(format!("{}\n--- other layout\n{}", t0, text));
                return Err(diff("two layouts of one document are formatted differently", o0, &out));
            }
            _ => {}
        }
    }
    Ok(())
}

fn idempotent(d: &Document) -> Res {
    let out = d.format().map_err(|e| format!("format fails: {}", e))?;
    let d2 = parse_yaml_file(&out).map_err(|e| format!("the formatted text is rejected:\n{}\n--- formatted\n{}", e, out))?;
    let out2 = d2.format().map_err(|e| format!("format fails: {}", e))?;
    if out != out2 {
        return Err(diff("formatting twice changes the text", &out, &out2));
    }
    Ok(())
}

/// The characters that are no white space; with it, whether they may be those of an indentation indicator.
fn squeeze(t: &str) -> Vec<(char, bool)> {
    let mut v = Vec::new();
    for l in t.split(['\n', '\r']) {
        let l = l.trim_end();
        let digits = l.len() - l.trim_end_matches(|c: char| c.is_ascii_digit()).len();
        let head = &l[..l.len() - digits];
        let header = head.ends_with(['|', '>']) || head.ends_with("|-") || head.ends_with("|+") || head.ends_with(">-") || head.ends_with(">+");
        v.extend(l.char_indices().filter(|(_, c)| !c.is_whitespace()).map(|(i, c)| (c, header && i >= head.len())));
    }
    v
}

/// Whether they are the same but for indicators, which the parser and formatter may leave out.
fn same_characters(a: &[(char, bool)], b: &[(char, bool)]) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(0, 0)];
    while let Some((mut i, mut j)) = todo.pop() {
        loop {
            if i == a.len() && j == b.len() {
                return true;
            }
            let (x, y) = (a.get(i), b.get(j));
            if x.map_or(false, |x| x.1) && seen.insert((i, j, 0)) {
                todo.push((i + 1, j));
            }
            if y.map_or(false, |y| y.1) && seen.insert((i, j, 1)) {
                todo.push((i, j + 1));
            }
            match (x, y) {
                (Some(x), Some(y)) if x.0 == y.0 => {
                    i += 1;
                    j += 1;
                }
                _ => break,
            }
        }
    }
    false
}

fn c06(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let (kind, text) = any_text(r, ctx.size);
    ctx.say(text.clone());
    ctx.hit(kind);
    c06_oracle(&text, ctx)
}

fn c06_oracle(text: &str, ctx: &mut Ctx) -> Res {
    let d = match parse_yaml_file(text) {
        Err(_) => {
            ctx.hit("rejected");
            return Ok(());
        }
        Ok(d) => d,
    };
    ctx.hit("accepted");
    if text.len() > 20 {
        ctx.distinct(text);
    }
    let out = d.format().map_err(|e| format!("format fails: {}", e))?;
    let (a, b) = (squeeze(text), squeeze(&out));
    ctx.add("characters", a.len() as u64);
    if !same_characters(&a, &b) {
        let i = a.iter().zip(&b).take_while(|(x, y)| x.0 == y.0).count();
        let show = |v: &[(char, bool)]| v[i..].iter().take(30).map(|x| x.0).collect::<String>();
        return Err(format!("the formatted text has other characters, from character {}: {:?} became {:?}\n--- formatted\n{}", i, show(&a), show(&b), out));
    }
    Ok(())
}


// ---------------------------------------------------------------------------------------------

fn text_len(y: &yaml_subset::yaml::Yaml) -> usize {
    use yaml_subset::yaml::YamlTypes;
    y.as_string().map_or(0, |s| s.len())
}

/// Every read-only or consuming operation on an accepted document; none may panic.
pub fn exercise(d: &Document, ctx: &mut Ctx) -> Res {
    use yaml_subset::yaml::{from_yaml, DocumentData, MapYaml, Pretty, VisitYaml, Yaml, YamlInsert, YamlTypes};
    let step = |what: &str, r: Result<(), String>| r.map_err(|e| format!("{} panics: {}", what, e));
    step("format", guarded(|| drop(d.format())))?;
    step("pretty", guarded(|| drop(d.clone().pretty().format())))?;
    let mut n = 0u64;
    for i in &d.items {
        if let DocumentData::Yaml(y) = i {
            step("as_string", guarded(|| {
                y.visit_yaml(&mut |a| {
                    n += 1;
                    let _ = a.as_string();
                    let _ = a.value.as_string();
                })
            }))?;
            step("map_yaml", guarded(|| drop(y.clone().map_yaml(&mut |y| y))))?;
            step("from_yaml", guarded(|| {
                let _ = yaml_subset::yaml::from_yaml::<crate::types::Any>(y.clone());
                let _ = yaml_subset::yaml::from_yaml::<std::collections::BTreeMap<String, crate::types::Any>>(y.clone());
                let _ = yaml_subset::yaml::from_yaml::<Vec<crate::types::Any>>(y.clone());
                let _ = yaml_subset::yaml::from_yaml::<Vec<Option<i8>>>(y.clone());
            }))?;
            let mut values = Vec::new();
            y.visit_yaml(&mut |a| {
                let leaf = !matches!(a.value, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineHash(_) | Yaml::InlineArray(_));
                if values.len() < 5 || values.len() < 40 && leaf && text_len(&a.value) > 24 {
                    values.push(a.value.clone())
                }
            });
            for v in values {
                let r = guarded(|| {
                    fn read<T: serde::de::DeserializeOwned>(v: &Yaml) -> u8 {
                        from_yaml::<T>(v.clone()).is_ok() as u8
                    }
                    #[derive(serde::Deserialize)]
                    #[allow(dead_code)]
                    enum E {
                        #[serde(rename = "a")]
                        A,
                        B(u8),
                        C { a: u8 },
                        D(u8, u8),
                    }
                    #[derive(serde::Deserialize)]
                    #[allow(dead_code)]
                    struct S {
                        a: Option<String>,
                        b: Option<bool>,
                    }
                    #[derive(serde::Deserialize)]
                    #[serde(untagged)]
                    #[allow(dead_code)]
                    enum U {
                        N(i64),
                        F(f64),
                        B(bool),
                        S(S),
                        T(String),
                    }
                    let _ = read::<bool>(&v) + read::<i8>(&v) + read::<u8>(&v) + read::<i64>(&v) + read::<u64>(&v) + read::<i128>(&v);
                    let _ = read::<f32>(&v) + read::<f64>(&v) + read::<char>(&v) + read::<String>(&v) + read::<()>(&v);
                    let _ = read::<Option<bool>>(&v) + read::<Option<String>>(&v) + read::<E>(&v) + read::<S>(&v) + read::<U>(&v);
                    let _ = read::<(u8, String)>(&v) + read::<Vec<u8>>(&v) + read::<std::collections::BTreeMap<u8, bool>>(&v);
                    let _ = read::<serde::de::IgnoredAny>(&v) + read::<Box<[char]>>(&v);
                });
                r.map_err(|e| format!("from_yaml of {} panics: {}", format!("{:?}", v).chars().take(200).collect::<String>(), e))?;
                n += 20;
            }
        }
    }
    let mut dm = d.clone();
    for p in ["a", "[0].a", "[*]", "a[*].b", "k|x=1.y"] {
        if let Ok(p) = p.parse::<yaml_subset::YamlPath>() {
            step("find_values", guarded(|| drop(dm.find_values(&p))))?;
        }
    }
    ctx.add("values exercised", n);
    Ok(())
}

fn c05(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let (kind, text) = match r.below(12) {
        0 => ("random characters", {
            let n = r.below(30 + ctx.size * 4);
            (0..n).map(|_| char::from_u32(match r.below(4) { 0 => r.below(128) as u32, 1 => r.below(0x800) as u32, 2 => 32 + r.below(96) as u32, _ => r.below(0x110000) as u32 }).unwrap_or('\n')).collect::<String>()
        }),
        1 => ("deep", deep(r)),
        _ => any_text(r, ctx.size),
    };
    ctx.hit(kind);
    ctx.say(text.clone());
    c05_oracle(&text, ctx)
}

/// Nested up to 250 deep, in one of the ways of nesting, possibly damaged.
pub fn deep(r: &mut Rng) -> String {
    let n = if r.chance(1, 6) { long(r, 250) } else { 1 + r.below(60) };
    let mut s = String::from("---\n");
    match r.below(6) {
        0 => {
            for i in 0..n {
                s.push_str(&format!("{}k:\n", " ".repeat(i)));
            }
            s.push_str(&format!("{}z: 1\n", " ".repeat(n)));
        }
        1 => {
            s.push_str(&"- ".repeat(n));
            s.push_str("x\n");
        }
        2 => {
            for i in 0..n {
                s.push_str(&format!("{}-\n", " ".repeat(i)));
            }
            s.push_str(&format!("{}- x\n", " ".repeat(n)));
        }
        3 => s.push_str(&format!("{}{}\n", "[".repeat(n), "]".repeat(n))),
        4 => s.push_str(&format!("k: {}x{}\n", "{a: ".repeat(n), "}".repeat(n))),
        _ => {
            for i in 0..n {
                s.push_str(&format!("{}- a:\n", "    ".repeat(i)));
            }
            s.push_str(&format!("{}z: |2\n{}x\n", "    ".repeat(n), "    ".repeat(n + 1)));
        }
    }
    if r.chance(1, 3) {
        mutate(r, &s)
    } else {
        s
    }
}

fn c05_oracle(text: &str, ctx: &mut Ctx) -> Res {
    match guarded(|| parse_yaml_file(text)).map_err(|e| format!("parsing panics: {}", e))? {
        Ok(d) => {
            ctx.hit("accepted");
            ctx.distinct(text);
            exercise(&d, ctx)
        }
        Err(e) => {
            ctx.hit("rejected");
            if text.len() > 12 {
                ctx.distinct(text);
            }
            let (line, col) = e.location();
            let lines: Vec<&str> = text.split('\n').collect();
            if line < 1 || line > lines.len() {
                return Err(format!("the error is at line {} of {}", line, lines.len()));
            }
            let width = lines[line - 1].chars().count();
            if col < 1 || col > width + 1 {
                return Err(format!("the error is at column {} of line {}, which has {}", col, line, width));
            }
            let shown = guarded(|| format!("{}", e)).map_err(|e| format!("showing the error panics: {}", e))?;
            if !shown.contains(&format!("--> {}:{}\n", line, col)) {
                return Err(format!("the error's location is {:?}, its text says\n{}", (line, col), shown));
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------

fn c07(r: &mut Rng, ctx: &mut Ctx) -> Res {
    for _ in 0..30 {
        let d = case(r, ctx, |c, r| {
            c.max_depth = c.max_depth.max(2);
            c.comments = c.comments.min(15);
            if r.chance(1, 2) {
                c.flow = true;
                c.single = true;
                c.double = true;
            }
        });
        let mut l = Layout::random(r);
        l.crlf = false;
        let (text, marks) = render(&d, l, r);
        let kind = r.below(20);
        if let Some((what, bad)) = fault(r, kind, &text, &marks) {
            ctx.hit(what);
            ctx.say(format!("{}\n--- fault: {}; the text without it\n{}", bad, what, text));
            ctx.distinct(&bad);
            // the text without the fault is accepted, so the fault is what makes it malformed
            parse_ok(&text)?;
            return match parse_yaml_file(&bad) {
                Err(_) => Ok(()),
                Ok(got) => Err(format!("malformed ({}), but accepted as\n{}", what, got.format().unwrap_or_default())),
            };
        }
    }
    ctx.hit("no place for a fault");
    Ok(())
}

fn splice(text: &str, from: usize, to: usize, with: &str) -> String {
    format!("{}{}{}", &text[..from], with, &text[to..])
}

/// Moves the line holding `at` so that `at` is at column `col`.
fn reindent(text: &str, at: usize, col: usize) -> String {
    let start = text[..at].rfind('\n').map_or(0, |p| p + 1);
    splice(text, start, at, &" ".repeat(col))
}

/// The columns of the alias names before the entry at `at`, with only dashes between them.
fn aliased_columns(text: &str, at: usize) -> Vec<usize> {
    let start = text[..at].rfind('\n').map_or(0, |p| p + 1);
    let line = &text[start..at];
    if line.split(' ').all(|w| w.is_empty() || w == "-" || w.starts_with('&')) {
        line.match_indices('&').map(|(i, _)| line[..i].chars().count()).collect()
    } else {
        Vec::new()
    }
}

fn fault(r: &mut Rng, kind: usize, text: &str, marks: &[Mark]) -> Option<(&'static str, String)> {
    let pick = |r: &mut Rng, v: Vec<usize>| if v.is_empty() { None } else { Some(v[r.below(v.len())]) };
    let ids = |f: &dyn Fn(&Mark) -> bool| -> Vec<usize> { marks.iter().enumerate().filter(|(_, m)| f(m)).map(|(i, _)| i).collect() };
    // the containers around entry i, outermost first, as (id, column, map)
    let around = |i: usize| -> Vec<(usize, usize, bool)> {
        let mut st: Vec<(usize, usize, bool)> = Vec::new();
        for m in &marks[..=i] {
            if let Mark::Entry { col, id, map, .. } = m {
                while st.iter().any(|s| s.0 == *id) && st.last().map(|s| s.0) != Some(*id) {
                    st.pop();
                }
                if st.last().map(|s| s.0) != Some(*id) {
                    st.push((*id, *col, *map));
                }
            }
        }
        st
    };
    // entries of the previous sibling's subtree, itself included
    let before = |i: usize| -> Vec<Mark> {
        if let Mark::Entry { id, .. } = marks[i] {
            let start = (0..i).rev().find(|j| matches!(marks[*j], Mark::Entry { id: x, .. } if x == id)).unwrap_or(0);
            marks[start..i].iter().filter(|m| matches!(m, Mark::Entry { .. })).cloned().collect()
        } else {
            Vec::new()
        }
    };
    let entries = ids(&|m| matches!(m, Mark::Entry { own_line: true, first: false, .. }));
    match kind {
        0 => {
            if let Some(Mark::Start(at)) = marks.first() {
                let other = *r.pick(&["", "", "--", "-", "----", "-----", "---x", "--- x", "x---", "***", "...", "- - -", "---:", "--- ---"]);
                return Some((if other.is_empty() { "no document marker" } else { "another document marker" }, splice(text, *at, at + 3, other)));
            }
            None
        }
        1 => {
            let i = pick(r, ids(&|m| matches!(m, Mark::Quoted { to, double, .. } if !text[*to..].contains(if *double { '"' } else { '\'' }))))?;
            let Mark::Quoted { to, .. } = marks[i] else { return None };
            Some(("unterminated quoted string", splice(text, to - 1, to, "")))
        }
        2 => {
            let i = pick(
                r,
                ids(&|m| match m {
                    Mark::FlowClose { at, .. } => {
                        // the end of the outermost collection around it
                        let end = marks.iter().find_map(|x| match x {
                            Mark::FlowClose { at: e, depth: 0, .. } if e >= at => Some(*e),
                            _ => None,
                        });
                        end.map_or(false, |e| !text[e + 1..].contains([']', '}']))
                    }
                    _ => false,
                }),
            )?;
            let Mark::FlowClose { at, .. } = marks[i] else { return None };
            Some(("unterminated flow collection", splice(text, at, at + 1, "")))
        }
        3 => {
            let i = pick(r, ids(&|m| matches!(m, Mark::Quoted { .. })))?;
            let Mark::Quoted { to, .. } = marks[i] else { return None };
            Some(("text after a quoted string", splice(text, to, to, *r.pick(&[" x", "x", " 'y'", " [a]", " &a", " \"z\""]))))
                .filter(|(_, b)| !b[to..].starts_with('\''))
        }
        4 => {
            let i = pick(r, ids(&|m| matches!(m, Mark::FlowClose { .. })))?;
            let Mark::FlowClose { at, .. } = marks[i] else { return None };
            Some(("text after a flow collection", splice(text, at + 1, at + 1, *r.pick(&[" x", "x", " 'y'", " [a]", "]", "}", " \"z\""]))))
        }
        5 => {
            let i = pick(r, ids(&|m| matches!(m, Mark::Quoted { double: true, .. })))?;
            let Mark::Quoted { from, .. } = marks[i] else { return None };
            // any character but those that may be escaped; the code of one, too
            let c = loop {
                let c = match r.below(4) {
                    0 => *r.pick(&['0', 'a', 'b', 'e', 'f', 'v', 'x', 'u', 'U', 'N', '_', 'L', 'P', '/', ' ', '\t', '\'', 'é', '(', '%']),
                    1 | 2 => (32 + r.below(95) as u8) as char,
                    _ => char::from_u32(r.below(0x3000) as u32).unwrap_or('q'),
                };
                if !matches!(c, 'n' | 'r' | 't' | '"' | '\\' | '\n' | '\r') {
                    break c;
                }
            };
            let more = if r.chance(1, 3) { *r.pick(&["41", "0041", "00000041", "{41}", "0"]) } else { "" };
            Some(("unknown escape", splice(text, from + 1, from + 1, &format!("\\{}{}", c, more))))
        }
        6 => {
            let i = pick(
                r,
                ids(&|m| match m {
                    Mark::Comma(at) => {
                        let end = text[..*at].trim_end().len();
                        marks.iter().any(|m| match m {
                            Mark::Quoted { to, .. } => *to == end,
                            Mark::FlowClose { at, .. } => at + 1 == end,
                            _ => false,
                        })
                    }
                    _ => false,
                }),
            )?;
            let Mark::Comma(at) = marks[i] else { return None };
            Some(("missing comma", splice(text, at, at + 1, " ")))
        }
        7 => {
            let i = pick(
                r,
                ids(&|m| match m {
                    Mark::FlowColon(at) => {
                        let rest = &text[at + 1..];
                        let end = rest.find([',', '}', ']', '\n', '[', '{', '\'', '"']).unwrap_or(rest.len());
                        !rest[..end].contains(':')
                    }
                    _ => false,
                }),
            )?;
            let Mark::FlowColon(at) = marks[i] else { return None };
            Some(("missing colon", splice(text, at, at + 1, "")))
        }
        8 | 9 => {
            let i = pick(r, entries)?;
            let Mark::Entry { at, col, .. } = marks[i] else { return None };
            let mut used: Vec<usize> = around(i).iter().map(|s| s.1).collect();
            for m in before(i) {
                if let Mark::Entry { col, .. } = m {
                    used.push(col);
                }
            }
            // entries on the line of an alias name may be continued below that name or below the first of them
            for m in marks {
                if let Mark::Entry { at, .. } = m {
                    let c = aliased_columns(text, *at);
                    if !c.is_empty() {
                        used.extend(c);
                        used.extend([text[..*at].chars().rev().take_while(|c| *c != '\n').count()]);
                    }
                }
            }
            let deeper = kind == 9;
            if deeper && text.contains(['|', '>']) {
                return None;
            }
            let options: Vec<usize> = if deeper { (col + 1..col + 9).collect() } else { (0..col).collect() };
            let c = pick(r, options.into_iter().filter(|c| !used.contains(c)).collect())?;
            Some((if deeper { "entry indented too deep" } else { "entry indented too little" }, reindent(text, at, c)))
        }
        10 => {
            let i = pick(r, entries)?;
            let Mark::Entry { at, col, map, .. } = marks[i] else { return None };
            if map {
                if before(i).iter().any(|m| matches!(m, Mark::Entry { map: false, col: c, .. } if *c == col)) {
                    return None;
                }
                let colon = at + text[at..].find(':')?;
                Some(("sequence entry where a key is due", splice(text, at, colon + 1, "-")))
            } else {
                if around(i).iter().any(|s| s.2 && s.1 == col) {
                    return None;
                }
                Some(("key where a sequence entry is due", splice(text, at, at + 1, "zz:")))
            }
        }
        12 | 13 => {
            let plains = ids(&|m| matches!(m, Mark::Plain { .. }));
            let i = if r.chance(1, 4) { *plains.last()? } else { pick(r, plains)? };
            let Mark::Plain { from, to, flow } = marks[i] else { return None };
            let both = ["&", "*", "& x", "* x", "]x", "}x", "*a b", "&a", "&a &b c", ":", ": x", "&a-b c", "* a", "&\tx", "'", "\"", "'x' 'y'", "''x", "\"\"\""];
            let block = ["]", "}", "[]]", "{}}", "[a]b", "-", "|x", "|++", "|--", "|0", "|-+", "||", ">>", "|1a", ">+x", "|-0", ">|", "> x", "| x"];
            let flow_only = ["[", "{", "[}", "{]", "[x}", "{x: y]", "{x}", "{x:}", "{x y}", "{: y}", "[x: y]", "x[y", "x{y", "x}y", "x ]", "x[", "x}"];
            let with = match r.below(3) {
                0 if flow => *r.pick(&flow_only),
                0 | 1 if !flow => *r.pick(&block),
                _ => *r.pick(&both),
            };
            // what follows must not complete it
            if with == "&a" && !flow && !text[to..].trim().is_empty() {
                return None;
            }
            if ["'", "\""].contains(&with) && text[to..].contains(['\'', '"']) || with.contains(['[', '{']) && text[to..].contains([']', '}']) && ["[", "{"].contains(&with) {
                return None;
            }
            Some(("a value that no scalar starts like", splice(text, from, to, with)))
        }
        14 => {
            let i = pick(r, ids(&|m| matches!(m, Mark::Comma(_) | Mark::FlowOpen { .. } | Mark::FlowClose { .. })))?;
            let at = match marks[i] {
                Mark::Comma(at) | Mark::FlowClose { at, .. } => at,
                Mark::FlowOpen { at, .. } => at + 1,
                _ => return None,
            };
            Some(("comma without a value before it", splice(text, at, at, *r.pick(&[",", ", ", " ,", " , "]))))
        }
        15 => {
            let i = pick(r, entries)?;
            let Mark::Entry { at, map, .. } = marks[i] else { return None };
            let end = at + text[at..].find('\n').unwrap_or(text.len() - at);
            let mark = if map { at + text[at..end].find(':')? } else { at };
            let rest = &text[mark + 1..end];
            // `-a: b` is an entry with the key `-a`
            if rest.trim().is_empty() || !map && rest.contains(':') {
                return None;
            }
            let blanks = rest.len() - rest.trim_start().len();
            if rest.trim_start().starts_with(['#', '\r']) || blanks == 0 {
                return None;
            }
            Some(("no blank before a value", splice(text, mark + 1, mark + 1 + blanks, "")))
        }
        16 => {
            let i = pick(r, entries)?;
            let Mark::Entry { at, col, .. } = marks[i] else { return None };
            let start = text[..at].rfind('\n').map_or(0, |p| p + 1);
            if col > 0 && r.chance(1, 2) {
                let j = start + r.below(at - start);
                return Some(("tab in an indentation", splice(text, j, j + 1, "\t")));
            }
            let line = *r.pick(&["xyz", "---", "...", "x y z", "'x'", "\"x\"", "]", "}", "&x", "*x", "[]", "{}", "?", ":", "|", ">", "--- x", "%x", "!x"]);
            Some(("a line that is no entry", splice(text, start, start, &format!("{}\n", line))))
        }
        17 | 18 => {
            // with an alias name before it, the columns of what it belongs to are not the entry's
            let i = pick(
                r,
                ids(&|m| match m {
                    Mark::BlockLine { at, ci, settled: true, .. } => !text[at + ci..].starts_with(['#', ' ', '\t']) && !text.contains('&'),
                    _ => false,
                }),
            )?;
            let Mark::BlockLine { at, col, ci, .. } = marks[i] else { return None };
            if kind == 18 {
                return Some(("tab in the indentation of a block scalar", splice(text, at + ci - 1, at + ci, "\t")));
            }
            let c = pick(r, (col + 1..ci).collect())?;
            Some(("block scalar line indented too little", splice(text, at, at + ci, &" ".repeat(c))))
        }
        _ => {
            let i = pick(r, ids(&|m| matches!(m, Mark::Nested { .. })))?;
            let Mark::Nested { id, parent, parent_map, map } = marks[i] else { return None };
            let of = |want: usize| marks.iter().find_map(|m| match m { Mark::Entry { id, col, at, .. } if *id == want => Some((*at, *col)), _ => None });
            let (at, _) = of(id)?;
            let (pat, pcol) = of(parent)?;
            // an entry after an alias name may start where that name starts
            let pcol = aliased_columns(text, pat).last().copied().unwrap_or(pcol);
            let limit = if parent_map && !map { pcol } else { pcol + 1 };
            if limit == 0 {
                return None;
            }
            let c = r.below(limit);
            Some(("nested entries not indented deeper", reindent(text, at, c)))
        }
    }
}

fn c07_known(t: &str, _: &mut Ctx) -> Res {
    match parse_yaml_file(t) {
        Err(_) => Ok(()),
        Ok(_) => Err("malformed, but accepted".to_string()),
    }
}

// ---------------------------------------------------------------------------------------------

fn lib_scalars(y: &yaml_subset::yaml::Yaml, out: &mut Vec<(String, Option<String>)>) {
    use yaml_subset::yaml::{ArrayData, HashData, Yaml, YamlTypes};
    match y {
        Yaml::Hash(v) => v.iter().for_each(|d| if let HashData::Element(e) = d { lib_scalars(&e.value.value, out) }),
        Yaml::Array(v) => v.iter().for_each(|d| if let ArrayData::Element(e) = d { lib_scalars(&e.value, out) }),
        Yaml::InlineHash(v) => v.iter().for_each(|e| lib_scalars(&e.1, out)),
        Yaml::InlineArray(v) => v.iter().for_each(|e| lib_scalars(e, out)),
        y => out.push((format!("{:?}", y), y.as_string())),
    }
}
fn model_scalars<'a>(n: &'a Node, out: &mut Vec<Option<&'a Scalar>>) {
    match n {
        Node::Scalar(s) => out.push(Some(s)),
        Node::Ref(_) => out.push(None),
        n => n.entries().iter().for_each(|e| model_scalars(&e.node, out)),
    }
}

fn c08(r: &mut Rng, ctx: &mut Ctx) -> Res {
    use yaml_subset::yaml::{string::*, DocumentData};
    if r.chance(1, 4) {
        return c08_direct(r, ctx);
    }
    let d = case(r, ctx, |c, r| {
        c.block = true;
        c.breaks = r.chance(2, 3);
    });
    let l = Layout::random(r);
    let (text, _) = render(&d, l, r);
    ctx.say(text.clone());
    ctx.distinct(&text);
    let got = parse_ok(&text)?;
    let y = got.items.iter().find_map(|i| if let DocumentData::Yaml(y) = i { Some(y) } else { None }).ok_or("no value")?;
    let (mut a, mut b) = (Vec::new(), Vec::new());
    lib_scalars(y, &mut a);
    model_scalars(&d.root, &mut b);
    if a.len() != b.len() {
        return Err(format!("{} scalars where the text has {}", a.len(), b.len()));
    }
    for ((shown, s), m) in a.iter().zip(&b) {
        match m {
            None if s.is_none() => {}
            None => return Err(format!("a reference has the string value {:?}", s)),
            Some(m) => {
                ctx.hit(&format!("{:?}{}", m.style, if m.style.block() { m.chomp } else { ' ' }));
                if s.as_deref() != Some(&m.value[..]) {
                    return Err(diff(&format!("a scalar decodes to another string: {}", shown), &format!("{:?}", m.value), &format!("{:?}", s)));
                }
            }
        }
    }
    // the same scalars read through serde, where the root allows it
    if let Node::Map { .. } = d.root {
        let last: std::collections::BTreeMap<String, &Entry> = d.root.entries().into_iter().map(|e| (e.key.clone(), e)).collect();
        for (k, e) in last.iter().filter(|(_, e)| matches!(&e.node, Node::Scalar(s) if s.style != Style::Plain)) {
            let Node::Scalar(s) = &e.node else { continue };
            if d.root.entries().iter().filter(|x| x.key == *k).count() > 1 {
                continue;
            }
            let v: String = yaml_subset::yaml::from_yaml(crate::proj::yaml(&e.node)).map_err(|e| format!("reading a string fails: {}", e.0))?;
            ctx.hit("read through serde");
            if v != s.value {
                return Err(diff("a scalar reads as another string", &format!("{:?}", s.value), &format!("{:?}", v)));
            }
        }
    }
    let _ = parse_literal;
    Ok(())
}

fn c08_direct(r: &mut Rng, ctx: &mut Ctx) -> Res {
    use yaml_subset::yaml::{string::*, Yaml};
    if r.chance(1, 2) {
        let n = 1 + if r.chance(1, 40) { long(r, 400) } else { r.below(7) };
        let mut lines: Vec<String> = (0..n)
            .map(|_| match r.below(6) {
                0 | 1 => String::new(),
                2 => format!("{}{}", " ".repeat(1 + r.below(3)), gen_plain(r, true, false)),
                3 => format!("\t{}", gen_plain(r, true, false)),
                4 => " ".repeat(1 + r.below(3)),
                _ => gen_plain(r, true, false),
            })
            .collect();
        if r.chance(1, 12) {
            // none but empty lines
            lines.iter_mut().for_each(|l| l.clear());
        }
        if lines.iter().all(|l| l.is_empty()) {
            ctx.hit("only empty lines");
        }
        let c = *r.pick(&['c', 's', 'k']);
        ctx.say(format!("lines {:?} chomping {}", lines, c));
        ctx.distinct(&ctx.input.clone());
        ctx.hit("lines decoded directly");
        let refs: Vec<&str> = lines.iter().map(|l| &l[..]).collect();
        let (wl, wf) = (literal(&lines, c), fold(&lines, c));
        let (gl, gf) = (parse_literal(refs.clone(), crate::proj::unchomp(c)), parse_folded(refs, crate::proj::unchomp(c)));
        if wl != gl {
            return Err(diff("literal", &format!("{:?}", wl), &format!("{:?}", gl)));
        }
        if wf != gf {
            return Err(diff("folded", &format!("{:?}", wf), &format!("{:?}", gf)));
        }
    } else {
        let double = r.chance(1, 2);
        let ps = gen_quoted(r, double, true, true);
        let want = decode_pieces(&ps, double);
        let sc = Scalar { style: if double { Style::Double } else { Style::Single }, value: want.clone(), chomp: ' ', src: Src::Quoted(ps) };
        let y = crate::proj::yaml(&Node::Scalar(sc));
        ctx.say(format!("{:?}", y));
        ctx.distinct(&ctx.input.clone());
        ctx.hit("quoted parts decoded directly");
        let got = match &y {
            Yaml::SingleQuotedString(p) => parse_single_quoted_string(p),
            Yaml::DoubleQuotedString(p) => parse_double_quoted_string(p),
            _ => return Ok(()),
        };
        if got != want {
            return Err(diff("quoted", &format!("{:?}", want), &format!("{:?}", got)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn c09(r: &mut Rng, ctx: &mut Ctx) -> Res {
    use yaml_subset::yaml::string::*;
    let keep = |s: &str| if s.ends_with('\n') { 'k' } else { 's' };
    if r.chance(1, 2) {
        let n = if r.chance(1, 30) { long(r, 2000) } else { r.below(8) };
        let s: String = (0..n).map(|_| r.pick(&["\n", "\n", "a", " ", "é x", "\t", "\r", "\r\n", "  b", "# c", "- ", "'", "\n\n", "word word"]).to_string()).collect();
        ctx.say(format!("{:?}", s));
        ctx.hit("literal");
        if n > 1 {
            ctx.distinct(&format!("l{}", s));
        }
        let lines = create_literal(s.clone());
        if lines.iter().any(|l| l.contains('\n')) {
            return Err(format!("a line holds a line break: {:?}", lines));
        }
        let back = parse_literal(lines.iter().map(|l| &l[..]).collect(), crate::proj::unchomp(keep(&s)));
        if back != s {
            return Err(diff(&format!("splitting into {:?} and joining loses something", lines), &format!("{:?}", s), &format!("{:?}", back)));
        }
        return Ok(());
    }
    let n = if r.chance(1, 30) { long(r, 2000) } else { r.below(12) };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            if r.chance(1, 4) {
                let breaks = if r.chance(1, 20) { long(r, 100) } else { 1 + r.below(3) };
                s.push_str(&"\n".repeat(breaks));
            } else {
                s.push(' ');
            }
        } else if r.chance(1, 6) {
            s.push('\n');
        }
        let len = if r.chance(1, 10) { 30 + r.below(100) } else { 1 + r.below(12) };
        for _ in 0..len {
            s.push(*r.pick(&['a', 'b', 'c', 'é', '日', '-', '#', ':', '\'']));
        }
    }
    if r.chance(1, 4) {
        let breaks = if r.chance(1, 10) { long(r, 100) } else { 1 + r.below(3) };
        s.push_str(&"\n".repeat(breaks));
    }
    let width = if r.chance(1, 8) { r.below(4) } else { 1 + r.below(100) };
    ctx.say(format!("{:?} width {}", s, width));
    ctx.hit("folded");
    if n > 2 {
        ctx.distinct(&ctx.input.clone());
    }
    let lines = create_folded(s.clone(), width);
    for l in &lines {
        if l.contains('\n') {
            return Err(format!("a line holds a line break: {:?}", lines));
        }
        if l.len() > width && l.contains(' ') {
            return Err(format!("a line of several words is longer than {}: {:?}", width, l));
        }
    }
    if lines.len() > 1 {
        ctx.hit("folded over lines");
    }
    let back = parse_folded(lines.iter().map(|l| &l[..]).collect(), crate::proj::unchomp(keep(&s)));
    if back != s {
        return Err(diff(&format!("folding into {:?} and joining loses something", lines), &format!("{:?}", s), &format!("{:?}", back)));
    }
    let model = fold(&lines, keep(&s));
    if model != s && !s.chars().all(|c| c == '\n') {
        return Err(diff(&format!("the folded lines {:?} mean another string", lines), &format!("{:?}", s), &format!("{:?}", model)));
    }
    Ok(())
}

fn known_text(t: &str, ctx: &mut Ctx) -> Res {
    let _ = ctx;
    parse_ok(t).map(|_| ())
}
fn known_roundtrip(t: &str, ctx: &mut Ctx) -> Res {
    roundtrip(t, ctx)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "A random document model is written as text in a random layout, parsed, and compared with the model. Non-trivial: at least one collection inside another.",
            assumptions: &["the model's own folding, escape and chomping rules", "layouts are limited to those of the subset (see DESIGN.md)"],
            quick: 300_000,
            thorough: 4_000_000,
            case: c01,
            fixed: no_fixed,
            known: known_text,
        },
        Check {
            id: "C02",
            rule: "A random document model with uniquely marked comments is written in a random layout, parsed, compared with the model, formatted, and the marks in the output are compared. Non-trivial: has a comment.",
            assumptions: &["comments follow an entry's line or precede an entry, as the subset allows"],
            quick: 300_000,
            thorough: 4_000_000,
            case: c02,
            fixed: no_fixed,
            known: known_text,
        },
        Check {
            id: "C03",
            rule: "Rendered, mutated and random texts; those the parser accepts are formatted, parsed again and compared. Non-trivial: accepted, with more than one value.",
            assumptions: &[],
            quick: 500_000,
            thorough: 6_000_000,
            case: c03,
            fixed: no_fixed,
            known: known_roundtrip,
        },
        Check {
            id: "C04",
            rule: "Three random layouts of one model, parsed and formatted: texts equal and stable under a second pass; also accepted mutated texts for the second pass. Non-trivial: nested, or accepted mutation.",
            assumptions: &[],
            quick: 120_000,
            thorough: 2_500_000,
            case: c04,
            fixed: no_fixed,
            known: known_roundtrip,
        },
        Check {
            id: "C06",
            rule: "Rendered, mutated and random texts; for those accepted the characters that are not white space are compared with those of the formatted text. Non-trivial: accepted and longer than 20 bytes.",
            assumptions: &["the digits of a block scalar's indentation indicator are left out on both sides"],
            quick: 700_000,
            thorough: 6_000_000,
            case: c06,
            fixed: no_fixed,
            known: c06_oracle,
        },
            Check {
            id: "C05",
            rule: "Random characters, token soup, mutated documents and nesting up to 250 deep are parsed; accepted documents are formatted, prettified, visited, mapped, queried and decoded; error locations are compared with the text. Non-trivial: accepted, or longer than 12 bytes.",
            assumptions: &["worker stacks of 8 MB"],
            quick: 400_000,
            thorough: 6_000_000,
            case: c05,
            fixed: no_fixed,
            known: c05_oracle,
        },
        Check {
            id: "C07",
            rule: "One fault of a listed kind is put at a random place of a random document that is accepted without it. Each is non-trivial.",
            assumptions: &["places where the fault would leave a well-formed text are left out"],
            quick: 180_000,
            thorough: 4_000_000,
            case: c07,
            fixed: no_fixed,
            known: c07_known,
        },
        Check {
            id: "C08",
            rule: "The scalars of random documents in random layouts, and random lines and quoted parts given directly, are decoded and compared with the model's decoding. Each is non-trivial.",
            assumptions: &["the model's own folding, escape and chomping rules"],
            quick: 400_000,
            thorough: 4_000_000,
            case: c08,
            fixed: no_fixed,
            known: known_text,
        },
        Check {
            id: "C09",
            rule: "Random strings are split into literal lines or folded at a random width and joined again. Non-trivial: several parts.",
            assumptions: &["for folding: words without blanks, separated by single spaces or line breaks"],
            quick: 5_000_000,
            thorough: 20_000_000,
            case: c09,
            fixed: no_fixed,
            known: |_, _| Ok(()),
        },
    ]
}
