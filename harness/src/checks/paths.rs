//! C10 to C16: path texts, queries and edits, against an interpreter over the model.
use crate::checks::parse::{diff, parse_ok};
use crate::engine::*;
use crate::model::*;
use crate::proj;
use crate::render::*;
use crate::rng::Rng;
use yaml_subset::yaml::{Document, DocumentData, MyVec, Yaml, YamlInsert};
use yaml_subset::YamlPath;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Root,
    Key(String),
    All,
    Idx(Vec<usize>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub kind: Kind,
    pub conds: Vec<(String, String)>,
}
pub type Steps = Vec<Step>;

/// The library's path as steps.
pub fn steps_of(p: &YamlPath) -> Steps {
    let mut v = Vec::new();
    let mut p = Some(p);
    while let Some(q) = p {
        // the type of a condition has no public name
        macro_rules! cs {
            ($c:expr) => {
                $c.iter().map(|c| (c.field.clone(), c.value.clone())).collect()
            };
        }
        let (s, next) = match q {
            YamlPath::Root(c) => (Step { kind: Kind::Root, conds: cs!(c) }, None),
            YamlPath::Key(k, c, n) => (Step { kind: Kind::Key(k.clone()), conds: cs!(c) }, n.as_deref()),
            YamlPath::AllIndexes(c, n) => (Step { kind: Kind::All, conds: cs!(c) }, n.as_deref()),
            YamlPath::Indexes(i, c, n) => (Step { kind: Kind::Idx(i.clone()), conds: cs!(c) }, n.as_deref()),
        };
        v.push(s);
        p = next;
    }
    v
}

pub fn text_of(steps: &[Step]) -> String {
    let mut s = String::new();
    for (i, st) in steps.iter().enumerate() {
        match &st.kind {
            Kind::Root => {}
            Kind::Key(k) => {
                if i > 0 {
                    s.push('.');
                }
                s.push_str(k);
            }
            Kind::All => s.push_str("[*]"),
            Kind::Idx(v) => s.push_str(&format!("[{}]", v[0])),
        }
        for (f, v) in &st.conds {
            s.push_str(&format!("|{}={}", f, v));
        }
    }
    s
}

/// Builds the library's path for steps that no text spells (several indexes, a path starting with an index).
pub fn path_of(steps: &[Step]) -> Option<YamlPath> {
    fn conds<'a>(s: &Step) -> Option<YamlPath> {
        // through a path text, as conditions cannot be built directly
        let t: String = s.conds.iter().map(|(f, v)| format!("|{}={}", f, v)).collect();
        format!("k{}", t).parse().ok()
    }
    if steps.is_empty() {
        return None;
    }
    let rest = if steps.len() > 1 { Some(Box::new(path_of(&steps[1..])?)) } else { None };
    let YamlPath::Key(_, c, None) = conds(&steps[0])? else { return None };
    Some(match &steps[0].kind {
        Kind::Root => YamlPath::Root(c),
        Kind::Key(k) => YamlPath::Key(k.clone(), c, rest),
        Kind::All => YamlPath::AllIndexes(c, rest),
        Kind::Idx(i) => YamlPath::Indexes(i.clone(), c, rest),
    })
}

fn name_ok(k: &str) -> bool {
    !k.is_empty() && k.trim() == k && !k.contains(['[', ']', '.', '|'])
}
fn field_ok(k: &str) -> bool {
    !k.is_empty() && k.trim() == k && !k.contains('=')
}
fn value_ok(k: &str) -> bool {
    !k.is_empty() && k.trim() == k && !k.contains(['.', '|'])
}

// ---------------------------------------------------------------------------------------------

fn c10(r: &mut Rng, ctx: &mut Ctx) -> Res {
    match r.below(4) {
        0 => c10_soup(r, ctx),
        1 => c10_insert(r, ctx),
        _ => {
            let steps = random_steps(r, true);
            let text = if r.chance(1, 3) { spaced(r, &steps) } else { text_of(&steps) };
            ctx.say(text.clone());
            if steps.len() > 1 {
                ctx.distinct(&text);
            }
            ctx.max("steps", steps.len() as u64);
            ctx.hit("spelled path");
            expect_path(&text, &steps)
        }
    }
}

/// The text of the steps, with blanks around what it consists of.
pub fn spaced(r: &mut Rng, steps: &Steps) -> String {
    fn some(r: &mut Rng) -> &'static str {
        r.pick(&["", "", "", " ", "  "])
    }
    let mut t = some(r).to_string();
    let mut put = |r: &mut Rng, s: &str| {
        t.push_str(s);
        t.push_str(some(r));
    };
    for (i, st) in steps.iter().enumerate() {
        match &st.kind {
            Kind::Root => {}
            Kind::Key(k) => {
                if i > 0 {
                    put(r, ".");
                }
                put(r, k);
            }
            Kind::All => ["[", "*", "]"].iter().for_each(|s| put(r, s)),
            Kind::Idx(n) => ["[", &n[0].to_string(), "]"].iter().for_each(|s| put(r, s)),
        }
        for (f, v) in &st.conds {
            for s in ["|", f.as_str(), "=", v.as_str()] {
                put(r, s);
            }
        }
    }
    t
}

fn expect_path(text: &str, steps: &Steps) -> Res {
    let p: YamlPath = guarded(|| text.parse::<YamlPath>()).map_err(|e| format!("panics: {}", e))?.map_err(|e| format!("rejected: {}", e))?;
    let got = steps_of(&p);
    if &got != steps {
        return Err(diff("the path has other steps", &format!("{:?}", steps), &format!("{:?}", got)));
    }
    Ok(())
}

fn random_name(r: &mut Rng) -> String {
    loop {
        let s = match r.below(40) {
            0 => {
                let n = long(r, 600);
                let mut s = gen_word(r, true);
                while s.len() < n {
                    s.push_str(r.pick(&["", "", " ", "_", "-", "  "]));
                    s.push_str(&gen_word(r, true));
                }
                s
            }
            1..=6 => gen_word(r, true),
            7..=12 => format!("{}{}{}", gen_word(r, true), r.pick(&[" ", " ", "  ", "\t", "-", "/", ":", ", "]), gen_word(r, true)),
            13..=15 => gen_odd(r, true, 12),
            16..=20 => r.pick(&["*", "0", "12", "=", "a=b", "-", "'q'", "\"q\"", "(x)", "a\nb", "x:", "{", "{a}", "\"", "\\", "é", "日本", "~", "null", "true", "$", "^x", "&x", "#", "a*", "**"]).to_string(),
            _ => r.pick(&["a", "b", "item", "item2", "parts", "type", "k x"]).to_string(),
        };
        if name_ok(&s) {
            return s;
        }
    }
}

fn random_conds(r: &mut Rng) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let many = if r.chance(1, 40) { long(r, 30) } else { 0 };
    while v.len() < many || r.chance(1, 3) && v.len() < 4 {
        let f = match r.below(4) {
            0 => r.pick(&["a.b", "a|b", "a[0]", "[", ".", "x y", "é"]).to_string(),
            _ => random_name(r).replace('=', "_"),
        };
        let val = match r.below(5) {
            0 => r.pick(&["a=b", "=", "[0]", "x[*]", "a b", "日本", "]", "-1", "'"]).to_string(),
            _ => random_name(r),
        };
        if field_ok(&f) && value_ok(&val) {
            v.push((f, val));
        }
    }
    v
}

/// Steps that a text spells: an index directly after a condition would be part of its value.
pub fn random_steps(r: &mut Rng, conds: bool) -> Steps {
    if r.chance(1, 12) {
        return vec![Step { kind: Kind::Root, conds: if conds { random_conds(r) } else { vec![] } }];
    }
    let n = if r.chance(1, 25) { long(r, 120) } else { 1 + r.below(6) };
    let mut v: Steps = Vec::new();
    for i in 0..n {
        let kind = match r.below(4) {
            0 | 1 => Kind::Key(random_name(r)),
            _ if i == 0 || !v[i - 1].conds.is_empty() => Kind::Key(random_name(r)),
            2 => Kind::All,
            _ => Kind::Idx(vec![match r.below(8) {
                0 => usize::MAX,
                1 => usize::MAX - r.below(3),
                2 => r.next() as usize,
                3 => long(r, 3000),
                4 => 1usize << r.below(64),
                _ => r.below(30),
            }]),
        };
        v.push(Step { kind, conds: if conds { random_conds(r) } else { vec![] } });
    }
    v
}

/// A path that starts with any step, not only one a text can start with: the tail of one that was read.
fn random_tail(r: &mut Rng) -> Result<(Steps, YamlPath, String), String> {
    let steps = random_steps(r, true);
    let text = text_of(&steps);
    let mut p: YamlPath = text.parse().map_err(|e| format!("{:?} rejected: {}", text, e))?;
    let drop = if steps[0].kind == Kind::Root { 0 } else { r.below(steps.len()).min(r.below(4)) };
    for _ in 0..drop {
        p = match p {
            YamlPath::Key(_, _, Some(x)) | YamlPath::AllIndexes(_, Some(x)) | YamlPath::Indexes(_, _, Some(x)) => *x,
            _ => return Err(format!("{:?} has too few steps", text)),
        };
    }
    Ok((steps[drop..].to_vec(), p, format!("{:?} from step {}", text, drop)))
}

fn c10_insert(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let (mut want, mut p, mut told) = random_tail(r)?;
    for _ in 0..1 + r.below(3) {
        let (mut b, mut q, mut t) = random_tail(r)?;
        while b[0].kind == Kind::Root {
            (b, q, t) = random_tail(r)?;
        }
        told = format!("{} + {}", told, t);
        ctx.say(told.clone());
        ctx.hit("appended");
        if b[0].kind == Kind::All || matches!(b[0].kind, Kind::Idx(_)) {
            ctx.hit("an index appended");
        }
        guarded(|| p.insert(q)).map_err(|e| format!("panics: {}", e))?;
        want = if want[0].kind == Kind::Root { b } else { want.into_iter().chain(b).collect() };
        let got = steps_of(&p);
        if got != want {
            return Err(diff("appending gives other steps", &format!("{:?}", want), &format!("{:?}", got)));
        }
    }
    ctx.distinct(&told);
    // The text of the steps, where it has one, reads as the same path.
    if let Some(direct) = path_of(&want) {
        if direct != p {
            return Err(diff("appending gives another path", &format!("{:?}", direct), &format!("{:?}", p)));
        }
    }
    Ok(())
}

/// Reads a path by the rules of the property: blanks around what it consists of do not count. None: no path.
fn recognize(t: &str) -> Option<Steps> {
    let c: Vec<char> = t.trim_matches(' ').chars().collect();
    let mut i = 0;
    let cut = |from: usize, to: usize| -> Option<String> {
        let s: String = c[from..to].iter().collect();
        let s = s.trim_matches(' ');
        if s.is_empty() { None } else { Some(s.to_string()) }
    };
    let skip = |i: &mut usize| {
        while *i < c.len() && c[*i] == ' ' {
            *i += 1;
        }
    };
    let conds = |i: &mut usize| -> Option<Vec<(String, String)>> {
        let mut v = Vec::new();
        while *i < c.len() && c[*i] == '|' {
            let from = *i + 1;
            let eq = (from..c.len()).find(|j| c[*j] == '=')?;
            let end = (eq + 1..c.len()).find(|j| c[*j] == '.' || c[*j] == '|').unwrap_or(c.len());
            v.push((cut(from, eq)?, cut(eq + 1, end)?));
            *i = end;
        }
        Some(v)
    };
    let key = |i: &mut usize| -> Option<String> {
        let from = *i;
        while *i < c.len() && !"[].|".contains(c[*i]) {
            *i += 1;
        }
        cut(from, *i)
    };
    if c.is_empty() || c[0] == '|' {
        let cs = conds(&mut i)?;
        return if i == c.len() { Some(vec![Step { kind: Kind::Root, conds: cs }]) } else { None };
    }
    let mut v = Vec::new();
    let k = key(&mut i)?;
    let cs = conds(&mut i)?;
    v.push(Step { kind: Kind::Key(k), conds: cs });
    while i < c.len() {
        if c[i] == '.' {
            i += 1;
            let k = key(&mut i)?;
            let cs = conds(&mut i)?;
            v.push(Step { kind: Kind::Key(k), conds: cs });
        } else if c[i] == '[' {
            let close = (i + 1..c.len()).find(|j| c[*j] == ']')?;
            let inner = cut(i + 1, close)?;
            let kind = if inner == "*" {
                Kind::All
            } else if !inner.is_empty() && inner.bytes().all(|b| b.is_ascii_digit()) {
                Kind::Idx(vec![inner.parse().ok()?])
            } else {
                return None;
            };
            i = close + 1;
            skip(&mut i);
            let cs = conds(&mut i)?;
            v.push(Step { kind, conds: cs });
        } else {
            return None;
        }
    }
    Some(v)
}

fn c10_soup(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let mut t = if r.chance(1, 2) { text_of(&random_steps(r, true)) } else { String::new() };
    const B: &[&str] = &[
        ".", ".", "[", "]", "[0]", "[*]", "[12]", "|", "=", "|a=b", "a", "b", "é", "*", "0", "9", "[-1]", "[a]", "[]", "..", "[18446744073709551615]",
        "[18446744073709551616]", "[99999999999999999999999999]", "[٣]", "[00]", "\n", "\t", "|=x", "|a=", "=.", "[*", "[0", "0]", "\u{a0}", " ", " ", "  ", " . ", "[ 1 ]", "[ * ]", "[ ]", "[1 2]", " | ", " = ", "a b", " [0]",
    ];
    for _ in 0..1 + r.below(if t.is_empty() { 9 } else { 2 }) {
        let mut at = r.below(t.len() + 1);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        if !t.is_empty() && r.chance(1, 4) && at < t.len() {
            t.remove(at);
        } else {
            t.insert_str(at, *r.pick(B));
        }
    }
    ctx.say(format!("{:?}", t));
    ctx.distinct(&t);
    let want = recognize(&t);
    let got = guarded(|| t.parse::<YamlPath>()).map_err(|e| format!("panics: {}", e))?;
    match (want, got) {
        (None, Err(e)) => {
            ctx.hit("rejected");
            let _ = e.to_string();
            Ok(())
        }
        (None, Ok(p)) => Err(format!("no path, but accepted as {:?}", steps_of(&p))),
        (Some(w), Err(e)) => Err(format!("a path ({:?}), but rejected: {}", w, e)),
        (Some(w), Ok(p)) => {
            ctx.hit("accepted");
            let g = steps_of(&p);
            if g != w {
                return Err(diff("the path has other steps", &format!("{:?}", w), &format!("{:?}", g)));
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The interpreter: positions are lists of item numbers.

type Pos = Vec<usize>;

fn at<'a>(n: &'a Node, p: &[usize]) -> &'a Node {
    match (n, p.split_first()) {
        (n, None) => n,
        (Node::Map { items, .. } | Node::Seq { items, .. }, Some((i, rest))) => match &items[*i] {
            Item::Entry(e) => at(&e.node, rest),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn at_mut<'a>(n: &'a mut Node, p: &[usize]) -> &'a mut Node {
    match p.split_first() {
        None => n,
        Some((i, rest)) => match n {
            Node::Map { items, .. } | Node::Seq { items, .. } => match &mut items[*i] {
                Item::Entry(e) => at_mut(&mut e.node, rest),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        },
    }
}

pub fn key_of(n: &Node, k: &str) -> Option<usize> {
    match n {
        Node::Map { flow: false, items } => items.iter().position(|i| matches!(i, Item::Entry(e) if e.key == k)),
        _ => None,
    }
}
fn entry<'a>(n: &'a Node, k: &str) -> Option<&'a Entry> {
    let i = key_of(n, k)?;
    match n {
        Node::Map { items, .. } => match &items[i] {
            Item::Entry(e) => Some(e),
            _ => None,
        },
        _ => None,
    }
}
fn fits(n: &Node, conds: &[(String, String)]) -> bool {
    conds.iter().all(|(f, v)| matches!(entry(n, f), Some(Entry { node: Node::Scalar(s), .. }) if &s.value == v))
}

/// Where a path leads: the positions of values.
pub fn select(root: &Node, steps: &[Step]) -> Vec<Pos> {
    let mut cur: Vec<Pos> = vec![vec![]];
    for st in steps {
        let mut next = Vec::new();
        for p in cur {
            let n = at(root, &p);
            match &st.kind {
                Kind::Root => {
                    if fits(n, &st.conds) {
                        next.push(p);
                    }
                }
                Kind::Key(k) => {
                    if fits(n, &st.conds) {
                        if let Some(i) = key_of(n, k) {
                            let mut q = p.clone();
                            q.push(i);
                            next.push(q);
                        }
                    }
                }
                Kind::All | Kind::Idx(_) => {
                    let Node::Seq { items, .. } = n else { continue };
                    let els: Vec<usize> = items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Entry(_))).map(|(i, _)| i).collect();
                    let chosen: Vec<usize> = match &st.kind {
                        Kind::Idx(v) => v.iter().filter_map(|i| els.get(*i).copied()).collect(),
                        _ => els,
                    };
                    for i in chosen {
                        let mut q = p.clone();
                        q.push(i);
                        if fits(at(root, &q), &st.conds) {
                            next.push(q);
                        }
                    }
                }
            }
        }
        cur = next;
    }
    cur
}

/// The block mappings whose entry the path's last key names; None when it does not end in a key.
fn containers(root: &Node, steps: &[Step]) -> Option<(Vec<Pos>, String)> {
    let (last, before) = steps.split_last()?;
    let Kind::Key(k) = &last.kind else { return None };
    let v = select(root, before).into_iter().filter(|p| { let n = at(root, p); matches!(n, Node::Map { flow: false, .. }) && fits(n, &last.conds) }).collect();
    Some((v, k.clone()))
}

// ---------------------------------------------------------------------------------------------
// Paths for a document.

pub fn gen_steps(r: &mut Rng, root: &Node, want_key_end: bool) -> Steps {
    let mut v: Steps = Vec::new();
    let mut n = root;
    let far = r.chance(1, 12);
    let max = if far { 200 } else { 1 + r.below(6) };
    for _ in 0..max {
        let es = n.entries();
        match n {
            Node::Map { .. } => {
                let conds = gen_conds(r, n);
                if es.is_empty() || r.chance(1, 12) {
                    let mut k = gen_key_for(r);
                    if !es.is_empty() && r.chance(1, 2) {
                        let near = nearly(&es[r.below(es.len())].key);
                        k = r.pick(&near).clone();
                    }
                    // inserted keys have to be plain ones
                    if !k.is_empty() && k.trim() == k && k.chars().all(|c| c.is_alphanumeric() || matches!(c, ' ' | '_' | '-')) && key_like(&k) {
                        v.push(Step { kind: Kind::Key(k), conds });
                    }
                    break;
                }
                let e = es[r.below(es.len())];
                v.push(Step { kind: Kind::Key(e.key.clone()), conds });
                n = &e.node;
            }
            Node::Seq { .. } => {
                let i = r.below(es.len() + 1);
                let kind = if r.chance(1, 2) {
                    Kind::All
                } else if r.chance(1, 4) {
                    Kind::Idx((0..r.below(4)).map(|_| r.below(es.len() + 1)).collect())
                } else {
                    Kind::Idx(vec![i])
                };
                match es.get(i) {
                    Some(e) => {
                        v.push(Step { kind, conds: gen_conds(r, &e.node) });
                        n = &e.node;
                    }
                    None => {
                        v.push(Step { kind, conds: vec![] });
                        if es.is_empty() {
                            break;
                        }
                        n = &es[0].node;
                    }
                }
            }
            _ => {
                if r.chance(1, 10) {
                    v.push(Step { kind: if r.chance(1, 2) { Kind::All } else { Kind::Key("a".into()) }, conds: vec![] });
                }
                break;
            }
        }
        if r.chance(1, if far { 60 } else { 5 }) {
            break;
        }
    }
    if want_key_end && r.chance(9, 10) && !matches!(v.last(), Some(Step { kind: Kind::Key(_), .. })) {
        let k = n.entries().first().map(|e| e.key.clone()).filter(|k| !k.is_empty() && r.chance(1, 2));
        v.push(Step { kind: Kind::Key(k.unwrap_or_else(|| gen_key_for(r))), conds: gen_conds(r, n) });
    }
    if v.is_empty() {
        v.push(Step { kind: Kind::Root, conds: gen_conds(r, root) });
    }
    v
}

/// Texts that a careless comparison takes for this one.
fn nearly(s: &str) -> Vec<String> {
    let mut v = vec![
        s.trim().to_string(),
        s.trim_end().to_string(),
        s.trim_start().to_string(),
        s.to_lowercase(),
        s.to_uppercase(),
        s.lines().next().unwrap_or("").to_string(),
        s.split_whitespace().collect::<Vec<_>>().join(" "),
        s.split_whitespace().collect::<Vec<_>>().join("  "),
        format!("'{}'", s),
        format!("\"{}\"", s),
        format!("{} ", s),
        format!("{}0", s),
        format!("0{}", s),
        format!("{}.0", s),
        format!("-{}", s),
    ];
    if let Some((i, _)) = s.char_indices().last() {
        v.push(s[..i].to_string());
        v.push(s.chars().skip(1).collect());
    }
    v.retain(|x| x != s);
    v
}

fn gen_conds(r: &mut Rng, n: &Node) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let usable: Vec<(String, String)> = n
        .entries()
        .iter()
        .filter_map(|e| match &e.node {
            Node::Scalar(s) if field_ok(&e.key) && value_ok(&s.value) => Some((e.key.clone(), s.value.clone())),
            _ => None,
        })
        .collect();
    // almost what is there
    let mut close: Vec<(String, String)> = Vec::new();
    for e in n.entries() {
        let values: Vec<String> = match &e.node {
            Node::Scalar(s) => nearly(&s.value),
            Node::Map { .. } => vec!["{}".into(), "null".into()],
            Node::Ref(a) => vec![a.clone(), format!("*{}", a)],
            Node::Seq { items, .. } => items.iter().filter_map(|i| match i { Item::Entry(Entry { node: Node::Scalar(s), .. }) => Some(s.value.clone()), _ => None }).chain(["[]".to_string()]).take(3).collect(),
        };
        close.extend(values.into_iter().filter(|v| field_ok(&e.key) && value_ok(v)).map(|v| (e.key.clone(), v)));
        if let Node::Scalar(s) = &e.node {
            close.extend(nearly(&e.key).into_iter().filter(|k| field_ok(k) && value_ok(&s.value)).map(|k| (k, s.value.clone())));
        }
    }
    if !usable.is_empty() && r.chance(1, 30) {
        // many, of which the last one may not hold
        for _ in 0..1 + r.below(12) {
            v.push(usable[r.below(usable.len())].clone());
        }
        if !close.is_empty() && r.chance(1, 2) {
            v.push(close[r.below(close.len())].clone());
        }
        return v;
    }
    while r.chance(1, 5) && v.len() < 3 {
        match r.below(8) {
            6 | 7 if !close.is_empty() => v.push(close[r.below(close.len())].clone()),
            0 => v.push((r.pick(&["a", "b", "zz"]).to_string(), r.pick(&["x", "1", "true"]).to_string())),
            1 if !n.entries().is_empty() => {
                let es = n.entries();
                let k = es[r.below(es.len())].key.clone();
                if field_ok(&k) {
                    v.push((k, r.pick(&["x", "foo", "{}"]).to_string()));
                }
            }
            _ if !usable.is_empty() => v.push(usable[r.below(usable.len())].clone()),
            _ => {}
        }
    }
    v
}

/// Steps as a library path, through its text where there is one.
pub fn lib_path(steps: &Steps) -> Option<YamlPath> {
    let spelled = !matches!(steps[0].kind, Kind::All | Kind::Idx(_))
        && steps.iter().all(|s| match &s.kind {
            Kind::Idx(v) => v.len() == 1,
            Kind::Key(k) => name_ok(k),
            _ => true,
        })
        && steps.windows(2).all(|w| w[0].conds.is_empty() || matches!(w[1].kind, Kind::Key(_)));
    if spelled {
        let p: YamlPath = text_of(steps).parse().ok()?;
        // path texts are C10's business
        if &steps_of(&p) == steps {
            return Some(p);
        }
    }
    path_of(steps)
}

pub fn gen_world(r: &mut Rng, ctx: &mut Ctx) -> Doc {
    let mut cfg = Cfg::random(r, ctx.size);
    cfg.few_keys = r.chance(4, 5);
    cfg.width = cfg.width.max(2);
    cfg.max_depth = cfg.max_depth.max(2).min(6);
    let mut d = gen_doc(r, &mut cfg);
    if r.chance(1, 2) {
        alike(r, &mut d.root, &mut 400);
    }
    if r.chance(2, 3) {
        // values from a small pool, so that conditions select several
        tame(r, &mut d.root);
    }
    d
}

/// Makes the elements of block sequences alike, so that one path leads to several places.
fn alike(r: &mut Rng, n: &mut Node, room: &mut usize) {
    if let Node::Seq { flow: false, items } = n {
        let model = items.iter().find_map(|i| match i {
            Item::Entry(e) if !e.node.is_leaf() && !e.node.is_block_scalar() => Some(e.node.clone()),
            _ => None,
        });
        if let Some(m) = model {
            for i in 0..items.len() {
                // an end-of-line comment after the element needs a leaf there
                let followed = matches!(items.get(i + 1), Some(Item::Inline(_)));
                if let Item::Entry(e) = &mut items[i] {
                    if !followed && r.chance(3, 4) && m.count() <= *room {
                        *room -= m.count();
                        e.node = m.clone();
                    }
                }
            }
        }
    }
    if let Node::Map { items, .. } | Node::Seq { items, .. } = n {
        for i in items {
            if let Item::Entry(e) = i {
                alike(r, &mut e.node, room);
            }
        }
    }
}

fn tame(r: &mut Rng, n: &mut Node) {
    match n {
        Node::Scalar(s) if r.chance(2, 3) => {
            let w = *r.pick(&["x", "y", "foo", "1", "a b"]);
            let near = nearly(w);
            let w = if r.chance(1, 6) { r.pick(&near).clone() } else { w.to_string() };
            // what a plain scalar can say
            let quoted = if w.trim() != w || w.is_empty() || w.starts_with(['\'', '"', '-']) { 2 } else { 4 };
            let w = if w.contains(['\'', '"']) { w.replace(['\'', '"'], "") } else { w };
            *s = match r.below(quoted) {
                0 => Scalar { style: Style::Double, value: w.clone(), chomp: ' ', src: Src::Quoted(if w.is_empty() { vec![] } else { vec![Piece::Text(w)] }) },
                1 => Scalar { style: Style::Single, value: w.clone(), chomp: ' ', src: Src::Quoted(if w.is_empty() { vec![] } else { vec![Piece::Text(w)] }) },
                _ => Scalar { style: Style::Plain, value: w, chomp: ' ', src: Src::None },
            };
        }
        Node::Map { items, .. } | Node::Seq { items, .. } => {
            for i in items {
                if let Item::Entry(e) = i {
                    tame(r, &mut e.node);
                }
            }
        }
        _ => {}
    }
}

/// The library's tree for a model: built directly, or by parsing a rendered text.
fn lib_doc(r: &mut Rng, d: &Doc) -> Result<Document, String> {
    if r.chance(1, 3) {
        let l = Layout::random(r);
        let (t, _) = render(d, l, r);
        return parse_ok(&t);
    }
    Ok(proj::document(d))
}

/// Something that holds the root value and takes paths.
pub enum Holder {
    Doc(Document),
    Item(DocumentData, Doc),
    Yaml(Yaml, Doc),
    Aliased(yaml_subset::yaml::AliasedYaml, Doc),
}
macro_rules! on {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Holder::Doc($x) => $e,
            Holder::Item($x, _) => $e,
            Holder::Yaml($x, _) => $e,
            Holder::Aliased($x, _) => $e,
        }
    };
}
impl Holder {
    fn new(r: &mut Rng, doc: Document, d: &Doc) -> Holder {
        let root = |doc: &Document| doc.items.iter().find_map(|i| if let DocumentData::Yaml(y) = i { Some(y.clone()) } else { None }).unwrap();
        match r.below(5) {
            0 => Holder::Item(DocumentData::Yaml(root(&doc)), d.clone()),
            1 => Holder::Yaml(root(&doc), d.clone()),
            2 => Holder::Aliased(yaml_subset::yaml::AliasedYaml { alias: Some("holder".into()), value: root(&doc) }, d.clone()),
            _ => Holder::Doc(doc),
        }
    }
    fn model(&self) -> Result<Doc, String> {
        match self {
            Holder::Doc(d) => proj::doc(d),
            Holder::Item(DocumentData::Yaml(y), d) | Holder::Yaml(y, d) => Ok(Doc { root: proj::node(y), ..d.clone() }),
            Holder::Item(_, _) => Err("the value became a comment".into()),
            Holder::Aliased(a, d) => {
                if a.alias.as_deref() != Some("holder") {
                    return Err("the root lost its alias".into());
                }
                Ok(Doc { root: proj::node(&a.value), ..d.clone() })
            }
        }
    }
}

fn describe(d: &Doc, steps: &Steps, op: &str) -> String {
    format!("{}\n--- {} at {:?}", render_plain(d), op, text_or_debug(steps))
}
fn text_or_debug(steps: &Steps) -> String {
    if steps.iter().all(|s| !matches!(&s.kind, Kind::Idx(v) if v.len() != 1)) {
        text_of(steps)
    } else {
        format!("{:?}", steps)
    }
}

fn c11(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let mut d = gen_world(r, ctx);
    let doc = if r.chance(1, 8) {
        if r.chance(1, 2) {
            hollow(r, &mut d.root);
        } else {
            super::pretty::foreign(r, &mut d.root);
        }
        ctx.hit("documents that no text has");
        proj::document(&d)
    } else {
        lib_doc(r, &d)?
    };
    let mut h = Holder::new(r, doc, &d);
    let before = h.model()?;
    for _ in 0..6 {
        let steps = gen_steps(r, &d.root, false);
        let Some(p) = lib_path(&steps) else { continue };
        ctx.say(describe(&d, &steps, "query"));
        let want: Vec<String> = select(&before.root, &steps).iter().map(|p| at(&before.root, p).dump(FULL)).collect();
        ctx.hit("queries");
        ctx.add("values selected", want.len() as u64);
        ctx.hit(match want.len() {
            0 => "queries selecting nothing",
            1 => "queries selecting one value",
            _ => "queries selecting several values",
        });
        if !want.is_empty() && steps.len() > 1 {
            ctx.distinct(&ctx.input.clone());
        }
        let MyVec(got) = guarded(|| on!(&mut h, x => x.find_values(&p))).map_err(|e| format!("panics: {}", e))?;
        let got: Vec<String> = got.iter().map(|y| proj::node(y).dump(FULL)).collect();
        if got != want {
            return Err(diff("the query selects other values", &format!("{:#?}", want), &format!("{:#?}", got)));
        }
        let after = h.model()?;
        if after.dump(FULL) != before.dump(FULL) {
            return Err(diff("the query changed the document", &before.dump(FULL), &after.dump(FULL)));
        }
        // the same positions through for_hash, with counting closures that know what they were given
        let log = std::cell::RefCell::new(Vec::new());
        let n = guarded(|| {
            let f = |e: &mut yaml_subset::yaml::HashElement| {
                log.borrow_mut().push((Some(e.key.clone()), proj::node(&e.value.value).dump(FULL)));
                1usize
            };
            let g = |y: &mut Yaml| {
                log.borrow_mut().push((None, proj::node(y).dump(FULL)));
                1usize
            };
            on!(&mut h, x => x.for_hash(&p, &f, &g))
        })
        .map_err(|e| format!("panics: {}", e))?;
        let last = match &steps.last().unwrap().kind {
            Kind::Key(k) => Some(k.clone()),
            _ => None,
        };
        let want: Vec<(Option<String>, String)> = want.into_iter().map(|w| (last.clone(), w)).collect();
        let log = log.into_inner();
        if log != want || n != want.len() {
            return Err(diff("for_hash visits other places", &format!("{:#?}", want), &format!("{:#?}\nreturning {}", log, n)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Edits on the model.

#[derive(Clone, Debug)]
pub enum Edit {
    Insert { value: Entry, overwrite: bool, by_call: bool },
    Remove,
    Rename(String),
    Wrap(String),
    Move { subfield: String, fields: Vec<String> },
    Regroup { old: String, selector: String, new: String, keeps: Vec<String> },
}

/// Applies to the model; the count that should be returned.
pub fn apply(root: &mut Node, steps: &[Step], e: &Edit) -> usize {
    let mut count = 0;
    match e {
        Edit::Insert { value, overwrite, .. } => {
            let Some((cs, key)) = containers(root, steps) else { return 0 };
            for p in cs {
                let n = at_mut(root, &p);
                let i = key_of(n, &key);
                let Node::Map { items, .. } = n else { unreachable!() };
                let new = Item::Entry(Entry { key: key.clone(), ..value.clone() });
                match i {
                    None => {
                        items.push(new);
                        count += 1;
                    }
                    Some(i) if *overwrite => {
                        items[i] = new;
                        count += 1;
                    }
                    _ => {}
                }
            }
        }
        Edit::Remove => {
            let Some((cs, key)) = containers(root, steps) else { return 0 };
            for p in cs {
                let n = at_mut(root, &p);
                if let Some(i) = key_of(n, &key) {
                    let Node::Map { items, .. } = n else { unreachable!() };
                    items.remove(i);
                    count += 1;
                }
            }
        }
        Edit::Rename(name) => {
            let Some((cs, key)) = containers(root, steps) else { return 0 };
            for p in cs {
                if let Some(e) = entry_mut(at_mut(root, &p), &key) {
                    e.key = name.clone();
                    count += 1;
                }
            }
        }
        Edit::Wrap(name) => {
            let Some((cs, key)) = containers(root, steps) else { return 0 };
            for p in cs {
                if let Some(e) = entry_mut(at_mut(root, &p), &key) {
                    let inner = Entry { key: name.clone(), alias: e.alias.take(), node: e.node.clone() };
                    e.node = Node::Map { flow: false, items: vec![Item::Entry(inner)] };
                    count += 1;
                }
            }
        }
        Edit::Move { subfield, fields } => {
            for p in select(root, steps) {
                count += move_fields(at_mut(root, &p), subfield, fields);
            }
        }
        Edit::Regroup { old, selector, new, keeps } => {
            for p in select(root, steps) {
                count += regroup(at_mut(root, &p), old, selector, new, keeps);
            }
        }
    }
    count
}

fn entry_mut<'a>(n: &'a mut Node, k: &str) -> Option<&'a mut Entry> {
    let i = key_of(n, k)?;
    match n {
        Node::Map { items, .. } => match &mut items[i] {
            Item::Entry(e) => Some(e),
            _ => None,
        },
        _ => None,
    }
}

fn take(n: &mut Node, k: &str) -> Option<Entry> {
    let i = key_of(n, k)?;
    let Node::Map { items, .. } = n else { return None };
    match items.remove(i) {
        Item::Entry(e) => Some(e),
        _ => None,
    }
}

fn move_fields(n: &mut Node, subfield: &str, fields: &[String]) -> usize {
    let mut wanted: Vec<&String> = Vec::new();
    for f in fields {
        if f != subfield && !wanted.contains(&f) && key_of(n, f).is_some() {
            wanted.push(f);
        }
    }
    if wanted.is_empty() {
        return 0;
    }
    match entry(n, subfield) {
        Some(Entry { node: Node::Map { flow: false, .. }, .. }) => {}
        Some(_) => return 0,
        None => {
            let Node::Map { flow: false, items } = &mut *n else { return 0 };
            items.push(Item::Entry(Entry { key: subfield.to_string(), alias: None, node: Node::Map { flow: false, items: vec![] } }));
        }
    }
    for f in wanted {
        let e = take(n, f).unwrap();
        let sub = &mut entry_mut(n, subfield).unwrap().node;
        let i = key_of(sub, f);
        let Node::Map { items, .. } = sub else { unreachable!() };
        match i {
            Some(i) => items[i] = Item::Entry(e),
            None => items.push(Item::Entry(e)),
        }
    }
    1
}

fn regroup(n: &mut Node, old: &str, selector: &str, new: &str, keeps: &[String]) -> usize {
    if key_of(n, new).is_some() {
        return 0;
    }
    let Some(e) = entry(n, old) else { return 0 };
    let Node::Map { flow: false, items } = &e.node else { return 0 };
    // each entry with the comments that go with it
    let mut groups: Vec<(Vec<Item>, Option<Entry>)> = Vec::new();
    let mut pending: Vec<Item> = Vec::new();
    for it in items {
        match it {
            Item::Entry(e) => {
                let mut g = std::mem::take(&mut pending);
                g.push(Item::Entry(e.clone()));
                groups.push((g, Some(e.clone())));
            }
            Item::Inline(_) if pending.is_empty() => match groups.last_mut() {
                Some(g) => g.0.push(it.clone()),
                None => groups.push((vec![it.clone()], None)),
            },
            c => pending.push(c.clone()),
        }
    }
    match groups.last_mut() {
        Some(g) => g.0.extend(pending),
        None => groups.push((pending, None)),
    }
    let mut stay: Vec<Item> = Vec::new();
    let mut moved: std::collections::BTreeMap<String, Vec<Item>> = Default::default();
    for (mut g, e) in groups {
        let value = e.as_ref().and_then(|e| match entry(&e.node, selector) {
            Some(Entry { node: Node::Scalar(s), .. }) => Some(s.value.clone()),
            _ => None,
        });
        match value {
            None => stay.extend(g),
            Some(v) => {
                for i in &mut g {
                    if let Item::Entry(e) = i {
                        take(&mut e.node, selector);
                    }
                }
                if v.is_empty() || keeps.contains(&v) {
                    stay.extend(g);
                } else {
                    moved.entry(v).or_default().extend(g);
                }
            }
        }
    }
    if moved.is_empty() {
        return 0;
    }
    let e = entry_mut(n, old).unwrap();
    e.node = Node::Map { flow: false, items: stay };
    // the name of the whole map is given to both parts
    let alias = e.alias.clone();
    let sub = moved
        .into_iter()
        .map(|(key, items)| Item::Entry(Entry { key, alias: None, node: Node::Map { flow: false, items } }))
        .collect();
    let Node::Map { items, .. } = n else { unreachable!() };
    items.push(Item::Entry(Entry { key: new.to_string(), alias, node: Node::Map { flow: false, items: sub } }));
    1
}

pub fn run(h: &mut Holder, p: &YamlPath, e: &Edit) -> Result<usize, String> {
    guarded(|| match e {
        Edit::Insert { value, overwrite, by_call } => {
            let v = proj::aliased(value);
            if *by_call {
                let calls = std::cell::Cell::new(0usize);
                let n = on!(h, x => x.insert_into_hash_by_call(p, || { calls.set(calls.get() + 1); v.clone() }, *overwrite));
                if calls.get() < n {
                    return Err(format!("{} values stored after {} calls", n, calls.get()));
                }
                Ok(n)
            } else {
                Ok(on!(h, x => x.insert_into_hash(p, &v, *overwrite)))
            }
        }
        Edit::Remove => Ok(on!(h, x => x.remove_from_hash(p))),
        Edit::Rename(n) => Ok(on!(h, x => x.rename_field(p, n.clone()))),
        Edit::Wrap(n) => Ok(on!(h, x => x.to_object(p, n.clone()))),
        Edit::Move { subfield, fields } => Ok(on!(h, x => x.move_to_subfield(p, subfield.clone(), fields.clone()))),
        Edit::Regroup { old, selector, new, keeps } => {
            Ok(on!(h, x => x.move_to_map_with_field_as_key(p, old.clone(), selector.clone(), new.clone(), keeps.clone())))
        }
    })
    .map_err(|e| format!("panics: {}", e))?
}

fn steps_for_edit(r: &mut Rng, root: &Node, key_end: bool) -> Steps {
    let mut s = gen_steps(r, root, key_end);
    for st in &mut s {
        // an index twice in one step would apply the edit twice
        if let Kind::Idx(v) = &mut st.kind {
            v.sort();
            v.dedup();
        }
    }
    s
}

/// Mostly steps that lead to block mappings (holding a mapping).
fn steps_to_maps(r: &mut Rng, root: &Node, nested: bool) -> Steps {
    let mut s = steps_for_edit(r, root, false);
    for _ in 0..8 {
        let good = |n: &Node| matches!(n, Node::Map { flow: false, .. }) && (!nested || n.entries().iter().any(|e| matches!(e.node, Node::Map { flow: false, .. })));
        if r.chance(1, 12) || select(root, &s).iter().any(|p| good(at(root, p))) {
            break;
        }
        s = if r.chance(1, 4) { vec![Step { kind: Kind::Root, conds: gen_conds(r, root) }] } else { steps_for_edit(r, root, false) };
    }
    s
}

fn gen_key_for(r: &mut Rng) -> String {
    match r.below(60) {
        0 => {
            let n = long(r, 400);
            let mut k = gen_odd_key(r, true);
            while k.len() < n {
                k.push_str(&gen_odd_key(r, true));
            }
            k
        }
        1..=5 => gen_odd_key(r, true),
        _ => r.pick(&["a", "b", "c", "d", "k x", "zz", "new", "other", "é"]).to_string(),
    }
}
fn odd_key(r: &mut Rng) -> String {
    r.pick(&["a.b", "a[0]", "|", "", "a|b=c", "[", "x.", "*", " a", "a "]).to_string()
}

pub fn gen_edit(r: &mut Rng, root: &Node, kind: usize, odd: bool) -> (Steps, Edit) {
    match kind {
        0 | 1 => {
            let mut cfg = Cfg::random(r, 4);
            cfg.comments = 0;
            cfg.max_depth = 2;
            let depth = if r.chance(1, 2) { 2 } else { 0 };
            let alias = if r.chance(1, 6) { Some("al".to_string()) } else { None };
            let value = Entry { key: String::new(), alias, node: gen_node(r, &mut cfg, depth, false) };
            let value = if matches!(value.node, Node::Ref(_)) { Entry { alias: None, ..value } } else { value };
            (steps_for_edit(r, root, true), Edit::Insert { value, overwrite: r.chance(1, 2), by_call: r.chance(1, 2) })
        }
        2 => (steps_for_edit(r, root, true), Edit::Remove),
        3 => (steps_for_edit(r, root, true), Edit::Rename(gen_key_for(r))),
        4 => (steps_for_edit(r, root, true), Edit::Wrap(gen_key_for(r))),
        5 => {
            let steps = steps_to_maps(r, root, kind == 6);
            let mut pool: Vec<String> = select(root, &steps).iter().flat_map(|p| at(root, p).entries().into_iter().map(|e| e.key.clone()).collect::<Vec<_>>()).filter(|k| !k.is_empty()).collect();
            pool.extend(["a", "b", "zz"].map(String::from));
            let count = if r.chance(1, 12) { long(r, 60) } else { r.below(4) };
            let mut fields: Vec<String> = (0..count).map(|_| r.pick(&pool).clone()).collect();
            if count > 4 {
                // most lists name a field once
                let mut seen = std::collections::HashSet::new();
                fields.retain(|f| seen.insert(f.clone()));
                if r.chance(1, 3) {
                    fields.truncate(2);
                    fields.extend((0..count).map(|i| format!("missing{}", i)));
                    fields.push(r.pick(&pool).clone());
                }
            }
            let mut subfield = if r.chance(1, 2) { r.pick(&pool).clone() } else { gen_key_for(r) };
            if odd && r.chance(1, 4) {
                subfield = odd_key(r);
            }
            if odd && r.chance(1, 4) {
                fields.push(odd_key(r));
            }
            if r.chance(1, 10) {
                fields.push(subfield.clone());
            }
            (steps, Edit::Move { subfield, fields })
        }
        _ => {
            // at a mapping with a mapping of mappings, if there is one
            let steps = steps_to_maps(r, root, kind == 6);
            let at0 = select(root, &steps);
            let keys: Vec<String> = at0.iter().flat_map(|p| at(root, p).entries().into_iter().filter(|e| matches!(e.node, Node::Map { flow: false, .. })).map(|e| e.key.clone()).collect::<Vec<_>>()).filter(|k| !k.is_empty()).collect();
            let old = if keys.is_empty() || r.chance(1, 10) { gen_key_for(r) } else { r.pick(&keys).clone() };
            let mut sels: Vec<(String, String)> = Vec::new();
            for p in &at0 {
                if let Some(e) = entry(at(root, p), &old) {
                    for x in e.node.entries() {
                        for y in x.node.entries() {
                            if let Node::Scalar(s) = &y.node {
                                sels.push((y.key.clone(), s.value.clone()));
                            }
                        }
                    }
                }
            }
            let selector = if sels.is_empty() || r.chance(1, 10) { if odd { odd_key(r) } else { "a".into() } } else { r.pick(&sels).0.clone() };
            let mut keeps: Vec<String> = Vec::new();
            while r.chance(1, 3) {
                keeps.push(if sels.is_empty() { "x".into() } else { r.pick(&sels).1.clone() });
            }
            if r.chance(1, 6) {
                // something in front of them
                let others: Vec<String> = (0..if r.chance(1, 4) { long(r, 60) } else { 1 + r.below(9) }).map(|i| format!("other {}", i)).collect();
                keeps.splice(0..0, others);
            }
            if r.chance(1, 8) {
                // almost one of the values
                if let Some((_, v)) = sels.get(r.below(sels.len().max(1))) {
                    let near = nearly(v);
                    keeps.push(r.pick(&near).clone());
                }
            }
            let new = match r.below(6) {
                0 => old.clone(),
                1 => gen_key_for(r),
                2 if odd => odd_key(r),
                _ => "grouped".to_string(),
            };
            (steps, Edit::Regroup { old, selector, new, keeps })
        }
    }
}

fn edit_case(r: &mut Rng, ctx: &mut Ctx, kinds: &[usize]) -> Res {
    let mut d = gen_world(r, ctx);
    let direct = r.chance(1, 3);
    if kinds.contains(&6) && r.chance(3, 4) {
        d.root = regroupable(r, !direct);
    }
    if direct && r.chance(1, 6) {
        hollow(r, &mut d.root);
        ctx.hit("documents with collections that have only comments");
    }
    if direct && r.chance(1, 4) {
        super::pretty::foreign(r, &mut d.root);
        ctx.hit("documents with block collections in flow ones");
    }
    let doc = if direct { proj::document(&d) } else { lib_doc(r, &d)? };
    let mut h = Holder::new(r, doc, &d);
    let mut history = if direct { d.dump(FULL) } else { render_plain(&d) };
    for _ in 0..1 + r.below(4) {
        let kind = *r.pick(kinds);
        let (steps, e) = gen_edit(r, &d.root, kind, true);
        let Some(p) = lib_path(&steps) else { continue };
        history.push_str(&format!("\n--- {:?} at {:?}", e, text_or_debug(&steps)));
        ctx.say(history.clone());
        let want = apply(&mut d.root, &steps, &e);
        ctx.hit("edits");
        if want > 0 {
            ctx.hit("edits that change something");
            ctx.add("entries changed", want as u64);
            ctx.distinct(&history);
        }
        if let (Edit::Regroup { new, .. }, true) = (&e, want == 0) {
            if select(&d.root, &steps).iter().any(|p| key_of(at(&d.root, p), new).is_some()) {
                ctx.hit("regroupings whose new name is taken");
            }
        }
        if want > 1 {
            ctx.hit("edits at several places");
        }
        let got = run(&mut h, &p, &e)?;
        if got != want {
            return Err(format!("the edit counts {} instead of {}", got, want));
        }
        let m = h.model()?;
        let (w, g) = (d.dump(FULL), m.dump(FULL));
        if w != g {
            return Err(diff("the edited document differs", &w, &g));
        }
    }
    Ok(())
}

/// Takes the entries from some block collections, and leaves comments in them, like removals do.
fn hollow(r: &mut Rng, n: &mut Node) {
    if let Node::Map { flow, items } | Node::Seq { flow, items } = n {
        if !*flow && r.chance(1, 3) {
            items.retain(|i| matches!(i, Item::Comment(_)));
            if items.is_empty() || r.chance(1, 4) {
                items.push(Item::Comment(" left".into()));
            }
            return;
        }
        for i in items {
            if let Item::Entry(e) = i {
                hollow(r, &mut e.node);
            }
        }
    }
}

/// A mapping (possibly inside others) of mappings with fields to group by.
/// `writable`: only comments at places where a text can have them.
fn regroupable(r: &mut Rng, writable: bool) -> Node {
    let mut cfg = Cfg::random(r, 4);
    cfg.few_keys = true;
    cfg.max_depth = 1;
    let note = |r: &mut Rng, items: &mut Vec<Item>, inline: bool| {
        if r.chance(1, 5) {
            let c = format!(" c{}", r.below(100));
            items.push(if inline { Item::Inline(c) } else { Item::Comment(c) });
            if !inline && r.chance(1, 10) {
                for _ in 0..if r.chance(1, 6) { long(r, 50) } else { 1 + r.below(5) } {
                    items.push(Item::Comment(format!(" c{}", r.below(100))));
                }
            }
        }
    };
    let wide = r.chance(1, 12);
    let groups = if wide { 1 + r.below(40) } else { 0 };
    let lengthy = if r.chance(1, 15) { "long ".repeat(long(r, 60)) + "name" } else { String::new() };
    let mut items = Vec::new();
    if !writable {
        note(r, &mut items, true);
    }
    for i in 0..if wide { long(r, 100) } else { r.below(6) } {
        note(r, &mut items, false);
        let mut fields = Vec::new();
        for k in ["a", "b", "c", "d"] {
            if r.chance(2, 3) {
                let node = match r.below(8) {
                    0 => gen_node(r, &mut cfg, 1, false),
                    1 => Node::Scalar(Scalar { style: Style::Single, value: String::new(), chomp: ' ', src: Src::Quoted(vec![]) }),
                    2 => Node::Ref("x".into()),
                    3 => {
                        let w = *r.pick(&["g1", "g2"]);
                        Node::Scalar(Scalar { style: Style::Double, value: w.into(), chomp: ' ', src: Src::Quoted(vec![Piece::Text(w.into())]) })
                    }
                    4 => plain(*r.pick(&["g-1", "g 2", "g  2", "G1", "_", "a longer name of a group of entries", "g1é", "~", "null", "true", "g1:x"])),
                    5 if !lengthy.is_empty() => plain(&lengthy),
                    _ if groups > 0 => plain(&format!("g{}", r.below(groups))),
                    _ => plain(*r.pick(&["g1", "g2", "G", "10", "9", "é"])),
                };
                note(r, &mut fields, false);
                let leaf = node.is_leaf() && !node.is_block_scalar();
                fields.push(Item::Entry(Entry { key: k.into(), alias: None, node }));
                if leaf {
                    note(r, &mut fields, true);
                }
            }
        }
        let flow = fields.is_empty();
        let node = if r.chance(1, 6) { plain("lone") } else { Node::Map { flow, items: fields } };
        let leaf = node.is_leaf();
        items.push(Item::Entry(Entry { key: format!("{}{}", r.pick(&["e", "f", "k x"]), i), alias: if r.chance(1, 8) { Some(format!("n{}", i)) } else { None }, node }));
        if leaf {
            note(r, &mut items, true);
        }
    }
    if items.is_empty() {
        items.push(Item::Entry(Entry { key: "e".into(), alias: None, node: plain("1") }));
    }
    let map = Entry { key: "a".into(), alias: if r.chance(1, 6) { Some("m".into()) } else { None }, node: Node::Map { flow: false, items } };
    let mut outer = vec![Item::Entry(map)];
    if r.chance(1, 2) {
        outer.push(Item::Entry(Entry { key: "b".into(), alias: None, node: plain("x") }));
        note(r, &mut outer, true);
    }
    if r.chance(1, 5) {
        outer.push(Item::Entry(Entry { key: "grouped".into(), alias: None, node: plain("x") }));
    }
    if !writable {
        note(r, &mut outer, false);
        note(r, &mut outer, true);
    }
    let mut n = Node::Map { flow: false, items: outer };
    if r.chance(1, 3) {
        let other = n.clone();
        n = Node::Seq { flow: false, items: vec![Item::Entry(Entry { key: String::new(), alias: None, node: n }), Item::Entry(Entry { key: String::new(), alias: None, node: other })] };
    }
    if r.chance(1, 3) {
        n = Node::Map { flow: false, items: vec![Item::Entry(Entry { key: "d".into(), alias: None, node: n })] };
    }
    n
}

fn c12(r: &mut Rng, ctx: &mut Ctx) -> Res {
    edit_case(r, ctx, &[0])
}
fn c13(r: &mut Rng, ctx: &mut Ctx) -> Res {
    edit_case(r, ctx, &[2, 3, 4])
}
fn c14(r: &mut Rng, ctx: &mut Ctx) -> Res {
    edit_case(r, ctx, &[5])
}
fn c15(r: &mut Rng, ctx: &mut Ctx) -> Res {
    edit_case(r, ctx, &[6])
}

// ---------------------------------------------------------------------------------------------

/// Data and comments of a document whose empty block containers became empty flow ones or vice versa.
const EDITED: Show = Show { comments: true, comment_kind: false, style: true, plainness: true, flow: false, alias: true };

fn has_bare(n: &Node) -> bool {
    match n {
        Node::Map { flow: false, .. } | Node::Seq { flow: false, .. } => n.entries().is_empty() || n.entries().iter().any(|e| has_bare(&e.node)),
        _ => false,
    }
}

fn c16(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let mut d = gen_world(r, ctx);
    if r.chance(1, 4) {
        d.root = regroupable(r, true);
    }
    let l = Layout::random(r);
    let (text, _) = render(&d, l, r);
    let doc = parse_ok(&text)?;
    let mut h = Holder::Doc(doc);
    let mut history = text;
    for _ in 0..1 + r.below(6) {
        let kind = r.below(7);
        let model = h.model()?;
        let (steps, e) = gen_edit(r, &model.root, kind, false);
        if let Edit::Regroup { old, selector, .. } = &e {
            // the values become keys
            let bad = select(&model.root, &steps).iter().any(|p| {
                entry(at(&model.root, p), old).map_or(false, |e| {
                    e.node.entries().iter().any(|x| matches!(entry(&x.node, selector), Some(Entry { node: Node::Scalar(s), .. }) if !key_like(&s.value)))
                })
            });
            if bad {
                continue;
            }
        }
        let Some(p) = lib_path(&steps) else { continue };
        history.push_str(&format!("\n--- {:?} at {:?}", e, text_or_debug(&steps)));
        ctx.say(history.clone());
        let n = run(&mut h, &p, &e)?;
        ctx.hit("edits");
        if n > 0 {
            ctx.hit("edits that change something");
            ctx.distinct(&history);
        }
        let Holder::Doc(doc) = &h else { unreachable!() };
        let out = doc.format().map_err(|e| format!("format fails: {}", e))?;
        let back = yaml_subset::yaml::parse_yaml_file(&out).map_err(|e| format!("the formatted text is rejected:\n{}\n--- formatted\n{}", e, out))?;
        let (w, g) = (h.model()?, proj::doc(&back)?);
        let (wd, gd) = (w.dump(Show { comments: false, ..EDITED }), g.dump(Show { comments: false, ..EDITED }));
        if wd != gd {
            return Err(format!("{}\n--- formatted\n{}", diff("the formatted text has other data", &wd, &gd), out));
        }
        let (wc, gc) = (w.comments(), g.comments());
        if wc != gc {
            return Err(format!("{}\n--- formatted\n{}", diff("the formatted text has other comments", &format!("{:?}", wc), &format!("{:?}", gc)), out));
        }
        if has_bare(&w.root) {
            ctx.hit("documents with containers left without entries");
        }
        // and it is stable from here on, unless a comment was left where reading back puts it elsewhere
        if w.dump(FULL) != g.dump(FULL) {
            continue;
        }
        let out2 = back.format().map_err(|e| format!("format fails: {}", e))?;
        if out2 != out {
            return Err(diff("formatting what was read back gives another text", &out, &out2));
        }
    }
    Ok(())
}

pub fn key_like(k: &str) -> bool {
    plain_ok(k, true) && !k.contains([':', '\'', '"']) && k.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_')
        && k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-' || c == ' ')
}

/// A document, edits made to it one after the other, and queries in between (C25).
#[derive(Clone)]
pub struct Script {
    pub doc: Doc,
    pub edits: Vec<(Steps, Edit)>,
    pub queries: Vec<Steps>,
}

pub fn script(r: &mut Rng, size: usize) -> Script {
    let mut ctx = Ctx { size, ..Ctx::default() };
    let mut doc = gen_world(r, &mut ctx);
    if r.chance(1, 4) {
        doc.root = regroupable(r, true);
    }
    let mut root = doc.root.clone();
    let queries = (0..3).map(|_| gen_steps(r, &root, false)).collect();
    let mut edits = Vec::new();
    for _ in 0..1 + r.below(4) {
        let kind = r.below(7);
        let (steps, e) = gen_edit(r, &root, kind, true);
        apply(&mut root, &steps, &e);
        edits.push((steps, e));
    }
    Script { doc, edits, queries }
}

/// What the library makes of it, in full.
pub fn play(s: &Script) -> String {
    let mut h = Holder::Doc(proj::document(&s.doc));
    let mut out = String::new();
    for (i, (steps, e)) in s.edits.iter().enumerate() {
        for q in s.queries.iter().skip(i % 3).take(1) {
            if let Some(p) = lib_path(q) {
                let got = guarded(|| on!(&mut h, x => x.find_values(&p)));
                out.push_str(&format!("{:?}\n", got.map(|MyVec(v)| v)));
            }
        }
        if let Some(p) = lib_path(steps) {
            out.push_str(&format!("{:?}\n", run(&mut h, &p, e)));
        }
    }
    let Holder::Doc(d) = h else { unreachable!() };
    out.push_str(&format!("{:?}\n{:?}", d, guarded(|| d.format())));
    out
}

pub fn checks() -> Vec<Check> {
    let c = |id, rule, assumptions, quick, thorough, case| Check { id, rule, assumptions, quick, thorough, case, fixed: no_fixed, known: |_: &str, _: &mut Ctx| Ok(()) };
    vec![
        c("C10", "Random steps are spelled, some with blanks around their parts, and parsed, pairs of paths are appended, and random texts are compared with an independent recognizer. Non-trivial: more than one step, a pair, or a random text.",
          &["blanks are spaces; other white space belongs to the name or value it is in"], 1_500_000, 15_000_000, c10 as Case),
        c("C11", "Six queries on a random document, compared with an interpreter over the model. Non-trivial: several steps, selecting something.",
          &["conditions that a path text can spell"], 200_000, 4_000_000, c11 as Case),
        c("C12", "Up to four insertions into a random document, each compared, count and document, with the same edit of the model. Non-trivial: changes something.",
          &["an index is given once per step"], 300_000, 4_000_000, c12 as Case),
        c("C13", "Up to four removals, renamings and wrappings in a random document, each compared with the model. Non-trivial: changes something.",
          &["an index is given once per step"], 300_000, 4_000_000, c13 as Case),
        c("C14", "Up to four moves into subfields of a random document, each compared with the model. Non-trivial: changes something.",
          &["an index is given once per step"], 250_000, 4_000_000, c14 as Case),
        c("C15", "Up to four regroupings of a random document, most with a mapping made for it, each compared with the model. Non-trivial: changes something.",
          &["the alias of the whole map is given to both parts, as the code does"], 250_000, 4_000_000, c15 as Case),
        c("C16", "Up to six random edits of a parsed random document; after each the document is formatted, parsed and compared with the edited tree. Non-trivial: changes something.",
          &["new keys and selector values are well-formed keys"], 110_000, 4_000_000, c16 as Case),
    ]
}
