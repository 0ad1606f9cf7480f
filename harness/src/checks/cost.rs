//! C24, C26: how much work parsing and everything else takes.
use crate::alloc::cost;
use crate::engine::*;
use crate::fuzz::*;
use crate::rng::Rng;
use std::num::NonZeroUsize;
use std::sync::Mutex;
use super::paths::{gen_edit, gen_steps, lib_path, run, Holder, Kind, Step, Steps};
use crate::model::*;
use crate::schema::{read, write, Schema, Val, Variant};
use crate::types::Any;
use yaml_subset::yaml::{from_yaml, parse_yaml_file, Document, DocumentData, MapYaml, Pretty, VisitYaml, YamlError, YamlInsert};

/// The limit is one for the whole process.
static LIMIT: Mutex<()> = Mutex::new(());

/// Parses with a limit on the steps; Err: it takes more. With what it allocates.
fn limited(text: &str, limit: usize) -> Result<(Result<Document, YamlError>, u64, u64), ()> {
    let _g = LIMIT.lock().unwrap_or_else(|e| e.into_inner());
    pest::set_call_limit(NonZeroUsize::new(limit));
    let (r, bytes, calls) = cost(|| guarded(|| parse_yaml_file(text)));
    pest::set_call_limit(None);
    match r {
        Ok(Err(e)) if e.to_string().contains("call limit reached") => Err(()),
        Ok(r) => Ok((r, bytes, calls)),
        Err(m) => panic!("{}", m),
    }
}

pub fn exceeds(text: &str, limit: usize) -> bool {
    limited(text, limit).is_err()
}

/// The number of steps, at most `cap`.
pub fn steps(text: &str, cap: usize) -> usize {
    let mut hi = 64;
    while hi < cap && exceeds(text, hi) {
        hi *= 2;
    }
    if hi >= cap {
        return cap;
    }
    let mut lo = hi / 2;
    while lo + 1 < hi && hi - lo > hi / 64 {
        let m = (lo + hi) / 2;
        if exceeds(text, m) {
            lo = m;
        } else {
            hi = m;
        }
    }
    hi
}

pub const FAMILIES: &[&str] = &[
    "maps below maps", "sequences on one line", "sequences below sequences", "flow sequences", "flow mappings", "maps on the lines of dashes", "dash, key, dash, key", "key and flush sequence", "aliased nesting",
    "comments at every level", "blank lines at every level", "plain text", "keys", "elements", "flow elements", "blank lines", "comments", "leading comments", "literal lines", "folded blank lines", "quoted escapes",
    "quoted line breaks", "block scalars at every level", "closing many levels", "colons", "dashes", "spaces", "keys on one line", "quotes", "flow in flow maps on lines", "hash marks", "ampersands", "deep flow with blanks",
];

/// A document of the family with `n` parts, ending in `end`.
pub fn family(f: usize, n: usize, end: &str) -> String {
    let sp = |k: usize| " ".repeat(k);
    let mut s = String::from("---\n");
    let each = |s: &mut String, f: &dyn Fn(usize) -> String| {
        for i in 0..n {
            s.push_str(&f(i));
        }
    };
    match f {
        0 => {
            each(&mut s, &|i| format!("{}k:\n", sp(i)));
            s.push_str(&format!("{}z: {}", sp(n), end));
        }
        1 => s.push_str(&format!("{}{}", "- ".repeat(n), end)),
        2 => {
            each(&mut s, &|i| format!("{}-\n", sp(i)));
            s.push_str(&format!("{}- {}", sp(n), end));
        }
        3 => s.push_str(&format!("{}{}{}", "[".repeat(n), end, "]".repeat(n))),
        4 => s.push_str(&format!("k: {}{}{}", "{a: ".repeat(n), end, "}".repeat(n))),
        5 => {
            each(&mut s, &|i| format!("{}- k:\n", sp(3 * i)));
            s.push_str(&format!("{}- {}", sp(3 * n), end));
        }
        6 => {
            each(&mut s, &|i| format!("{}- k:\n{}- a: 1\n{}  b:\n", sp(6 * i), sp(6 * i + 3), sp(6 * i + 3)));
            s.push_str(&format!("{}- {}", sp(6 * n), end));
        }
        7 => {
            each(&mut s, &|i| format!("{}k:\n{}- ", sp(2 * i), sp(2 * i)).replace("- ", "-\n"));
            s.push_str(&format!("{}z: {}", sp(2 * n), end));
        }
        8 => {
            each(&mut s, &|i| format!("{}k: &a{}\n", sp(i), i));
            s.push_str(&format!("{}z: &b {}", sp(n), end));
        }
        9 => {
            each(&mut s, &|i| format!("{}# c\n{}k: # d\n", sp(i), sp(i)));
            s.push_str(&format!("{}z: {}", sp(n), end));
        }
        10 => {
            each(&mut s, &|i| format!("{}k:\n\n  \n\n", sp(i)));
            s.push_str(&format!("{}z: {}", sp(n), end));
        }
        11 => s.push_str(&format!("k: {}{}", "word ".repeat(n), end)),
        12 => {
            each(&mut s, &|i| format!("k{}: v\n", i));
            s.push_str(end);
        }
        13 => {
            each(&mut s, &|_| "- v\n".to_string());
            s.push_str(end);
        }
        14 => s.push_str(&format!("- [{}{}", "a, ".repeat(n), end)),
        15 => s.push_str(&format!("k: v{}{}", "\n".repeat(n), end)),
        16 => {
            s.push_str("k: v\n");
            each(&mut s, &|_| "# c\n".to_string());
            s.push_str(end);
        }
        17 => {
            let c = "# c\n\n".repeat(n);
            s = format!("{}---\nk: {}", c, end);
        }
        18 => {
            s.push_str("k: |\n");
            each(&mut s, &|_| "  line of text\n".to_string());
            s.push_str(end);
        }
        19 => {
            s.push_str("k: >-\n  a\n");
            each(&mut s, &|_| "\n".to_string());
            s.push_str(&format!("  {}", end));
        }
        20 => s.push_str(&format!("k: \"{}{}", "\\n\\\\".repeat(n), end)),
        21 => s.push_str(&format!("k: 'a{}{}", "\n\n b".repeat(n), end)),
        22 => {
            each(&mut s, &|i| format!("{}a: |\n{} x\n{}k:\n", sp(i), sp(i), sp(i)));
            s.push_str(&format!("{}z: {}", sp(n), end));
        }
        23 => {
            each(&mut s, &|i| format!("{}k:\n", sp(i)));
            s.push_str(&format!("{}z: 1\n\n\n# c\n", sp(n)));
            for i in (0..n).rev() {
                s.push_str(&format!("{}b: 1\n\n", sp(i)));
            }
            s.push_str(end);
        }
        24 => s.push_str(&format!("k: {}{}", "a:b".repeat(n), end)),
        25 => s.push_str(&format!("k: x{}{}", "-".repeat(n), end)),
        26 => s.push_str(&format!("k:{}{}", sp(n), end)),
        27 => s.push_str(&format!("{}{}", "k: ".repeat(n), end)),
        28 => s.push_str(&format!("k: '{}{}", "''".repeat(n), end)),
        29 => {
            s.push_str("k: ");
            each(&mut s, &|i| format!("{{\n a: [{}", if i % 2 == 0 { "b,\n\n" } else { "" }));
            s.push_str(end);
        }
        30 => s.push_str(&format!("k: v {}{}", "#".repeat(n), end)),
        31 => s.push_str(&format!("k: {}{}", "&a ".repeat(n), end)),
        _ => s.push_str(&format!("- {}{}{}", "[ \n  ".repeat(n), end, "\n ] ".repeat(n))),
    }
    s
}

pub const ENDS: &[&str] = &["x\n", "x", "'", "\"", "[", "{", "&", "- ", "a: b: c\n", "|\n", "\n x\n", "\t", "]", "}", ": ", "x\ny: 1\n", "# c\n", "|2\n  x\n", "", "- x\n z: 1\n"];

/// Nested by a random way at each level.
fn mixed(r: &mut Rng, n: usize) -> String {
    let mut s = String::from("---\n");
    let mut at = 0;
    let mut fresh = true;
    for i in 0..n {
        if fresh {
            s.push_str(&" ".repeat(at));
        }
        match r.below(9) {
            0 | 1 => {
                s.push_str(r.pick(&["- ", "-   ", "- "]));
                at += 2;
                fresh = false;
                continue;
            }
            2 if fresh => {
                s.push_str(&format!("a{}: 1\n{}k: # c\n", i, " ".repeat(at)));
                at += 1 + r.below(3);
            }
            3 => {
                s.push_str("k:\n");
                at += 1 + r.below(3);
            }
            4 => {
                s.push_str("- k:\n");
                at += 3;
            }
            5 => {
                s.push_str(&format!("k: &a{}\n", i));
                at += 1;
            }
            6 => {
                s.push_str("-\n");
                at += 1;
            }
            7 => {
                s.push_str(&format!("k:\n{}# c\n", " ".repeat(r.below(at + 3))));
                at += 1;
            }
            _ => {
                s.push_str("- - a: b\n");
                s.push_str(&format!("{}- k:\n", " ".repeat(at + 2)));
                at += 5;
            }
        }
        fresh = true;
    }
    if fresh {
        s.push_str(&" ".repeat(at));
    }
    s.push_str(*r.pick(ENDS));
    if r.chance(1, 2) {
        // and back out again
        while at > 0 {
            at -= 1 + r.below(at.min(4));
            s.push_str(&format!("\n{}{}", " ".repeat(at), r.pick(&["b: 1", "- 1", "", "# c", "c: [", "b:\n"])));
        }
    }
    s
}

/// Levels of one or two shapes, each with the same company before and after what is nested in it.
fn tower(r: &mut Rng, n: usize) -> String {
    let mut cfg = Cfg::random(r, 3);
    cfg.max_depth = 1;
    let all_flow = r.chance(1, 2);
    if all_flow {
        cfg.comments = 0;
        cfg.aliases = 0;
    }
    let kinds = 1 + r.below(2);
    // (map, flow, company before, company after, name, comment)
    let mut shapes = Vec::new();
    for _ in 0..kinds {
        let flow = all_flow;
        let company = |r: &mut Rng, cfg: &mut Cfg| -> Vec<Node> {
            let k = *r.pick(&[0, 0, 1, 1, 2, 4]);
            (0..k)
                .map(|_| {
                    if r.chance(1, 3) {
                        gen_node(r, cfg, 1, flow)
                    } else {
                        plain(r.pick(&["1", "x", "true", "a b"]))
                    }
                })
                .collect()
        };
        let before = company(r, &mut cfg);
        let after = company(r, &mut cfg);
        let alias = (cfg.aliases > 0 && r.chance(1, 3)).then(|| "n".to_string());
        shapes.push((r.chance(1, 2), flow, before, after, alias, cfg.comments > 0 && r.chance(1, 3)));
    }
    let mut node = plain("x");
    for i in 0..n {
        let (map, flow, before, after, alias, comment) = &shapes[i % kinds];
        let mut items = Vec::new();
        let mut k = 0;
        let mut put = |items: &mut Vec<Item>, node: Node, alias: Option<String>| {
            k += 1;
            let alias = alias.filter(|_| !matches!(node, Node::Ref(_)));
            items.push(Item::Entry(Entry { key: if *map { format!("k{}", k) } else { String::new() }, alias, node }));
        };
        for b in before {
            put(&mut items, b.clone(), None);
        }
        if *comment {
            items.push(Item::Comment(" c".to_string()));
        }
        put(&mut items, node, alias.clone());
        for b in after {
            put(&mut items, b.clone(), None);
        }
        node = if *map { Node::Map { flow: *flow, items } } else { Node::Seq { flow: *flow, items } };
    }
    if all_flow {
        node = Node::Map { flow: false, items: vec![Item::Entry(Entry { key: "k".to_string(), alias: None, node })] };
    }
    let d = Doc { lead: vec![], pre: vec![], root: node, post: vec![] };
    crate::render::render_plain(&d)
}

fn step_bound(len: usize) -> usize {
    let l = len + 20;
    200 * l + 2 * l * l
}
fn byte_bound(len: usize) -> u64 {
    let l = len as u64 + 20;
    20_000 * l + 40 * l * l
}

fn bounded(text: &str, ctx: &mut Ctx) -> Res {
    let limit = step_bound(text.len());
    let (d, bytes, calls) = limited(text, limit).map_err(|_| format!("parsing {} bytes takes more than {} steps", text.len(), limit))?;
    let check = |what: &str, bytes: u64, calls: u64| -> Res {
        if bytes > byte_bound(text.len()) {
            return Err(format!("{} a text of {} bytes allocates {} bytes in {} calls, more than {}", what, text.len(), bytes, calls, byte_bound(text.len())));
        }
        Ok(())
    };
    check("parsing", bytes, calls)?;
    ctx.max("bytes allocated by parsing, per byte", bytes / (text.len() as u64 + 20));
    ctx.max("length", text.len() as u64);
    match d {
        Err(e) => {
            ctx.hit("rejected");
            let (_, bytes, calls) = cost(|| e.to_string());
            check("showing the error of", bytes, calls)?;
        }
        Ok(d) => {
            ctx.hit("accepted");
            let (out, bytes, calls) = cost(|| d.format());
            check("formatting", bytes, calls)?;
            ctx.max("bytes allocated by formatting, per byte", bytes / (text.len() as u64 + 20));
            if let Ok(out) = out {
                let l = text.len() as u64 + 20;
                if out.len() as u64 > l * l {
                    return Err(format!("a text of {} bytes formats to {} bytes", text.len(), out.len()));
                }
            }
            let (p, bytes, calls) = cost(|| d.pretty());
            check("prettifying", bytes, calls)?;
            ctx.max("bytes allocated by prettifying, per byte", bytes / (text.len() as u64 + 20));
            let (_, bytes, calls) = cost(|| p.format());
            check("formatting, prettified,", bytes, calls)?;
        }
    }
    Ok(())
}

fn c24(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let most = if ctx.thorough && r.chance(1, 20) { 90 } else { 60 };
    let n = 1 + r.below(most);
    let text = match r.below(6) {
        0 | 1 => {
            let f = r.below(FAMILIES.len());
            ctx.hit(&format!("family: {}", FAMILIES[f]));
            let n = if f >= 11 && ![22, 23, 29, 32].contains(&f) && r.chance(1, 3) { n * 10 } else { n };
            let end = *r.pick(ENDS);
            family(f, n, end)
        }
        2 if r.chance(2, 3) => {
            ctx.hit("towers");
            tower(r, n)
        }
        2 | 3 => {
            ctx.hit("mixed nesting");
            mixed(r, n)
        }
        _ => {
            let (_, t) = any_text(r, ctx.size);
            let k = if r.chance(1, 10) { 1 + r.below(8) } else { 1 };
            let body = t.strip_prefix("---\n").unwrap_or(&t).to_string();
            let mut t = t.clone();
            for _ in 1..k {
                t.push_str(&body);
            }
            t
        }
    };
    let text = if r.chance(1, 4) { mutate(r, &text) } else { text };
    ctx.say(text.clone());
    ctx.distinct(&text);
    if ctx.index % 40 == 0 {
        let k = steps(&text, step_bound(text.len()));
        ctx.hit("steps counted");
        ctx.max("steps per byte", (k / (text.len() + 20)) as u64);
        ctx.max("steps", k as u64);
    }
    bounded(&text, ctx)
}

fn fixed() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> {
    let mut v: Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> = Vec::new();
    for f in 0..FAMILIES.len() {
        for end in ENDS {
            v.push((
                format!("family {}, ending in {:?}, with 5, 10, 20, 40 parts", FAMILIES[f], end),
                Box::new(move |ctx: &mut Ctx| {
                    for n in [5, 10, 20, 40] {
                        let t = family(f, n, end);
                        bounded(&t, ctx).map_err(|e| format!("{} parts: {}\n{}", n, e, t))?;
                    }
                    Ok(())
                }),
            ));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C26: everything after parsing.

fn fits_bound(what: &str, len: usize, (bytes, calls): (u64, u64), ctx: &mut Ctx) -> Res {
    ctx.hit(what);
    ctx.max(&format!("bytes allocated by {}, per byte", what), bytes / (len as u64 + 20));
    let l = len as u64 + 20;
    let bound = 4_000 * l + 40 * l * l;
    if bytes > bound {
        return Err(format!("{} allocates {} bytes in {} calls, more than {} for a size of {}", what, bytes, calls, bound, len));
    }
    Ok(())
}

/// A long path text, well-formed or nearly.
fn long_path(r: &mut Rng) -> String {
    let n = 1 + r.below(120);
    let mut s = String::from(*r.pick(&["a", "key name", ""]));
    let one = if r.chance(1, 4) { *r.pick(&["[*", ".", "|f=", "   ", "=v|", "[99999999999999999999]", "[", "].", "| "]) } else { *r.pick(&["[*]", ".k", "[0]", "|f=v", "[*]|f=v", " . k", "|a b=c [1]", "[ 7 ] ", ". a-b | c = d "]) };
    let odd = r.chance(1, 2);
    for _ in 0..n {
        if odd && r.chance(1, 6) {
            s.push_str(*r.pick(&["[*]", ".k", "[3]", "|x=y", " ", "|", "[", "]", "é"]));
        } else {
            s.push_str(one);
        }
    }
    if odd && r.chance(1, 3) {
        s.push_str(*r.pick(&["[", "|", ".", " ", "|f", "|f=", "]", "=", "[*]]"]));
    }
    s
}

fn path_cost(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let t = long_path(r);
    ctx.say(format!("path {:?}", t));
    ctx.distinct(&t);
    let limit = step_bound(t.len());
    let _g = LIMIT.lock().unwrap_or_else(|e| e.into_inner());
    pest::set_call_limit(NonZeroUsize::new(limit));
    let (res, bytes, calls) = cost(|| guarded(|| t.parse::<yaml_subset::YamlPath>().map_err(|e| e.to_string())));
    pest::set_call_limit(None);
    drop(_g);
    let res = res.map_err(|m| format!("panics: {}", m))?;
    if matches!(&res, Err(e) if e.contains("call limit reached")) {
        return Err(format!("parsing a path of {} bytes takes more than {} steps", t.len(), limit));
    }
    ctx.hit(if res.is_ok() { "path accepted" } else { "path rejected" });
    fits_bound("parsing a path", t.len(), (bytes, calls), ctx)
}

/// A value nested `n` deep.
fn nest(r: &mut Rng, n: usize) -> (Schema, Val) {
    let mut s = Schema::Str;
    let mut v = Val::Str("x".into());
    let mono = r.chance(1, 2);
    let kind = r.below(12);
    for _ in 0..n {
        let more = r.chance(1, 4);
        let one = if more { vec![s.clone(), Schema::Bool] } else { vec![s.clone()] };
        let all = |v: Val| if more { vec![v, Val::Bool(true)] } else { vec![v] };
        let null = matches!(s, Schema::Opt(_));
        match if mono { kind } else { r.below(12) } {
            0 | 1 => {
                s = Schema::Seq(Box::new(s));
                v = Val::List(vec![v]);
            }
            2 | 3 => {
                v = Val::List(all(v));
                s = Schema::Tuple(one);
            }
            4 => {
                v = Val::List(vec![v, Val::Str("y".into())]);
                s = Schema::TupleStruct(vec![s, Schema::Str]);
            }
            5 => {
                v = Val::Map(vec![(Val::Str("k".into()), v)]);
                s = Schema::Map(Box::new(Schema::Str), Box::new(s));
            }
            6 => {
                v = Val::List(all(v));
                s = Schema::Struct(r.below(3), one);
            }
            7 => {
                v = Val::List(vec![v]);
                s = Schema::Newtype(Box::new(s));
            }
            8 if !null && !matches!(s, Schema::Newtype(_)) => {
                v = Val::Some(Box::new(v));
                s = Schema::Opt(Box::new(s));
            }
            9 => {
                v = Val::Variant(0, vec![v]);
                s = Schema::Enum(r.below(3), vec![Variant::Newtype(s)]);
            }
            10 => {
                v = Val::Variant(0, vec![v, Val::Str("z".into())]);
                s = Schema::Enum(r.below(3), vec![Variant::Tuple(vec![s, Schema::Str])]);
            }
            _ => {
                v = Val::Variant(0, all(v));
                s = Schema::Enum(r.below(3), vec![Variant::Struct(r.below(3), one)]);
            }
        }
    }
    (s, v)
}

fn value_cost(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let n = 1 + r.below(60);
    let (s, v) = nest(r, n);
    let (s, v) = match r.below(4) {
        // wide rather than deep
        0 => {
            let k = r.below(400);
            let (s, v) = nest(r, n % 6);
            (Schema::Seq(Box::new(s)), Val::List(vec![v; k]))
        }
        1 => {
            let k = r.below(400);
            let (s, v) = nest(r, n % 6);
            (Schema::Map(Box::new(Schema::I(64)), Box::new(s)), Val::Map((0..k).map(|i| (Val::I(i as i128), v.clone())).collect()))
        }
        2 => {
            let long: String = (0..r.below(900)).map(|_| *r.pick(&['a', ' ', '\n', '\'', '"', '\\', 'é', ':', '#', '\r'])).collect();
            (Schema::Str, Val::Str(long))
        }
        _ => (s, v),
    };
    let shown = format!("{:?}", v);
    ctx.say(format!("value {}", &shown.chars().take(2000).collect::<String>()));
    ctx.distinct(&shown);
    let len = shown.len();
    let (y, bytes, calls) = cost(|| write(&s, &v));
    fits_bound("serializing", len, (bytes, calls), ctx)?;
    let y = y.map_err(|e| format!("serializing fails: {}", e))?;
    let y2 = y.clone();
    let (p, bytes, calls) = cost(|| y2.pretty());
    fits_bound("prettifying what was serialized", len, (bytes, calls), ctx)?;
    for y in [y, p] {
        let (back, bytes, calls) = cost(|| read(y, &s));
        fits_bound("deserializing what was serialized", len, (bytes, calls), ctx)?;
        match back {
            Ok(b) if b == v => {}
            Ok(_) => return Err("another value is read back".into()),
            Err(e) => return Err(format!("it does not read back: {}", e)),
        }
    }
    Ok(())
}

/// All the way down to a leaf, or almost.
fn straight(r: &mut Rng, root: &Node, key_end: bool) -> Steps {
    let mut v: Steps = Vec::new();
    let mut n = root;
    loop {
        let es = n.entries();
        if es.is_empty() {
            break;
        }
        // rather into a container than to a leaf
        let mut i = r.below(es.len());
        for _ in 0..3 {
            if es[i].node.is_leaf() {
                i = r.below(es.len());
            }
        }
        let kind = match n {
            Node::Map { .. } => Kind::Key(es[i].key.clone()),
            _ if r.chance(1, 2) => Kind::All,
            _ => Kind::Idx(vec![i]),
        };
        v.push(Step { kind, conds: vec![] });
        n = &es[i].node;
    }
    if r.chance(1, 4) {
        let k = r.below(4).min(v.len());
        v.truncate(v.len() - k);
    }
    while key_end && v.last().map_or(false, |s| !matches!(s.kind, Kind::Key(_))) {
        v.pop();
    }
    if v.is_empty() {
        v.push(Step { kind: Kind::Root, conds: vec![] });
    }
    v
}

fn tree_cost(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let n = 1 + r.below(60);
    let text = match r.below(4) {
        0 | 1 => {
            let f = r.below(FAMILIES.len());
            let n = if f >= 11 && ![22, 23, 29, 32].contains(&f) && r.chance(1, 3) { n * 10 } else { n };
            family(f, n, *r.pick(&["x\n", "'y'\n", "x"]))
        }
        2 if r.chance(1, 2) => {
            ctx.hit("towers");
            tower(r, n)
        }
        2 => mixed(r, n),
        _ => rendered(r, ctx.size).1,
    };
    let Ok(d) = guarded(|| parse_yaml_file(&text)).map_err(|m| format!("panics: {}", m))? else {
        ctx.hit("rejected");
        return Ok(());
    };
    ctx.distinct(&text);
    let model = crate::proj::doc(&d)?;
    for _ in 0..2 {
        let kind = r.below(8);
        if kind < 3 {
            let steps = if r.chance(1, 2) { straight(r, &model.root, false) } else { gen_steps(r, &model.root, false) };
            let Some(p) = lib_path(&steps) else { continue };
            ctx.say(format!("{}\n--- query {:?}", text, p));
            let mut d = d.clone();
            let (_, bytes, calls) = cost(|| d.find_values(&p));
            fits_bound("querying", text.len(), (bytes, calls), ctx)?;
        } else {
            let which = kind - 3 + r.below(2);
            let (mut steps, e) = gen_edit(r, &model.root, which, true);
            if which < 6 && r.chance(1, 2) {
                steps = straight(r, &model.root, which < 5);
                ctx.hit("straight path");
            }
            let Some(p) = lib_path(&steps) else { continue };
            let shown = format!("{:?}", e);
            ctx.say(format!("{}\n--- {} at {:?}", text, shown, p));
            let mut h = Holder::Doc(d.clone());
            let (res, bytes, calls) = cost(|| run(&mut h, &p, &e));
            res?;
            fits_bound("editing", text.len() + shown.len(), (bytes, calls), ctx)?;
        }
    }
    ctx.say(text.clone());
    for i in &d.items {
        if let DocumentData::Yaml(y) = i {
            let mut seen = 0u64;
            let (_, bytes, calls) = cost(|| y.visit_yaml(&mut |_| seen += 1));
            fits_bound("visiting", text.len(), (bytes, calls), ctx)?;
            let z = y.clone();
            let (z, bytes, calls) = cost(|| z.map_yaml(&mut |x| x));
            fits_bound("mapping", text.len(), (bytes, calls), ctx)?;
            if !text.contains('*') {
                let (_, bytes, calls) = cost(|| from_yaml::<Any>(z).is_ok());
                fits_bound("reading", text.len(), (bytes, calls), ctx)?;
            }
        }
    }
    Ok(())
}

fn c26(r: &mut Rng, ctx: &mut Ctx) -> Res {
    match r.below(4) {
        0 => path_cost(r, ctx),
        1 => value_cost(r, ctx),
        _ => tree_cost(r, ctx),
    }
}

fn none() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> {
    Vec::new()
}

fn known(_: &str, _: &mut Ctx) -> Res {
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        rule: "Families of documents of growing nesting or length, each with twenty ends, most of them faults; mixed nesting; generated, mutated and repeated texts. The parser runs with a limit on its steps, a quadratic function of the length, and what parsing, showing the error, formatting and prettifying allocate is counted. Non-trivial: all.",
        assumptions: &["steps are those pest counts; work outside the parser is measured by the memory it allocates", "the bound is 200 l + 2 l*l steps and 20000 l + 40 l*l bytes, l being the length and 20"],
        quick: 15_000,
        thorough: 400_000,
        case: c24,
        fixed,
        known,
    },
    Check {
        id: "C26",
        rule: "Documents of the families of C24, of mixed nesting and generated ones, queried, edited, visited, mapped and read; long paths, well-formed and not; values nested up to sixty deep or hundreds wide, of every kind, serialized, prettified and read back. Path parsing runs with a limit on its steps, and what every operation allocates is counted. Non-trivial: an operation was measured.",
        assumptions: &["work is measured by the memory it allocates, beyond that by a limit of half a minute for each case", "reading is measured on documents without references, which may denote exponentially much", "the bound is 4000 l + 40 l*l bytes (200 l + 2 l*l steps for a path), l being the length of the text, path or shown value and 20"],
        quick: 60_000,
        thorough: 2_000_000,
        case: c26,
        fixed: none,
        known,
    }]
}

pub fn profile() {
    let mut worst: Vec<(f64, String)> = Vec::new();
    for (f, name) in FAMILIES.iter().enumerate() {
        for end in ENDS {
            let mut line = format!("{:30} {:14?}", name, end);
            let mut last = 0.0f64;
            for n in [8usize, 16, 32, 64] {
                let t = family(f, n, end);
                let k = steps(&t, 1 << 27);
                line.push_str(&format!("  {}:{}({:.1})", t.len(), k, if last > 0.0 { k as f64 / last } else { 0.0 }));
                last = k as f64;
                let ratio = k as f64 / ((t.len() + 20) as f64).powi(2);
                worst.push((ratio, format!("{} {:?} {}", name, end, n)));
            }
            println!("{}", line);
        }
    }
    worst.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    for w in worst.iter().take(20) {
        println!("{:?}", w);
    }
    let mut r = Rng::new(5);
    let mut worst: Vec<(f64, String)> = Vec::new();
    for i in 0..3000 {
        let (_, t) = any_text(&mut r, 1 + i % 12);
        let k = steps(&t, 1 << 27);
        worst.push((k as f64 / ((t.len() + 20) as f64), t));
    }
    worst.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    for w in worst.iter().take(5) {
        println!("{} {} {:?}", w.0, w.1.len(), w.1);
    }
}
