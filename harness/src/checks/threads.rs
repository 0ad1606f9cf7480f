//! C25: results depend on the input only.
use super::paths::{self, Script};
use crate::engine::*;
use crate::fuzz;
use crate::hostile;
use crate::model::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::schema::{self, Schema, Val, Variant};
use crate::types::Any;
use serde::de::DeserializeSeed;
use std::cell::RefCell;
use std::process::{Command, Stdio};
use std::sync::Barrier;
use yaml_subset::yaml::{self, from_yaml_str, parse_yaml_file, Document, DocumentData, MapYaml, Pretty, VisitYaml, Yaml, YamlInsert};
use yaml_subset::YamlPath;

/// Something to ask of the library.
#[derive(Clone)]
pub enum Op {
    Text(String),
    Path(String),
    Script(Script),
    Value(Schema, Val),
    Typed(Schema, String),
    Strings(String, usize),
    /// The second is asked while a callback of the first runs: 0 mapping, 1 visiting, 2 inserting, 3 reading,
    /// 4 serializing; with a panic in the callback after it when the number is 5 or more.
    Nested(Box<Op>, Box<Op>, usize),
}

thread_local! {
    /// Texts are handed over in one buffer, so that different ones come at one address.
    static BUFFER: RefCell<String> = RefCell::new(String::with_capacity(1 << 16));
}

fn at_one_place<T>(t: &str, f: impl FnOnce(&str) -> T) -> T {
    BUFFER.with(|b| match b.try_borrow_mut() {
        Ok(mut b) => {
            b.clear();
            b.push_str(t);
            f(&b)
        }
        Err(_) => f(t),
    })
}

fn roots(d: &Document) -> Vec<&Yaml> {
    d.items.iter().filter_map(|i| if let DocumentData::Yaml(y) = i { Some(y) } else { None }).collect()
}

fn told<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> String {
    match guarded(f) {
        Ok(t) => format!("{:?}\n", t),
        Err(p) => format!("{}\n", p),
    }
}

fn parsed(t: &str) -> Result<Document, String> {
    guarded(|| parse_yaml_file(t))?.map_err(|e| format!("{:?}\n{}", e.location(), e))
}

/// All that can be read off a document without changing it.
fn seen(d: &Document) -> String {
    let mut s = told(|| d.format());
    s.push_str(&told(|| d.clone().pretty().format()));
    s.push_str(&told(|| {
        let mut v = Vec::new();
        for y in roots(d) {
            y.visit_yaml(&mut |a| v.push((a.alias.clone(), format!("{:?}", a.value).len())));
        }
        v
    }));
    s.push_str(&told(|| {
        let mut n = 0;
        let same = roots(d).into_iter().all(|y| {
            y.clone().map_yaml(&mut |y| {
                n += 1;
                y
            }) == *y
        });
        (n, same)
    }));
    for y in roots(d) {
        s.push_str(&told(|| yaml::from_yaml::<Any>(y.clone()).map_err(|e| e.0)));
    }
    s
}

/// Asks inner at every scalar read.
struct Asking<'a>(&'a Op, &'a RefCell<String>, bool);
impl<'de, 'a> DeserializeSeed<'de> for Asking<'a> {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de, 'a> serde::de::Visitor<'de> for Asking<'a> {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<(), E> {
        self.ask(format!("{:?}", v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<(), E> {
        self.ask(format!("{:?}", v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<(), E> {
        self.ask(format!("{:?}", v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<(), E> {
        self.ask(format!("{:?}", v))
    }
    fn visit_str<E>(self, v: &str) -> Result<(), E> {
        self.ask(format!("{:?}", v))
    }
    fn visit_unit<E>(self) -> Result<(), E> {
        self.ask("null".into())
    }
    fn visit_none<E>(self) -> Result<(), E> {
        self.ask("none".into())
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while let Some(()) = a.next_element_seed(Asking(self.0, self.1, self.2))? {}
        Ok(())
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while let Some(()) = a.next_key_seed(Asking(self.0, self.1, self.2))? {
            a.next_value_seed(Asking(self.0, self.1, self.2))?;
        }
        Ok(())
    }
}
impl<'a> Asking<'a> {
    fn ask<E>(self, v: String) -> Result<(), E> {
        let inner = if self.1.borrow().is_empty() { digest(self.0) } else { String::new() };
        self.1.borrow_mut().push_str(&format!("{}{}\n", v, inner));
        if self.2 {
            panic!("as the callback wants");
        }
        Ok(())
    }
}
/// Asks inner while it is serialized.
struct Telling<'a>(&'a Op, &'a RefCell<String>, bool, &'a Schema, &'a Val);
impl<'a> serde::Serialize for Telling<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(&schema::Typed(self.3, self.4))?;
        self.1.borrow_mut().push_str(&digest(self.0));
        if self.2 {
            panic!("as the callback wants");
        }
        q.serialize_element(&schema::Typed(self.3, self.4))?;
        q.end()
    }
}

fn nested(outer: &Op, inner: &Op, how: usize) -> String {
    let dies = how >= 5;
    let asked = RefCell::new(String::new());
    let ask = || {
        if asked.borrow().is_empty() {
            let d = digest(inner);
            asked.borrow_mut().push_str(&d);
        }
        if dies {
            panic!("as the callback wants");
        }
    };
    let own = match outer {
        Op::Text(t) => match parsed(t) {
            Err(e) => e,
            Ok(mut d) => match how % 5 {
                0 => told(|| {
                    roots(&d).into_iter().map(|y| y.clone().map_yaml(&mut |y| { ask(); y })).collect::<Vec<_>>()
                }),
                1 => told(|| {
                    let mut v = Vec::new();
                    for y in roots(&d) {
                        y.visit_yaml(&mut |a| { ask(); v.push(a.clone()) });
                    }
                    v
                }),
                2 => {
                    let p = YamlPath::Key("zz".into(), Vec::new(), None);
                    let n = told(|| d.insert_into_hash_by_call(&p, || { ask(); yaml::AliasedYaml { alias: None, value: Yaml::UnquotedString("1".into()) } }, true));
                    if dies { n } else { format!("{}{:?}", n, d) }
                }
                _ => roots(&d).into_iter().map(|y| told(|| Asking(inner, &asked, dies).deserialize(yaml::YamlDeserializer::new(y.clone())).map_err(|e| e.0))).collect(),
            },
        },
        Op::Value(s, v) => told(|| {
            use serde::Serialize;
            Telling(inner, &asked, dies, s, v).serialize(yaml::YamlSerializer).map_err(|e| e.to_string())
        }),
        o => digest(o),
    };
    format!("{}--- within\n{}", own, asked.into_inner())
}

/// All that the library says to this.
pub fn digest(op: &Op) -> String {
    match op {
        Op::Text(t) => at_one_place(t, |t| {
            let p = parsed(t);
            let mut s = match &p {
                Err(e) => format!("{}\n", e),
                Ok(d) => format!("{:?}\n{}", d, seen(d)),
            };
            s.push_str(&told(|| from_yaml_str::<Any>(t).map_err(|e| e.0)));
            s
        }),
        Op::Path(t) => at_one_place(t, |t| told(|| t.parse::<YamlPath>().map_err(|e| e.to_string()))),
        Op::Script(s) => paths::play(s),
        Op::Value(s, v) => match guarded(|| schema::write(s, v)).and_then(|x| x) {
            Err(e) => e,
            Ok(y) => {
                let d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(y)] };
                let mut o = format!("{:?}\n", d);
                for p in [false, true] {
                    let t = guarded(|| if p { d.clone().pretty().format() } else { d.format() });
                    o.push_str(&format!("{:?}\n", t));
                    if let Ok(Ok(t)) = t {
                        o.push_str(&told(|| parsed(&t).and_then(|d| schema::read(roots(&d)[0].clone(), s))));
                    }
                }
                o
            }
        },
        Op::Typed(s, t) => at_one_place(t, |t| told(|| parsed(t).and_then(|d| schema::read(roots(&d)[0].clone(), s)))),
        Op::Strings(t, n) => {
            let mut o = String::new();
            for y in [
                Yaml::UnquotedString(t.clone()),
                Yaml::DoubleQuotedString(vec![yaml::DoubleQuotedStringPart::String(t.clone())]),
                Yaml::LiteralString(yaml::string::create_literal(t.clone()), yaml::BlockChomping::Keep),
                Yaml::FoldedString(yaml::string::create_folded(t.clone(), *n), yaml::BlockChomping::Strip),
            ] {
                let d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(y)] };
                o.push_str(&format!("{:?}\n{}", d, seen(&d)));
            }
            o
        }
        Op::Nested(a, b, how) => nested(a, b, *how),
    }
}

pub fn show(op: &Op) -> String {
    match op {
        Op::Text(t) => format!("text\n{}", t),
        Op::Path(t) => format!("path {:?}", t),
        Op::Script(s) => format!("edits of\n{}\n{:?}", crate::render::render_plain(&s.doc), s.edits),
        Op::Value(s, v) => format!("writing {:?} as {:?}", v, s),
        Op::Typed(s, t) => format!("reading as {:?}\n{}", s, t),
        Op::Strings(t, n) => format!("string {:?} {}", t, n),
        Op::Nested(a, b, h) => format!("{}\n--- with, in callback {}\n{}", show(a), h, show(b)),
    }
}

/// Another letter or digit somewhere.
fn one_other(r: &mut Rng, t: &str) -> String {
    let at: Vec<usize> = t.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
    if at.is_empty() {
        return format!("{}x", t);
    }
    let i = *r.pick(&at);
    let mut s = t.to_string();
    s.replace_range(i..i + 1, r.pick(&["a", "b", "q", "7", "Z", "0"]));
    s
}

/// The same characters elsewhere, or in the other case, or with another number of blanks.
fn rearranged(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return " ".into();
    }
    let blanks: Vec<usize> = (0..c.len()).filter(|i| c[*i] == ' ').collect();
    match r.below(6) {
        0 | 1 if !blanks.is_empty() => {
            // a blank moves
            c.remove(*r.pick(&blanks));
            let to = r.below(c.len() + 1);
            c.insert(to, ' ');
        }
        2 => {
            let i = r.below(c.len());
            let j = if r.chance(1, 2) { (i + 1).min(c.len() - 1) } else { r.below(c.len()) };
            c.swap(i, j);
        }
        3 => {
            let letters: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphabetic()).collect();
            if !letters.is_empty() {
                let i = *r.pick(&letters);
                c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            }
        }
        4 if !blanks.is_empty() => {
            let i = *r.pick(&blanks);
            if r.chance(1, 2) { c.insert(i, ' ') } else { drop(c.remove(i)) }
        }
        _ => {
            let i = r.below(c.len());
            let x = c.remove(i);
            let j = r.below(c.len() + 1);
            c.insert(j, x);
        }
    }
    c.into_iter().collect()
}

fn near(r: &mut Rng, t: &str) -> String {
    match r.below(13) {
        9 | 10 | 11 => rearranged(r, t),
        12 => {
            let t = rearranged(r, t);
            rearranged(r, &t)
        }
        0..=3 => one_other(r, t),
        4 => format!("{}{}", t, r.pick(&["x", " ", "\n", "# c\n", "\n]", "\n\"", "\n  - x: [", "\n  x: 1\n y: 2"])),
        5 => {
            let n = r.below(t.len() + 1);
            let n = (0..=n).rev().find(|n| t.is_char_boundary(*n)).unwrap();
            t[..n].to_string()
        }
        6 => format!("{}{}", r.pick(&["# c\n", "\n", " ", "a: 1\n", "- "]), t),
        7 => fuzz::mutate(r, t),
        _ => t.to_string(),
    }
}

/// Inputs that resemble each other.
fn family(r: &mut Rng, size: usize, n: usize) -> Vec<Op> {
    let kind = r.below(10);
    family_of(r, size, n, kind)
}

fn family_of(r: &mut Rng, size: usize, n: usize, kind: usize) -> Vec<Op> {
    let mut v = Vec::new();
    match kind {
        0..=3 => {
            let base = if r.chance(2, 3) { fuzz::rendered(r, size).1 } else { fuzz::any_text(r, size).1 };
            for _ in 0..n {
                v.push(Op::Text(near(r, &base)));
            }
        }
        4 => {
            let steps = paths::random_steps(r, true);
            let base = if r.chance(1, 2) { paths::spaced(r, &steps) } else { paths::text_of(&steps) };
            for _ in 0..n + 2 {
                v.push(Op::Path(near(r, &base)));
            }
        }
        5 | 6 => {
            let base = paths::script(r, size);
            for _ in 0..n {
                let mut s = base.clone();
                match r.below(3) {
                    0 => {
                        s.edits = paths::script(r, size).edits;
                    }
                    1 => s.edits.rotate_left(1),
                    _ => {}
                }
                // the same document but for one scalar
                if r.chance(1, 2) {
                    change_one(r, &mut s.doc.root);
                }
                v.push(Op::Script(s));
            }
        }
        7 => {
            let s = schema::gen_schema(r, 1 + r.clone().below(3));
            for _ in 0..n {
                v.push(Op::Value(s.clone(), schema::gen_val(r, &s, true)));
            }
        }
        8 => {
            let s = schema::gen_schema(r, 1 + r.clone().below(3));
            let val = schema::gen_val(r, &s, true);
            let text = schema::write(&s, &val)
                .ok()
                .and_then(|y| Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(y)] }.format().ok())
                .unwrap_or_default();
            for _ in 0..n {
                let other = if r.chance(1, 3) { schema::gen_schema(r, 2) } else { s.clone() };
                v.push(Op::Typed(other, near(r, &text)));
            }
        }
        _ => {
            let base = hostile::string(r);
            for _ in 0..n {
                v.push(Op::Strings(near(r, &base), 20 + r.below(80)));
            }
        }
    }
    v
}

fn change_one(r: &mut Rng, n: &mut Node) {
    match n {
        Node::Map { items, .. } | Node::Seq { items, .. } => {
            let mut es: Vec<&mut Entry> = items.iter_mut().filter_map(|i| if let Item::Entry(e) = i { Some(e) } else { None }).collect();
            if !es.is_empty() {
                let i = r.below(es.len());
                if r.chance(1, 8) && !es[i].key.is_empty() {
                    es[i].key = one_other(r, &es[i].key.clone());
                } else {
                    change_one(r, &mut es[i].node);
                }
            }
        }
        n => *n = plain(*r.pick(&["other", "10", "g1", "é"])),
    }
}

/// Texts whose depth, width or length grow: what is grown on demand grows while others use it.
fn growing(r: &mut Rng, small: bool) -> Vec<Op> {
    let most = if small { 6 } else { 90 };
    let mut v = Vec::new();
    for _ in 0..1 + r.below(4) {
        let n = 1 + r.below(most);
        let mut t = String::from("---");
        match r.below(5) {
            0 | 1 => {
                for i in 0..n {
                    t.push_str(&format!("\n{}k{}:", "  ".repeat(i), i % 7));
                }
                t.push_str(" 1\n");
            }
            2 => {
                t.push_str(&format!(" {}1{}\n", "[".repeat(n), "]".repeat(n)));
            }
            3 => {
                for i in 0..n {
                    t.push_str(&format!("\n- {}{}", r.pick(&["a", "\"b\"", "&c d"]), i));
                }
                t.push('\n');
            }
            _ => {
                t.push_str(&format!("\nk: |\n  {}\n", "word ".repeat(n).trim_end()));
            }
        }
        v.push(Op::Text(t));
    }
    v
}

/// A pool of inputs, families next to each other.
pub fn pool(r: &mut Rng, size: usize, n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    while v.len() < n {
        let k = 2 + r.below(4);
        v.extend(family(r, size, k));
    }
    let plain: Vec<Op> = v.clone();
    for _ in 0..n / 6 {
        let outer = plain.iter().filter(|o| matches!(o, Op::Text(_) | Op::Value(..))).nth(r.below(n / 3 + 1)).cloned();
        if let Some(o) = outer {
            let inner = r.pick(&plain).clone();
            v.push(Op::Nested(Box::new(o), Box::new(inner), r.below(7)));
        }
    }
    v
}

fn differ(what: &str, op: &Op, a: &str, b: &str) -> String {
    let cut = |s: &str| s.chars().take(4000).collect::<String>();
    format!("{}\n--- of\n{}\n--- first\n{}\n--- then\n{}", what, show(op), cut(a), cut(b))
}

/// The pool forwards, backwards, and by several threads at a time.
pub fn history(r: &mut Rng, ops: &[Op], nthreads: usize, ctx: &mut Ctx) -> Res {
    let base: Vec<String> = ops.iter().map(digest).collect();
    ctx.add("inputs", ops.len() as u64);
    ctx.add("inputs the library accepts", base.iter().filter(|b| !b.contains("-->")).count() as u64);
    for i in (0..ops.len()).rev() {
        let d = digest(&ops[i]);
        ctx.hit("results compared within a thread");
        if d != base[i] {
            return Err(differ("another order gives another result", &ops[i], &base[i], &d));
        }
    }
    // what was asked in a callback is what is answered outside
    for (i, o) in ops.iter().enumerate() {
        if let Op::Nested(_, inner, _) = o {
            let within = base[i].split("--- within\n").last().unwrap_or("");
            let own = digest(inner);
            if !within.is_empty() && !matches!(**inner, Op::Nested(..)) && !within.contains(&own) {
                return Err(differ("asked within a callback, the answer is another", o, &own, within));
            }
            if !within.is_empty() {
                ctx.hit("results compared within a callback");
            }
        }
    }
    let docs: Vec<Document> = ops.iter().filter_map(|o| if let Op::Text(t) = o { parsed(t).ok() } else { None }).take(6).collect();
    let views: Vec<String> = docs.iter().map(seen).collect();
    let barrier = Barrier::new(nthreads);
    let seeds: Vec<u64> = (0..nthreads).map(|_| r.next()).collect();
    let active = std::sync::atomic::AtomicU64::new(0);
    let met = std::sync::atomic::AtomicU64::new(0);
    let compared = std::sync::atomic::AtomicU64::new(0);
    let mut res = Ok(());
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for (t, seed) in seeds.iter().enumerate() {
            let (barrier, base, docs, views, active, met, compared) = (&barrier, &base, &docs, &views, &active, &met, &compared);
            let run = move || -> Res {
                use std::sync::atomic::Ordering::Relaxed;
                let mut r = Rng::new(*seed);
                let mut order: Vec<usize> = (0..ops.len() + docs.len()).collect();
                match t {
                    // all threads meet on the same inputs, or take them as they come
                    0 | 1 => {}
                    _ => {
                        for i in (1..order.len()).rev() {
                            let j = r.below(i + 1);
                            order.swap(i, j);
                        }
                    }
                }
                barrier.wait();
                for i in order {
                    if r.chance(1, 4) {
                        std::thread::yield_now();
                    }
                    for _ in 0..r.below(40) {
                        std::hint::spin_loop();
                    }
                    if active.fetch_add(1, Relaxed) > 0 {
                        met.fetch_add(1, Relaxed);
                    }
                    let (got, want) = if i < ops.len() { (digest(&ops[i]), &base[i]) } else { (seen(&docs[i - ops.len()]), &views[i - ops.len()]) };
                    active.fetch_sub(1, Relaxed);
                    compared.fetch_add(1, Relaxed);
                    if &got != want {
                        return Err(if i < ops.len() {
                            differ("another thread at work gives another result", &ops[i], want, &got)
                        } else {
                            differ("a document shared by threads looks different", &Op::Text(format!("{:?}", docs[i - ops.len()])), want, &got)
                        });
                    }
                }
                Ok(())
            };
            hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).unwrap());
        }
        for h in hs {
            let x = h.join().unwrap_or_else(|_| Err("a thread dies".into()));
            if res.is_ok() {
                res = x;
            }
        }
    });
    ctx.add("results compared between threads", compared.into_inner());
    ctx.add("results computed while another thread was at work", met.into_inner());
    res
}

/// Several threads start at once in a process where nothing was asked before; what they are told is compared
/// only afterwards, among them and with what one thread is told then.
fn cold_history(r: &mut Rng, ops: &[Op], nthreads: usize, ctx: &mut Ctx) -> Res {
    let barrier = Barrier::new(nthreads);
    let seeds: Vec<u64> = (0..nthreads).map(|_| r.next()).collect();
    let all: Vec<Result<Vec<(usize, String)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, seed)| {
                let barrier = &barrier;
                let run = move || {
                    let mut r = Rng::new(*seed);
                    let mut order: Vec<usize> = (0..ops.len()).collect();
                    if t % 2 == 1 {
                        for i in (1..order.len()).rev() {
                            let j = r.below(i + 1);
                            order.swap(i, j);
                        }
                    }
                    barrier.wait();
                    order.into_iter().map(|i| (i, digest(&ops[i]))).collect::<Vec<_>>()
                };
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "a thread dies".to_string())).collect()
    });
    let base: Vec<String> = ops.iter().map(digest).collect();
    for t in all {
        for (i, d) in t? {
            ctx.hit("results of first uses by several threads at once compared");
            if d != base[i] {
                return Err(differ("the first uses, by several threads at once, give another result", &ops[i], &base[i], &d));
            }
        }
    }
    Ok(())
}

/// `ymon cold SEED N THREADS`: one cold history in this process.
pub fn cold(seed: u64, n: usize, nthreads: usize) -> i32 {
    quiet_panics();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut r = Rng::new(mix(&[seed, 77]));
        let small = n < 4;
        let mut ops = Vec::new();
        if r.chance(1, 2) || small {
            ops.extend(growing(&mut r, small));
        }
        while ops.len() < n {
            let size = if small { 1 } else { 1 + r.below(8) };
            let k = 1 + r.below(3);
            // not the kind whose making asks the library
            let kind = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 9]);
            ops.extend(family_of(&mut r, size, k, kind).into_iter().filter(|o| !small || show(o).len() < 80));
        }
        ops.truncate(n);
        let mut done = Ctx::default();
        if let Err(m) = cold_history(&mut r, &ops, nthreads, &mut done) {
            println!("STRESS VIOLATION in a fresh process, seed {}\n{}", seed, m);
            return 1;
        }
        for (k, v) in done.hits {
            println!("hit {} {}", v, k);
        }
        println!("STRESS DONE");
        0
    });
    h.unwrap().join().unwrap_or(1)
}

/// The same again and again on a fresh thread, with the others before and after.
fn wear(ops: &[Op], times: usize, ctx: &mut Ctx) -> Res {
    let run = || -> Result<u64, String> {
        let base: Vec<String> = ops.iter().map(digest).collect();
        let mut n = 0;
        for (op, first) in ops.iter().zip(&base) {
            for k in 0..times {
                let d = digest(op);
                n += 1;
                if &d != first {
                    return Err(differ(&format!("asked for the {}th time, the answer is another", k + 2), op, first, &d));
                }
            }
        }
        for (op, first) in ops.iter().zip(&base) {
            let d = digest(op);
            if &d != first {
                return Err(differ(&format!("after {} questions the answer is another", n), op, first, &d));
            }
        }
        Ok(n)
    };
    let n = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).unwrap().join()).unwrap_or_else(|_| Err("a thread dies".into()))?;
    ctx.add("results compared with the first of many alike", n);
    Ok(())
}

/// Small inputs of many kinds, good and bad.
fn small_ops() -> Vec<Op> {
    let any = Schema::Any;
    let text = |s: &str| Op::Value(Schema::Str, Val::Str(s.into()));
    let mut v: Vec<Op> = ["~", "null", "true", "1", "-1.5e3", "", " ", "a", "a: b", "it's", "\"", "'\"", "\\", "a\nb", "a\rb\n", "# c", "- a", "[", "a, b", "\u{feff}", "é"].iter().map(|s| text(s)).collect();
    v.push(Op::Value(Schema::Seq(Box::new(Schema::Bool)), Val::List(vec![Val::Bool(true), Val::Bool(false)])));
    v.push(Op::Value(Schema::Opt(Box::new(Schema::U(8))), Val::None));
    v.push(Op::Value(Schema::Map(Box::new(Schema::Seq(Box::new(Schema::Str))), Box::new(Schema::Str)), Val::Map(vec![(Val::List(vec![]), Val::Str("x".into()))])));
    v.push(Op::Value(Schema::Enum(0, vec![Variant::Unit, Variant::Newtype(Schema::Str)]), Val::Variant(1, vec![Val::Str("x".into())])));
    v.push(Op::Value(Schema::Seq(Box::new(Schema::Str)), Val::List(vec![Val::Any(Any::Null)])));
    for t in [
        "---\na: 1\n", "---\n- 1\n- true\n", "---\na:\n  - b: [x, {c: d}]\n", "---\na: &x 1\nb: *x\n", "---\na: *x\n", "---\na: |\n  x\n   y\n", "---\na: >2-\n   x\n\n  y\n", "---\na: \"x\\n\n\n y\"\n", "---\n# c\na: 'it''s' # d\n",
        "---\n- - - 1\n", "---\n{a: b}\n", "---\na: \"x\n", "---\na: [1, 2\n", "---\n a: 1\nb: 2\n", "a: 1\n", "---\na:\n", "---\na: \"\\x\"\n", "", "---\n- a\n  b\n- c: [\n", "---\na: 1\na: 2\n",
    ] {
        v.push(Op::Text(t.into()));
        for s in [Schema::Seq(Box::new(Schema::Bool)), Schema::Map(Box::new(Schema::Str), Box::new(Schema::I(64))), Schema::Struct(0, vec![Schema::Str]), Schema::Enum(0, vec![Variant::Unit]), any.clone()] {
            v.push(Op::Typed(s, t.into()));
        }
    }
    for p in ["", "a", "a.b", "a[*].b", "a[0]|f=v", "a|", "a[", "a..b", "[99999999999999999999]", "a[99999999999999999999]", "|f=v", " a . b ", "é"] {
        v.push(Op::Path(p.into()));
    }
    for s in ["", "x", "a b c", "a\n\nb", " \n", "word word word word word word word"] {
        v.push(Op::Strings(s.into(), 20));
    }
    v
}

fn c25(r: &mut Rng, ctx: &mut Ctx) -> Res {
    if r.chance(1, 30) {
        let mut ops = Vec::new();
        for _ in 0..10 {
            let k = 1 + r.below(2);
            ops.extend(family(r, 1, k).into_iter().filter(|o| show(o).len() < 300));
            if ops.len() > 1 {
                break;
            }
        }
        ops.truncate(2);
        let times = 20 + r.below(if ctx.thorough { 1500 } else { 500 });
        ctx.say(format!("{} times each of\n{}", times, ops.iter().map(show).collect::<Vec<_>>().join("\n=====\n")));
        ctx.distinct(&ctx.input.clone());
        return wear(&ops, times, ctx);
    }
    let ops = pool(r, ctx.size, 24);
    let all: Vec<String> = ops.iter().map(show).collect();
    ctx.say(all.join("\n=====\n"));
    ctx.distinct(&ctx.input.clone());
    history(r, &ops, 4, ctx)
}

// ---------------------------------------------------------------------------------------------
// In processes of their own.

fn seeded(seed: u64, n: usize) -> Vec<Op> {
    let mut r = Rng::new(mix(&[seed, 25]));
    let mut v = Vec::new();
    while v.len() < n {
        let size = 1 + r.below(10);
        v.extend(pool(&mut r, size, 12));
    }
    v.truncate(n);
    v
}

/// One line per input: its number and a hash of what the library says to it.
/// `order`: forward, reverse, twice, shuffle or the number of one input.
pub fn print_digests(seed: u64, n: usize, order: &str) -> i32 {
    quiet_panics();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn({
        let order = order.to_string();
        move || {
            let ops = seeded(seed, n);
            let mut idx: Vec<usize> = match order.as_str() {
                "forward" | "shuffle" => (0..ops.len()).collect(),
                "reverse" => (0..ops.len()).rev().collect(),
                i => vec![i.parse().unwrap()],
            };
            if order == "shuffle" {
                let mut r = Rng::new(seed);
                for i in (1..idx.len()).rev() {
                    let j = r.below(i + 1);
                    idx.swap(i, j);
                }
            }
            for i in idx {
                println!("{} {:016x}", i, hash_bytes(digest(&ops[i]).as_bytes()));
            }
        }
    });
    h.unwrap().join().map_or(1, |_| 0)
}

fn digests_of(seed: u64, n: usize, order: &str, envs: &[(&str, &str)], dir: &str) -> Result<Vec<(usize, String)>, String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("timeout");
    c.args(["-k", "1", "200"]).arg(exe).args(["digest", &seed.to_string(), &n.to_string(), order]).current_dir(dir);
    for (k, v) in envs {
        c.env(k, v);
    }
    let out = c.output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("the process asked for inputs {} of seed {} ends with {:?}", order, seed, out.status));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.parse().unwrap(), b.to_string()))).collect())
}

fn processes(seed: u64, n: usize, alone: usize, ctx: &mut Ctx) -> Res {
    let first = digests_of(seed, n, "forward", &[], "/")?;
    let mut others = vec![
        digests_of(seed, n, "reverse", &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo")], "/tmp")?,
        digests_of(seed, n, "shuffle", &[("HOME", "/nonexistent"), ("RUST_BACKTRACE", "1")], "/usr")?,
    ];
    for k in 0..alone {
        others.push(digests_of(seed, n, &((k * 7919 + seed as usize) % n).to_string(), &[], "/")?);
    }
    for o in others {
        for (i, h) in o {
            ctx.hit("results compared between processes");
            if first[i].1 != h {
                let op = &seeded(seed, n)[i];
                return Err(format!("input {} of seed {} gives another result in another process\n{}", i, seed, show(op)));
            }
        }
    }
    Ok(())
}

/// Rounds of `history`, and hostile texts, in one process: what a sanitizer watches.
pub fn stress(seed: u64, rounds: u64, how: &str) -> i32 {
    quiet_panics();
    let small = how == "small";
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut done = Ctx::default();
        let budget = std::env::var("YMON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(3600);
        let start = std::time::Instant::now();
        for i in 0..rounds {
            if start.elapsed().as_secs() > budget {
                break;
            }
            let mut r = Rng::new(mix(&[seed, 2525, i]));
            let (size, n, threads) = if small { (1, 3, 2) } else { (1 + (i % 10) as usize, 16, 4) };
            let mut ops = pool(&mut r, size, n);
            if small {
                ops.retain(|o| show(o).len() < 80);
                ops.truncate(4);
            }
            if let Err(m) = history(&mut r, &ops, threads, &mut done) {
                println!("STRESS VIOLATION round {} of seed {}\n{}", i, seed, m);
                return 1;
            }
        }
        for (k, v) in done.hits {
            println!("hit {} {}", v, k);
        }
        println!("STRESS DONE");
        0
    });
    h.unwrap().join().unwrap_or(1)
}

/// What a sanitizer says of the output of a stress run.
fn judged(name: &str, out: std::io::Result<std::process::Output>, signs: &[&str], ctx: &mut Ctx) -> Res {
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            ctx.hit(&format!("{}: not run ({})", name, e));
            return Ok(());
        }
    };
    let (o, e) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
    let tail = |s: &str| s.chars().rev().take(6000).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    if let Some(sign) = signs.iter().find(|s| e.contains(**s)) {
        let at = e.find(sign).unwrap();
        return Err(format!("{} reports\n{}", name, e[at..].chars().take(6000).collect::<String>()));
    }
    if o.contains("STRESS VIOLATION") {
        return Err(format!("under {}: {}", name, tail(&o)));
    }
    if o.contains("STRESS DONE") {
        for l in o.lines().filter_map(|l| l.strip_prefix("hit ")) {
            if let Some((n, k)) = l.split_once(' ') {
                ctx.add(&format!("{}: {}", name, k), n.parse().unwrap_or(0));
            }
        }
        ctx.hit(&format!("{}: runs completed", name));
        return Ok(());
    }
    if signs.is_empty() && matches!(out.status.code(), Some(134) | Some(139)) {
        return Err(format!("{} dies ({:?})\n{}", name, out.status.code(), tail(&e)));
    }
    // no verdict: out of time, or the sanitizer does not work here
    ctx.hit(&format!("{}: runs without a verdict ({:?})", name, out.status.code()));
    if std::env::var("YMON_VERBOSE").is_ok() {
        eprintln!("{}: {}\n{}", name, tail(&o), tail(&e));
    }
    Ok(())
}

fn unlimited(limit_s: u64, program: &str, args: &[String], envs: &[(&str, &str)], dir: Option<&str>) -> std::io::Result<std::process::Output> {
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -S -v unlimited; exec timeout -k 1 \"$0\" \"$@\"").arg(limit_s.to_string()).arg(program).args(args);
    c.stdin(Stdio::null());
    for (k, v) in envs {
        c.env(k, v);
    }
    if let Some(d) = dir {
        c.current_dir(d);
    }
    c.output()
}

fn fixed() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> {
    let mut v: Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> = Vec::new();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    if let Ok(exe) = std::env::var("YMON_TSAN") {
        let rounds = if thorough { 1500u64 } else { 60 };
        v.push((
            "stress under ThreadSanitizer".into(),
            Box::new(move |ctx| {
                let o = unlimited(500, &exe, &["stress".into(), seed.to_string(), rounds.to_string()], &[("TSAN_OPTIONS", "halt_on_error=1 exitcode=66")], None);
                judged("ThreadSanitizer", o, &["WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer"], ctx)
            }),
        ));
    }
    if let Ok(exe) = std::env::var("YMON_ASAN") {
        let rounds = if thorough { 3000u64 } else { 120 };
        v.push((
            "stress under AddressSanitizer".into(),
            Box::new(move |ctx| {
                let o = unlimited(500, &exe, &["stress".into(), (seed + 1).to_string(), rounds.to_string()], &[("ASAN_OPTIONS", "detect_leaks=1 exitcode=66")], None);
                judged("AddressSanitizer", o, &["ERROR: AddressSanitizer", "ERROR: LeakSanitizer"], ctx)
            }),
        ));
    }
    if let Ok(dir) = std::env::var("YMON_MIRI") {
        let runs = if thorough { 3u64 } else { 2 };
        for k in 0..runs {
            let dir = dir.clone();
            v.push((
                format!("stress under Miri, schedule {}", k),
                Box::new(move |ctx| {
                    let budget = if thorough { "240" } else { "25" };
                    let flags = format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate=0.05", seed * 10 + k);
                    let a: Vec<String> = ["+nightly", "miri", "run", "--manifest-path", "miri/Cargo.toml", "--offline", "-q", "--", "stress", &(seed * 10 + k).to_string(), "1000", "small"].iter().map(|s| s.to_string()).collect();
                    let harness = verif().join("harness").display().to_string();
                    let o = unlimited(500, "cargo", &a, &[("MIRIFLAGS", &flags), ("YMON_BUDGET", budget), ("CARGO_TARGET_DIR", &dir)], Some(&harness));
                    judged("Miri", o, &["Undefined Behavior", "memory leaked", "Data race detected"], ctx)
                }),
            ));
        }
    }
    // first uses: each in a process of its own
    let own = std::env::current_exe().map(|e| e.display().to_string()).unwrap_or_default();
    let mut colds: Vec<(&'static str, String, u64, usize, &'static [(&'static str, &'static str)], &'static [&'static str])> =
        vec![("a fresh process", own, if thorough { 20_000 } else { 800 }, 4, &[], &[])];
    if let Ok(exe) = std::env::var("YMON_TSAN") {
        colds.push(("ThreadSanitizer in a fresh process", exe, if thorough { 400 } else { 24 }, 4, &[("TSAN_OPTIONS", "halt_on_error=1 exitcode=66")], &["WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer"]));
    }
    if let Ok(exe) = std::env::var("YMON_ASAN") {
        colds.push(("AddressSanitizer in a fresh process", exe, if thorough { 400 } else { 24 }, 4, &[("ASAN_OPTIONS", "detect_leaks=1 exitcode=66")], &["ERROR: AddressSanitizer", "ERROR: LeakSanitizer"]));
    }
    for (name, exe, count, threads, envs, signs) in colds {
        let parts = 4u64;
        for part in 0..parts {
            let exe = exe.clone();
            v.push((
                format!("first uses in {}, part {}", name, part),
                Box::new(move |ctx| {
                    for k in (0..count).filter(|k| k % parts == part) {
                        let s = seed * 100_000 + k;
                        let o = unlimited(120, &exe, &["cold".into(), s.to_string(), "14".into(), threads.to_string()], envs, None);
                        judged(name, o, signs, ctx)?;
                    }
                    Ok(())
                }),
            ));
        }
    }
    if let Ok(dir) = std::env::var("YMON_MIRI") {
        for k in 0..if thorough { 12u64 } else { 2 } {
            let dir = dir.clone();
            v.push((
                format!("first uses under Miri, {}", k),
                Box::new(move |ctx| {
                    let flags = format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate=0.05", seed * 10 + k);
                    let a: Vec<String> = ["+nightly", "miri", "run", "--manifest-path", "miri/Cargo.toml", "--offline", "-q", "--", "cold", &(seed * 1000 + k).to_string(), "2", "2"].iter().map(|s| s.to_string()).collect();
                    let harness = verif().join("harness").display().to_string();
                    let o = unlimited(if thorough { 400 } else { 90 }, "cargo", &a, &[("MIRIFLAGS", &flags), ("CARGO_TARGET_DIR", &dir)], Some(&harness));
                    judged("Miri in a fresh process", o, &["Undefined Behavior", "memory leaked", "Data race detected"], ctx)
                }),
            ));
        }
    }
    for part in 0..8 {
        v.push((
            format!("small inputs asked again and again, part {}", part),
            Box::new(move |ctx| {
                for (_, op) in small_ops().into_iter().enumerate().filter(|(i, _)| i % 8 == part) {
                    ctx.say(show(&op));
                    wear(&[op], if thorough { 20_000 } else { 1_500 }, ctx)?;
                }
                Ok(())
            }),
        ));
    }
    for k in 0..if thorough { 60 } else { 3 } {
        v.push((
            format!("processes of their own, seed {}", seed * 1000 + k),
            Box::new(move |ctx| processes(seed * 1000 + k, if thorough { 1500 } else { 400 }, if thorough { 8 } else { 4 }, ctx)),
        ));
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        rule: "A pool of inputs that resemble each other (texts, paths, edit scripts, values, strings; some asked within callbacks of others, some of which panic) is given to the library forwards, backwards, by four threads at a time that also share documents, and in other processes; every full result is compared with the first. The same under ThreadSanitizer, AddressSanitizer and Miri. Non-trivial: every pool.",
        assumptions: &["schedules are the machine's, with random delays between calls; Miri's are its own, seeded", "a sanitizer that cannot be built or run here is reported in the evidence, not as a violation"],
        quick: 2_500,
        thorough: 250_000,
        case: c25,
        fixed,
        known: |_, _| Ok(()),
    }]
}
