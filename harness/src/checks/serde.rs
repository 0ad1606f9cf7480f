//! C19, C20: values through serde.
use crate::engine::*;
use crate::hostile;
use crate::rng::Rng;
use crate::schema::*;
use crate::types::Any;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::{NonZeroI64, NonZeroU8, Wrapping};
use std::ops::{Bound, Range, RangeInclusive};
use std::path::PathBuf;
use std::time::Duration;
use yaml_subset::yaml::{from_yaml, from_yaml_str, parse_yaml_file, Document, DocumentData, Pretty, Yaml, YamlDeserializer, YamlSerializer};

// ---------------------------------------------------------------------------------------------
// Types with what serde's derive offers.

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, PartialOrd, Eq, Ord, Hash)]
pub enum Word {
    A,
    True,
    False,
    Null,
    #[serde(rename = "null")]
    LowNull,
    #[serde(rename = "yes")]
    Yes,
    #[serde(rename = "1")]
    One,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Inner {
    pub s: String,
    pub n: i64,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub o: Option<String>,
    pub p: Option<u8>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(tag = "t", rename_all = "snake_case")]
pub enum Internal {
    UnitOne,
    NewOne(Inner),
    StructOne { a: i64, b: String, c: Vec<String>, w: Word },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(tag = "t", content = "c")]
pub enum Adjacent {
    Unit,
    New(String),
    Tup(i64, String, bool),
    Struct { a: Option<i64>, b: String },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum External {
    Unit,
    New(Inner),
    Text(String),
    List(Vec<External>),
    Maybe(Option<i64>),
    Tup(i64, String),
    Struct { a: Box<External>, b: Option<Box<External>> },
    Empty {},
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(untagged)]
pub enum Untagged {
    Num(i64),
    Flag(bool),
    Pair { x: String, y: i64 },
    Call(String, Vec<i64>, Word),
    List(Vec<Untagged>),
    Text(String),
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Newtype(pub String);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Whole {
    #[serde(rename = "type")]
    pub kind: String,
    pub words: Vec<Word>,
    pub pair: (String, i128, char),
    pub nested: Vec<Vec<String>>,
    pub numbers: BTreeMap<i64, Vec<f64>>,
    pub by_word: BTreeMap<Word, String>,
    pub by_name: BTreeMap<String, Option<Inner>>,
    pub array: [u16; 3],
    pub new: Newtype,
    pub result: Result<u128, String>,
    pub internal: Vec<Internal>,
    pub adjacent: Vec<Adjacent>,
    pub external: Vec<External>,
    pub untagged: Vec<Untagged>,
    pub tuples: Vec<(String, Vec<String>)>,
    pub unit: (),
    #[serde(flatten)]
    pub flat: Internal,
    pub open: Vec<Open>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Open {
    id: u64,
    #[serde(flatten)]
    pub rest: HashMap<String, String>,
}

fn gen_inner(r: &mut Rng) -> Inner {
    Inner {
        s: hostile::string(r),
        n: gen_int(r, 64) as i64,
        o: if r.chance(1, 2) { Some(hostile::string(r)) } else { None },
        p: if r.chance(1, 2) { Some(r.below(256) as u8) } else { None },
    }
}
fn gen_word(r: &mut Rng) -> Word {
    r.pick(&[Word::A, Word::True, Word::False, Word::Null, Word::LowNull, Word::Yes, Word::One]).clone()
}
fn many<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Vec<T> {
    let n = if r.chance(1, 60) { r.below(40) } else { r.below(4) };
    (0..n).map(|_| f(r)).collect()
}
fn gen_internal(r: &mut Rng) -> Internal {
    match r.below(3) {
        0 => Internal::UnitOne,
        1 => Internal::NewOne(gen_inner(r)),
        _ => Internal::StructOne { a: gen_int(r, 64) as i64, b: hostile::string(r), c: many(r, hostile::string), w: gen_word(r) },
    }
}
fn gen_adjacent(r: &mut Rng) -> Adjacent {
    match r.below(4) {
        0 => Adjacent::Unit,
        1 => Adjacent::New(hostile::string(r)),
        2 => Adjacent::Tup(gen_int(r, 64) as i64, hostile::string(r), r.chance(1, 2)),
        _ => Adjacent::Struct { a: if r.chance(1, 2) { Some(gen_int(r, 64) as i64) } else { None }, b: hostile::string(r) },
    }
}
fn gen_external(r: &mut Rng) -> External {
    match r.below(12) {
        0 => External::New(gen_inner(r)),
        1 | 2 => External::Text(hostile::string(r)),
        3 => {
            let n = r.below(3);
            External::List((0..n).map(|_| gen_external(r)).collect())
        }
        4 => External::Maybe(if r.chance(1, 2) { Some(gen_int(r, 64) as i64) } else { None }),
        5 => External::Tup(gen_int(r, 64) as i64, hostile::string(r)),
        6 => External::Struct { a: Box::new(gen_external(r)), b: if r.chance(1, 2) { Some(Box::new(gen_external(r))) } else { None } },
        7 => External::Empty {},
        _ => External::Unit,
    }
}
fn gen_untagged(r: &mut Rng) -> Untagged {
    match r.below(8) {
        0 => Untagged::Num(gen_int(r, 64) as i64),
        1 => Untagged::Flag(r.chance(1, 2)),
        2 => Untagged::Pair { x: hostile::string(r), y: gen_int(r, 64) as i64 },
        3 => Untagged::Call(hostile::string(r), many(r, |r| gen_int(r, 64) as i64), gen_word(r)),
        4 => Untagged::List(many(r, |r| Untagged::Text(hostile::string(r)))),
        _ => Untagged::Text(hostile::string(r)),
    }
}
fn gen_whole(r: &mut Rng) -> Whole {
    Whole {
        kind: hostile::string(r),
        words: many(r, gen_word),
        pair: (hostile::string(r), gen_int(r, 128), gen_char(r)),
        nested: many(r, |r| many(r, hostile::string)),
        numbers: many(r, |r| (r.below(1000) as i64, many(r, |r| gen_int(r, 32) as f64 / 8.0))).into_iter().collect(),
        by_word: many(r, |r| (gen_word(r), hostile::string(r))).into_iter().collect(),
        by_name: many(r, |r| (gen_key_text(r), if r.chance(1, 2) { Some(gen_inner(r)) } else { None })).into_iter().collect(),
        array: [gen_uint(r, 16) as u16, gen_uint(r, 16) as u16, 0],
        new: Newtype(hostile::string(r)),
        result: if r.chance(1, 2) { Ok(gen_uint(r, 128)) } else { Err(hostile::string(r)) },
        internal: many(r, gen_internal),
        adjacent: many(r, gen_adjacent),
        external: many(r, gen_external),
        untagged: many(r, gen_untagged),
        tuples: many(r, |r| (hostile::string(r), many(r, hostile::string))),
        unit: (),
        flat: gen_internal(r),
        open: many(r, |r| Open { id: gen_uint(r, 64) as u64, rest: many(r, |r| (format!("r{}", r.below(5)), hostile::string(r))).into_iter().collect() }),
    }
}

/// Attributes and types of the standard library which the derived types above lack.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename_all = "kebab-case", deny_unknown_fields)]
pub struct Std {
    pub v4_address: Ipv4Addr,
    pub v6_address: Ipv6Addr,
    pub any_address: Vec<IpAddr>,
    pub socket: SocketAddr,
    pub wait_time: Duration,
    pub non_zero: (NonZeroU8, NonZeroI64),
    pub wrapped: Wrapping<i32>,
    pub set: BTreeSet<String>,
    pub words: BTreeSet<Word>,
    pub queue: VecDeque<Option<bool>>,
    pub range: Range<i64>,
    pub closed: RangeInclusive<u8>,
    pub ends: (Bound<i32>, Bound<String>),
    pub cow: Cow<'static, str>,
    pub path: PathBuf,
    pub boxed: Box<str>,
    pub slice: Box<[u64]>,
    pub fixed: [String; 5],
    pub wide: (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, char),
    pub floats: (f32, f64),
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub sparse: Vec<String>,
    #[serde(default = "seven", alias = "sev")]
    pub seven: u8,
    #[serde(skip)]
    pub skipped: u8,
    #[serde(with = "reversed")]
    pub reversed: String,
    pub converted: Converted,
    pub transparent: Transparent,
    pub tree: Tree,
    pub by_number: HashMap<u64, Tree>,
    pub by_char: BTreeMap<char, i8>,
    pub by_bool: BTreeMap<bool, Vec<()>>,
    pub by_newtype: BTreeMap<Name, String>,
    pub deep: Vec<Option<Vec<Option<BTreeMap<String, Vec<String>>>>>>,
    pub tagged_in_tagged: Outer,
}
fn seven() -> u8 {
    7
}
mod reversed {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(t: &str, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&t.chars().rev().collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<String, D::Error> {
        Ok(String::deserialize(d)?.chars().rev().collect())
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(try_from = "String", into = "String")]
pub struct Converted(i64);
impl TryFrom<String> for Converted {
    type Error = String;
    fn try_from(t: String) -> Result<Self, String> {
        t.strip_prefix("0x").and_then(|t| u64::from_str_radix(t, 16).ok()).map(|i| Converted(i as i64)).ok_or(format!("{:?} is no hex number", t))
    }
}
impl From<Converted> for String {
    fn from(c: Converted) -> String {
        format!("0x{:x}", c.0)
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(transparent)]
pub struct Transparent {
    only: Vec<Newtype>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Name(String);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
#[serde(default)]
pub struct Tree {
    pub name: String,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub children: Vec<Tree>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub left: Option<Box<Tree>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(tag = "kind")]
pub enum Outer {
    Plain { internal: Internal, adjacent: Adjacent },
    Mixed { external: External, untagged: Untagged },
}

fn gen_tree(r: &mut Rng, d: usize) -> Tree {
    Tree {
        name: hostile::string(r),
        children: if d > 0 { (0..r.below(3)).map(|_| gen_tree(r, d - 1)).collect() } else { vec![] },
        left: if d > 0 && r.chance(1, 2) { Some(Box::new(gen_tree(r, d - 1))) } else { None },
    }
}
fn gen_bound<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Bound<T> {
    match r.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(f(r)),
        _ => Bound::Excluded(f(r)),
    }
}
fn gen_v6(r: &mut Rng) -> Ipv6Addr {
    match r.below(4) {
        0 => Ipv6Addr::UNSPECIFIED,
        1 => Ipv6Addr::LOCALHOST,
        2 => Ipv4Addr::from(r.next() as u32).to_ipv6_mapped(),
        _ => Ipv6Addr::from((r.next() as u128) << 64 | (r.next() as u128) >> r.below(64)),
    }
}
fn gen_ip(r: &mut Rng) -> IpAddr {
    if r.chance(1, 2) { IpAddr::V4(Ipv4Addr::from(r.next() as u32)) } else { IpAddr::V6(gen_v6(r)) }
}
fn gen_float(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => gen_int(r, 64) as f64,
        1 => r.below(1000) as f64 / 8.0,
        2 => f64::from_bits(r.next() >> 2),
        _ => -(r.below(1_000_000) as f64) * 1e-9,
    }
}
fn gen_std(r: &mut Rng) -> Std {
    let start = gen_int(r, 64) as i64;
    Std {
        v4_address: Ipv4Addr::from(r.next() as u32),
        v6_address: gen_v6(r),
        any_address: many(r, gen_ip),
        socket: SocketAddr::new(gen_ip(r), r.next() as u16),
        wait_time: Duration::new(gen_uint(r, 64) as u64, r.below(1_000_000_000) as u32),
        non_zero: (NonZeroU8::new(gen_uint(r, 8) as u8).unwrap_or(NonZeroU8::MAX), NonZeroI64::new(gen_int(r, 64) as i64).unwrap_or(NonZeroI64::MIN)),
        wrapped: Wrapping(gen_int(r, 32) as i32),
        set: many(r, hostile::string).into_iter().collect(),
        words: many(r, gen_word).into_iter().collect(),
        queue: many(r, |r| if r.chance(1, 3) { None } else { Some(r.chance(1, 2)) }).into(),
        range: start..gen_int(r, 64) as i64,
        closed: gen_uint(r, 8) as u8..=gen_uint(r, 8) as u8,
        ends: (gen_bound(r, |r| gen_int(r, 32) as i32), gen_bound(r, hostile::string)),
        cow: Cow::Owned(hostile::string(r)),
        path: PathBuf::from(hostile::string(r)),
        boxed: hostile::string(r).into(),
        slice: many(r, |r| gen_uint(r, 64) as u64).into(),
        fixed: [(); 5].map(|_| hostile::string(r)),
        wide: (gen_uint(r, 8) as u8, gen_int(r, 8) as i8, gen_uint(r, 16) as u16, gen_int(r, 16) as i16, gen_uint(r, 32) as u32, gen_int(r, 32) as i32, gen_uint(r, 64) as u64, gen_int(r, 64) as i64, gen_uint(r, 128), gen_int(r, 128), r.chance(1, 2), gen_char(r)),
        floats: (gen_float(r) as f32, gen_float(r)),
        sparse: many(r, hostile::string),
        seven: gen_uint(r, 8) as u8,
        skipped: 0,
        reversed: hostile::string(r),
        converted: Converted(gen_int(r, 64) as i64),
        transparent: Transparent { only: many(r, |r| Newtype(hostile::string(r))) },
        tree: gen_tree(r, 4),
        by_number: many(r, |r| (gen_uint(r, 64) as u64, gen_tree(r, 1))).into_iter().collect(),
        by_char: many(r, |r| ((b'a' + r.below(26) as u8) as char, gen_int(r, 8) as i8)).into_iter().collect(),
        by_bool: many(r, |r| (r.chance(1, 2), vec![(); r.below(3)])).into_iter().collect(),
        by_newtype: many(r, |r| (Name(gen_key_text(r)), hostile::string(r))).into_iter().collect(),
        deep: many(r, |r| if r.chance(1, 3) { None } else { Some(many(r, |r| if r.chance(1, 3) { None } else { Some(many(r, |r| (gen_key_text(r), many(r, hostile::string))).into_iter().collect()) })) }),
        tagged_in_tagged: if r.chance(1, 2) { Outer::Plain { internal: gen_internal(r), adjacent: gen_adjacent(r) } } else { Outer::Mixed { external: gen_external(r), untagged: gen_untagged(r) } },
    }
}

fn whole(r: &mut Rng, ctx: &mut Ctx, text: bool) -> Res {
    if r.chance(1, 2) {
        ctx.hit("types of the standard library");
        let v = gen_std(r);
        return derived(v, ctx, text);
    }
    let v = gen_whole(r);
    derived(v, ctx, text)
}
fn derived<T: Serialize + for<'de> Deserialize<'de> + std::fmt::Debug + PartialEq>(v: T, ctx: &mut Ctx, text: bool) -> Res {
    ctx.say(format!("{:?}", v));
    ctx.distinct(&ctx.input.clone());
    ctx.hit("derived types");
    let y = v.serialize(YamlSerializer).map_err(|e| format!("serializing fails: {}", e))?;
    for (how, y) in [("", y.clone()), (", after prettifying", y.clone().pretty()), (", after prettifying twice", y.pretty().pretty())] {
        if text {
            let t = document(y).format().map_err(|e| format!("format fails: {}", e))?;
            let back: T = from_yaml_str(&t).map_err(|e| format!("reading the text{} fails: {}\n--- text\n{}", how, e, t))?;
            if back != v {
                return Err(format!("read back{}:\n{:?}\n--- text\n{}", how, back, t));
            }
        } else {
            let back: T = from_yaml(y).map_err(|e| format!("reading the tree{} fails: {}", how, e))?;
            if back != v {
                return Err(format!("read back{}: {:?}", how, back));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn document(y: Yaml) -> Document {
    Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y)] }
}

fn note(s: &Schema, ctx: &mut Ctx) {
    let t = format!("{:?}", s);
    for k in ["Bool", "I(8)", "I(16)", "I(32)", "I(64)", "I(128)", "U(8)", "U(16)", "U(32)", "U(64)", "U(128)", "F32", "F64", "Char", "Str", "Bytes", "Opt(", "Unit,", "UnitStruct", "Newtype(", "Seq(", "Tuple(", "TupleStruct(", "Map(", "Struct(", "Enum("] {
        if t.contains(k) {
            ctx.hit(&format!("schema {}", k.trim_end_matches(['(', ','])));
        }
    }
}

fn c19(r: &mut Rng, ctx: &mut Ctx) -> Res {
    if r.chance(1, 6) {
        return whole(r, ctx, false);
    }
    let depth = r.below(1 + ctx.size.min(5));
    let s = gen_schema(r, depth);
    let v = gen_val(r, &s, false);
    ctx.say(format!("schema {:?}\nvalue {:?}", s, v));
    if depth > 0 {
        ctx.distinct(&ctx.input.clone());
    }
    note(&s, ctx);
    if r.chance(1, 12) {
        let (mut s, mut v) = (s, v);
        if let Some(what) = poison(r, &mut s, &mut v) {
            ctx.say(format!("schema {:?}\nvalue {:?}\nwith {}", s, v, what));
            ctx.hit(what);
            return match guarded(|| write(&s, &v)).map_err(|e| format!("serializing panics: {}", e))? {
                Ok(y) => Err(format!("serializing {} gives {:?} and no error", what, y)),
                Err(_) => Ok(()),
            };
        }
        return Ok(());
    }
    let y = write(&s, &v).map_err(|e| format!("serializing fails: {}", e))?;
    for (how, y) in [("", y.clone()), (", after prettifying", y.clone().pretty()), (", after prettifying twice", y.clone().pretty().pretty()), (", as part of a flow collection", y.pretty_with_options(true, false))] {
        let shown = format!("{:?}", y);
        match read(y, &s) {
            Ok(b) if b == v => {}
            Ok(b) => return Err(format!("read back{}: {:?}\ntree: {}", how, b, shown)),
            Err(e) => return Err(format!("reading{} fails: {}\ntree: {}", how, e, shown)),
        }
    }
    Ok(())
}

/// How a plain scalar reads without a type.
pub fn plain_any(t: &str) -> Any {
    match t {
        "~" | "null" | "Null" | "NULL" => Any::Null,
        "true" => Any::Bool(true),
        "false" => Any::Bool(false),
        t => {
            if let Ok(i) = t.parse::<i64>() {
                Any::Int(i as i128)
            } else if let Ok(i) = t.parse::<u64>() {
                Any::Int(i as i128)
            } else if let Ok(f) = t.parse::<f64>() {
                Any::Float(f)
            } else {
                Any::Str(t.to_string())
            }
        }
    }
}
fn number(f: f64) -> Any {
    plain_any(&f.to_string())
}
/// Whether `got` is what a value reads as without a type.
fn untyped(s: &Schema, v: &Val, got: &Any) -> bool {
    let list = |s: &[Schema], v: &[Val], g: &Any| matches!(g, Any::Seq(g) if g.len() == v.len() && s.iter().zip(v).zip(g).all(|((s, v), g)| untyped(s, v, g)));
    let named = |at: usize, s: &[Schema], v: &[Val], g: &Any| matches!(g, Any::Map(g) if g.len() == v.len() && s.iter().zip(v).zip(g).zip(fields(at, s.len())).all(|(((s, v), g), n)| same(&g.0, &plain_any(n)) && untyped(s, v, &g.1)));
    match (s, v) {
        (_, Val::Bool(b)) => got == &Any::Bool(*b),
        (_, Val::I(i)) => same(got, &plain_any(&i.to_string())),
        (_, Val::U(i)) => same(got, &plain_any(&i.to_string())),
        (_, Val::F32(f)) => same(got, &plain_any(&f.to_string())) || same(got, &number(*f as f64)),
        (_, Val::F64(f)) => match got {
            Any::Int(i) => *i as f64 == *f,
            Any::Float(g) => g.is_nan() && f.is_nan() || g == f,
            _ => false,
        },
        (_, Val::Char(c)) => got == &Any::Str(c.to_string()),
        (_, Val::Str(t)) => got == &Any::Str(t.clone()),
        (_, Val::Bytes(b)) => got == &Any::Seq(b.iter().map(|b| Any::Int(*b as i128)).collect()),
        (_, Val::None) | (_, Val::Unit) => got == &Any::Null,
        (Schema::Opt(s), Val::Some(v)) => untyped(s, v, got),
        (Schema::Newtype(s), Val::List(v)) => untyped(s, &v[0], got),
        (Schema::Seq(s), Val::List(v)) => matches!(got, Any::Seq(g) if g.len() == v.len() && v.iter().zip(g).all(|(v, g)| untyped(s, v, g))),
        (Schema::Tuple(s), Val::List(v)) | (Schema::TupleStruct(s), Val::List(v)) => list(s, v, got),
        (Schema::Struct(at, s), Val::List(v)) => named(*at, s, v, got),
        (Schema::Map(ks, vs), Val::Map(m)) => {
            let key = |k: &Val| match (&**ks, k) {
                (_, Val::None) => "~".to_string(),
                (_, Val::Some(k)) => match &**k {
                    Val::U(i) => i.to_string(),
                    Val::Bool(b) => b.to_string(),
                    _ => String::new(),
                },
                (_, Val::Str(t)) => t.clone(),
                (_, Val::I(i)) => i.to_string(),
                (_, Val::U(i)) => i.to_string(),
                (_, Val::Bool(b)) => b.to_string(),
                (_, Val::Char(c)) => c.to_string(),
                (Schema::Newtype(_), Val::List(v)) => match &v[0] {
                    Val::Str(t) => t.clone(),
                    _ => String::new(),
                },
                (Schema::Enum(at, _), Val::Variant(i, _)) => VARIANTS[at + i].to_string(),
                _ => String::new(),
            };
            matches!(got, Any::Map(g) if g.len() == m.len() && m.iter().zip(g).all(|(m, g)| same(&g.0, &plain_any(&key(&m.0))) && untyped(vs, &m.1, &g.1)))
        }
        (Schema::Enum(at, vs), Val::Variant(i, v)) => {
            let name = VARIANTS[at + i];
            let content = |f: &dyn Fn(&Any) -> bool| matches!(got, Any::Map(g) if g.len() == 1 && same(&g[0].0, &plain_any(name)) && f(&g[0].1));
            match &vs[*i] {
                Variant::Unit => got == &Any::Str(name.to_string()),
                Variant::Newtype(s) => content(&|g| untyped(s, &v[0], g)),
                Variant::Tuple(s) => content(&|g| list(s, v, g)),
                Variant::Struct(at, s) => content(&|g| named(*at, s, v, g)),
            }
        }
        _ => false,
    }
}
pub fn same(a: &Any, b: &Any) -> bool {
    match (a, b) {
        (Any::Float(x), Any::Float(y)) => x.is_nan() && y.is_nan() || x == y,
        (a, b) => a == b,
    }
}

fn c20(r: &mut Rng, ctx: &mut Ctx) -> Res {
    if r.chance(1, 6) {
        return whole(r, ctx, true);
    }
    let depth = r.below(1 + ctx.size.min(5));
    let mut s = gen_schema(r, depth);
    let mut v = gen_val(r, &s, true);
    let y = write(&s, &v).map_err(|e| format!("serializing {:?} fails: {}", v, e))?;
    if !matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineArray(_) | Yaml::InlineHash(_)) || r.chance(1, 4) {
        let (s2, v2) = (gen_schema(r, 1), r.below(3));
        let other = gen_val(r, &s2, true);
        match v2 {
            0 => {
                s = Schema::Seq(Box::new(s));
                v = Val::List(vec![v]);
            }
            1 => {
                s = Schema::Tuple(vec![s2, s]);
                v = Val::List(vec![other, v]);
            }
            _ => {
                s = Schema::Struct(r.below(20), vec![s, s2]);
                v = Val::List(vec![v, other]);
            }
        }
    }
    ctx.say(format!("schema {:?}\nvalue {:?}", s, v));
    ctx.distinct(&ctx.input.clone());
    note(&s, ctx);
    let y = write(&s, &v).map_err(|e| format!("serializing fails: {}", e))?;
    for (how, y) in [("", y.clone()), (", prettified,", y.clone().pretty())] {
        let t = document(y.clone()).format().map_err(|e| format!("format{} fails: {}", how, e))?;
        let d = parse_yaml_file(&t).map_err(|e| format!("the text{} is rejected:\n{}\n--- text\n{}", how, e, t))?;
        let back = d.items.into_iter().find_map(|i| if let DocumentData::Yaml(y) = i { Some(y) } else { None }).ok_or("no value")?;
        match read(back.clone(), &s) {
            Ok(b) if b == v => {}
            Ok(b) => return Err(format!("read back{}: {:?}\n--- text\n{}", how, b, t)),
            Err(e) => return Err(format!("reading the text{} fails: {}\n--- text\n{}", how, e, t)),
        }
        let any = Any::deserialize(YamlDeserializer::new(back)).map_err(|e| format!("reading the text{} untyped fails: {}\n--- text\n{}", how, e, t))?;
        if !untyped(&s, &v, &any) {
            return Err(format!("untyped, the text{} reads as {:?}\n--- text\n{}", how, any, t));
        }
        if r.chance(1, 3) {
            // the text read, prettified and written again
            ctx.hit("texts read, prettified and written again");
            let d = parse_yaml_file(&t).map_err(|e| format!("the second time the text{} is rejected: {}", how, e))?;
            let t2 = d.pretty().format().map_err(|e| format!("formatting the prettified document{} fails: {}", how, e))?;
            let d2 = parse_yaml_file(&t2).map_err(|e| format!("the prettified text{} is rejected:\n{}\n--- text\n{}--- prettified\n{}", how, e, t, t2))?;
            let back = d2.items.into_iter().find_map(|i| if let DocumentData::Yaml(y) = i { Some(y) } else { None }).ok_or("no value")?;
            match read(back.clone(), &s) {
                Ok(b) if b == v => {}
                Ok(b) => return Err(format!("read back from the prettified text{}: {:?}\n--- text\n{}--- prettified\n{}", how, b, t, t2)),
                Err(e) => return Err(format!("reading the prettified text{} fails: {}\n--- text\n{}--- prettified\n{}", how, e, t, t2)),
            }
            let any = Any::deserialize(YamlDeserializer::new(back)).map_err(|e| format!("reading the prettified text{} untyped fails: {}\n--- text\n{}", how, e, t2))?;
            if !untyped(&s, &v, &any) {
                return Err(format!("untyped, the prettified text{} reads as {:?}\n--- text\n{}", how, any, t2));
            }
        }
    }
    Ok(())
}

fn known(_: &str, _: &mut Ctx) -> Res {
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            rule: "Random types made at run time (every kind serde has, nested) with random and extreme values, and a fixed set of derived types (tagged, untagged, flattened), serialized to a tree and read back, directly and after prettifying. Non-trivial: nested types and derived ones.",
            assumptions: &["options of values that can be null themselves, and untagged enums telling integral floats from integers, are left out: their trees are equal"],
            quick: 700_000,
            thorough: 3_000_000,
            case: c19,
            fixed: no_fixed,
            known,
        },
        Check {
            id: "C20",
            rule: "As for C19 with map keys the subset can write, formatted as a document and parsed; read with the type and without. Non-trivial: all.",
            assumptions: &["map keys are those of the grammar, without blanks at the end"],
            quick: 160_000,
            thorough: 3_000_000,
            case: c20,
            fixed: no_fixed,
            known,
        },
    ]
}
