//! C21, C22 and C23: reading values, resolving references, visiting and mapping.
use super::parse::{diff, parse_ok};
use crate::engine::*;
use crate::hostile;
use crate::model::*;
use crate::proj;
use crate::render::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::types::Any;
use serde::de::DeserializeOwned;
use std::collections::HashMap;
use yaml_subset::yaml::{from_yaml, from_yaml_str, parse_yaml_file, AliasedYaml, ArrayData, Document, DocumentData, HashData, MapYaml, VisitYaml, Yaml};

// ---------------------------------------------------------------------------------------------
// The reference reading of a tree without references.

/// Sign and magnitude of an integer text; None: not one. A magnitude above 128 bits is None too.
fn integer(s: &str) -> Option<(bool, Option<u128>)> {
    let (neg, d) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut m: Option<u128> = Some(0);
    for b in d.bytes() {
        m = m.and_then(|m| m.checked_mul(10)).and_then(|m| m.checked_add((b - b'0') as u128));
    }
    Some((neg, m))
}

fn float_like(s: &str) -> bool {
    let b = s.strip_prefix(['-', '+']).unwrap_or(s);
    let l = b.to_ascii_lowercase();
    if ["inf", "infinity", "nan"].contains(&l.as_str()) {
        return true;
    }
    let (mant, exp) = match l.split_once('e') {
        Some((m, e)) => (m.to_string(), Some(e.to_string())),
        None => (l.clone(), None),
    };
    if let Some(e) = exp {
        let e = e.strip_prefix(['-', '+']).unwrap_or(&e).to_string();
        if e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit()) {
            return false;
        }
    }
    let (i, f) = mant.split_once('.').unwrap_or((&mant, ""));
    (i.len() + f.len() > 0) && i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit())
}

fn is_null(s: &str) -> bool {
    ["~", "null", "Null", "NULL"].contains(&s)
}
fn boolean(s: &str) -> Option<bool> {
    for (t, f) in [("true", "false"), ("yes", "no"), ("on", "off")] {
        for (w, b) in [(t, true), (f, false)] {
            let first = w[..1].to_uppercase() + &w[1..];
            if s == w || s == first || s == w.to_uppercase() {
                return Some(b);
            }
        }
    }
    None
}

/// Why no value comes out: the reading must fail, or nobody said what happens.
#[derive(Debug, PartialEq)]
enum No {
    Fails,
    Unsaid,
}
type Want<T> = Result<T, No>;

fn any_scalar(s: &Scalar) -> Any {
    let v = &s.value;
    if s.style != Style::Plain {
        return Any::Str(v.clone());
    }
    if is_null(v) {
        return Any::Null;
    }
    if v == "true" || v == "false" {
        return Any::Bool(v == "true");
    }
    match integer(v) {
        Some((true, Some(m))) if m <= 1 << 63 => return Any::Int((m as i128).wrapping_neg()),
        Some((false, Some(m))) if m <= u64::MAX as u128 => return Any::Int(m as i128),
        _ => {}
    }
    if float_like(v) {
        return Any::Float(v.parse().expect("float"));
    }
    Any::Str(v.clone())
}

fn any(n: &Node) -> Want<Any> {
    Ok(match n {
        Node::Scalar(s) => any_scalar(s),
        Node::Ref(_) => return Err(No::Fails),
        Node::Seq { .. } => Any::Seq(n.entries().iter().map(|e| any(&e.node)).collect::<Want<_>>()?),
        Node::Map { .. } => Any::Map(n.entries().iter().map(|e| Ok((any(&plain(&e.key))?, any(&e.node)?))).collect::<Want<_>>()?),
    })
}

/// All parts, when each has a value; a part that fails makes the whole fail.
fn all_of<T>(it: impl Iterator<Item = Want<T>>) -> Want<Vec<T>> {
    let mut v = Vec::new();
    let mut no = None;
    for x in it {
        match x {
            Ok(x) => v.push(x),
            Err(No::Fails) => no = Some(No::Fails),
            Err(No::Unsaid) => no = no.or(Some(No::Unsaid)),
        }
    }
    no.map_or(Ok(v), Err)
}

fn by_position(n: &Node, s: &[Schema]) -> Want<Vec<Val>> {
    match n {
        Node::Seq { .. } if n.entries().len() == s.len() => all_of(n.entries().iter().zip(s).map(|(e, s)| expect(&e.node, s))),
        _ => Err(No::Fails),
    }
}
fn by_field(n: &Node, at: usize, s: &[Schema], loose: bool) -> Want<Vec<Val>> {
    if !matches!(n, Node::Map { .. }) {
        return Err(No::Fails);
    }
    let names = fields(at, s.len());
    let known: Vec<_> = n.entries().into_iter().filter(|e| names.contains(&e.key.as_str())).collect();
    if !loose && known.len() < n.entries().len() {
        return Err(No::Fails);
    }
    if known.len() != names.len() || names.iter().any(|k| !known.iter().any(|e| e.key == *k)) {
        return Err(No::Fails);
    }
    all_of(names.iter().zip(s).map(|(k, s)| expect(&known.iter().find(|e| e.key == *k).unwrap().node, s)))
}

fn expect(n: &Node, s: &Schema) -> Want<Val> {
    if matches!(n, Node::Ref(_)) {
        return Err(No::Fails);
    }
    let scalar = match n {
        Node::Scalar(s) => Some(s),
        _ => None,
    };
    let text = scalar.map(|s| s.value.as_str());
    let plain_text = scalar.filter(|s| s.style == Style::Plain).map(|s| s.value.as_str());
    let no = Err(No::Fails);
    match s {
        Schema::Bool => plain_text.and_then(boolean).map(Val::Bool).ok_or(No::Fails),
        Schema::I(b) => match text.and_then(integer) {
            Some((neg, Some(m))) if m <= (1u128 << (b - 1)) - if neg { 0 } else { 1 } => {
                Ok(Val::I(if neg { (m as i128).wrapping_neg() } else { m as i128 }))
            }
            _ => no,
        },
        Schema::U(b) => match text.and_then(integer) {
            Some((true, Some(0))) => Err(No::Unsaid),
            Some((false, Some(m))) if *b == 128 || m < (1u128 << b) => Ok(Val::U(m)),
            _ => no,
        },
        Schema::F64 => text.filter(|t| float_like(t)).map(|t| Val::F64(t.parse().unwrap())).ok_or(No::Fails),
        Schema::F32 => text.filter(|t| float_like(t)).map(|t| Val::F32(t.parse().unwrap())).ok_or(No::Fails),
        Schema::Char => match text.map(|t| t.chars().collect::<Vec<_>>()).as_deref() {
            Some([c]) => Ok(Val::Char(*c)),
            _ => no,
        },
        Schema::Str => text.map(|t| Val::Str(t.to_string())).ok_or(No::Fails),
        Schema::Bytes => match n {
            Node::Seq { .. } => all_of(n.entries().iter().map(|e| expect(&e.node, &Schema::U(8))))
                .map(|v| Val::Bytes(v.into_iter().map(|v| if let Val::U(b) = v { b as u8 } else { 0 }).collect())),
            _ => no,
        },
        Schema::Opt(s) => match plain_text.filter(|t| is_null(t)) {
            Some(_) => Ok(Val::None),
            None => Ok(Val::Some(Box::new(expect(n, s)?))),
        },
        Schema::Unit | Schema::UnitStruct => plain_text.filter(|t| is_null(t)).map(|_| Val::Unit).ok_or(No::Fails),
        Schema::Newtype(s) => Ok(Val::List(vec![expect(n, s)?])),
        Schema::Seq(s) => match n {
            Node::Seq { .. } => all_of(n.entries().iter().map(|e| expect(&e.node, s))).map(Val::List),
            _ => no,
        },
        Schema::Tuple(s) | Schema::TupleStruct(s) => by_position(n, s).map(Val::List),
        Schema::Map(k, v) => match n {
            Node::Map { .. } => {
                let es = n.entries();
                let ks = all_of(es.iter().map(|e| expect(&plain(&e.key), k)));
                let vs = all_of(es.iter().map(|e| expect(&e.node, v)));
                match (ks, vs) {
                    (Ok(ks), Ok(vs)) => Ok(Val::Map(ks.into_iter().zip(vs).collect())),
                    (Err(No::Fails), _) | (_, Err(No::Fails)) => no,
                    _ => Err(No::Unsaid),
                }
            }
            _ => no,
        },
        Schema::Struct(at, s) => by_field(n, *at, s, false).map(Val::List),
        Schema::Loose(at, s) => by_field(n, *at, s, true).map(Val::List),
        Schema::Any => any(n).map(Val::Any),
        Schema::Enum(at, vs) => {
            // a variant is written as its name, or as a map of its name to its content
            let null = plain("~");
            let (name, content) = match n {
                Node::Scalar(s) => (s.value.as_str(), &null),
                Node::Map { .. } if n.entries().len() == 1 => (n.entries()[0].key.as_str(), &n.entries()[0].node),
                _ => return no,
            };
            let i = match VARIANTS[*at..at + vs.len()].iter().position(|v| *v == name) {
                Some(i) => i,
                None => return no,
            };
            let v = match &vs[i] {
                Variant::Unit => expect(content, &Schema::Unit).map(|_| vec![]),
                Variant::Newtype(s) => expect(content, s).map(|v| vec![v]),
                Variant::Tuple(s) => by_position(content, s),
                Variant::Struct(at, s) => by_field(content, *at, s, false),
            };
            match (&vs[i], scalar, &v) {
                // a bare name for a variant with content that may be null
                (Variant::Newtype(_), Some(_), Ok(_)) => Err(No::Unsaid),
                _ => v.map(|v| Val::Variant(i, v)),
            }
        }
    }
}

fn judge(how: &str, n: &Node, s: &Schema, got: Result<Val, String>, ctx: &mut Ctx) -> Res {
    match (expect(n, s), got) {
        (Err(No::Unsaid), _) => ctx.hit("unsaid"),
        (Ok(w), Ok(g)) if w == g => ctx.hit("read"),
        (Err(No::Fails), Err(_)) => ctx.hit("refused"),
        (Ok(w), Ok(g)) => return Err(diff(&format!("{} reads wrongly as {:?}", how, s), &format!("{:?}", w), &format!("{:?}", g))),
        (Ok(w), Err(e)) => return Err(format!("{} should read as {:?}: {:?}\nbut fails: {}", how, s, w, e)),
        (Err(_), Ok(g)) => return Err(format!("{} reads as {:?}: {:?}\nbut should be an error\n{}", how, s, g, n.dump(FULL))),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

fn number_text(r: &mut Rng) -> String {
    let bits = *r.pick(&[8u8, 16, 32, 64, 64, 128]);
    match r.below(11) {
        10 => {
            // on or next to the middle between two neighbouring f32
            let f = f32::from_bits((r.next() as u32) % 0x2000_0000 + 0x3400_0000);
            let middle = (f as f64 + f32::from_bits(f.to_bits() + 1) as f64) / 2.0;
            let t = format!("{}{:.80}", r.pick(&["", "-"]), middle);
            let t = t.trim_end_matches('0');
            match r.below(3) {
                0 => t.to_string(),
                1 => format!("{}{}{}", t, "0".repeat(r.below(40)), 1 + r.below(9)),
                _ => format!("{}4{}", &t[..t.len() - 1], "9".repeat(1 + r.below(40))),
            }
        }
        0..=2 => {
            // around a bound
            let bound: u128 = if r.chance(1, 2) { 1u128 << (bits - 1) } else if bits == 128 { 0 } else { 1u128 << bits };
            let m = bound.wrapping_add(r.below(5) as u128).wrapping_sub(2);
            format!("{}{}", r.pick(&["", "", "-", "-", "+"]), m)
        }
        3 => gen_int(r, bits).to_string(),
        4 => {
            let n = 1 + r.below(60);
            let d: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            format!("{}{}", r.pick(&["", "-", "+"]), d)
        }
        5 => format!("{}{}{}", r.pick(&["", "-", "+", "--", "0x", "0", " ", "_", "000000000000000000000000000000000000000000"]), r.below(300), r.pick(&["", "", " ", ".0", "e0", "_", "u8", "\n", "_000", ",000", "e-1", "٣"])),
        6 => gen_f64(r).to_string(),
        7 => format!("{:e}", gen_f64(r)),
        8 => {
            let n = r.below(7);
            (0..n).map(|_| *r.pick(&['0', '1', '9', '.', 'e', 'E', '-', '+', '_', 'x'])).collect()
        }
        _ => r.pick(&["0", "-0", "+0", "00", "-00", "inf", "-inf", "+inf", ".inf", "nan", "-NaN", ".nan", "infinity", "iNf", "0x10", "0b1", "0o7", "1_000", "1e400", "-1e400", "1e-400", "٣", "１", "½", "²"]).to_string(),
    }
}

fn word_text(r: &mut Rng) -> String {
    let w = *r.pick(&["true", "false", "yes", "no", "on", "off", "null", "~", "y", "n", "t", "none", "nil", "some", "A", "B"]);
    match r.below(6) {
        0 => w.to_uppercase(),
        1 => w[..1].to_uppercase() + &w[1..],
        2 => w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        3 => format!("{}{}", w, r.pick(&[" ", "s", ".", "\n", "1", "\u{a0}"])),
        _ => w.to_string(),
    }
}

/// A scalar in some style that means `t`, as far as that style can.
fn scalar_of(r: &mut Rng, t: &str) -> Scalar {
    let block = |r: &mut Rng, lit: bool| {
        let chomp = if t.ends_with('\n') { *r.pick(&['c', 'k']) } else { 's' };
        let mut lines: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
        if t.ends_with('\n') {
            lines.pop();
        }
        if r.chance(1, 5) {
            lines.push(String::new());
        }
        let value = if lit { literal(&lines, chomp) } else { fold(&lines, chomp) };
        Scalar { style: if lit { Style::Literal } else { Style::Folded }, value, chomp, src: Src::Lines(lines) }
    };
    match r.below(8) {
        0 => hostile::quoted(r, t, true).unwrap(),
        1 => match hostile::quoted(r, t, false) {
            Some(s) => s,
            None => hostile::quoted(r, t, true).unwrap(),
        },
        2 => block(r, true),
        3 => block(r, false),
        _ => Scalar { style: Style::Plain, value: t.to_string(), chomp: ' ', src: Src::None },
    }
}

fn gen_leaf(r: &mut Rng) -> Scalar {
    let t = match r.below(10) {
        0..=4 => number_text(r),
        5..=7 => word_text(r),
        8 => gen_char(r).to_string(),
        _ => hostile::string(r),
    };
    scalar_of(r, &t)
}

/// Whether the scalar can be written in a text and be the same scalar again.
fn writable(s: &Scalar) -> bool {
    match &s.src {
        // the subset takes every Unicode blank after a colon or a dash for one
        Src::None => plain_ok(&s.value, true) && !s.value.chars().any(|c| c.is_whitespace() && c != ' '),
        Src::Quoted(ps) => {
            // line breaks in quotes take the blanks around them; carriage returns end lines
            let mut ok = true;
            for (i, p) in ps.iter().enumerate() {
                match p {
                    Piece::Text(t) => ok &= !t.contains(['\r', '\n', '\u{feff}']),
                    Piece::Break(_) => {
                        ok &= i > 0 && i + 1 < ps.len();
                        if let (true, Some(Piece::Text(t))) = (i > 0, ps.get(i.wrapping_sub(1))) {
                            ok &= !t.ends_with(|c: char| c.is_whitespace());
                        } else {
                            ok = false;
                        }
                        match ps.get(i + 1) {
                            Some(Piece::Text(t)) => ok &= !t.starts_with(|c: char| c.is_whitespace()),
                            _ => ok = false,
                        }
                    }
                    _ => {}
                }
            }
            ok
        }
        Src::Lines(l) => {
            l.iter().any(|l| !l.trim().is_empty()) && l.iter().all(|l| !l.contains('\r') && !(l.trim().is_empty() && !l.is_empty()) && !l.ends_with(|c: char| c.is_whitespace()))
        }
    }
}

fn leaf_schemas() -> Vec<Schema> {
    let mut v = vec![Schema::Bool, Schema::F32, Schema::F64, Schema::Char, Schema::Str, Schema::Unit, Schema::UnitStruct, Schema::Bytes, Schema::Any];
    for b in [8, 16, 32, 64, 128] {
        v.push(Schema::I(b));
        v.push(Schema::U(b));
    }
    for s in [Schema::Str, Schema::I(64), Schema::Bool, Schema::F64, Schema::Char, Schema::U(8)] {
        v.push(Schema::Opt(Box::new(s)));
    }
    v.push(Schema::Newtype(Box::new(Schema::I(32))));
    v.push(Schema::Seq(Box::new(Schema::Str)));
    v.push(Schema::Opt(Box::new(Schema::Seq(Box::new(Schema::Str)))));
    v.push(Schema::Tuple(vec![Schema::Str]));
    v.push(Schema::Map(Box::new(Schema::Str), Box::new(Schema::Str)));
    v.push(Schema::Struct(0, vec![Schema::Str]));
    v.push(Schema::Loose(0, vec![Schema::Str]));
    v.push(Schema::Enum(0, vec![Variant::Unit, Variant::Unit, Variant::Unit, Variant::Unit, Variant::Unit, Variant::Unit]));
    v.push(Schema::Enum(0, vec![Variant::Newtype(Schema::Str), Variant::Tuple(vec![Schema::Str, Schema::Str]), Variant::Struct(0, vec![Schema::Str]), Variant::Unit]));
    v
}

/// Reads with the types of the language themselves.
fn natives(how: &str, n: &Node, y: &Yaml, ctx: &mut Ctx) -> Res {
    fn one<T: DeserializeOwned>(y: &Yaml, f: impl Fn(T) -> Val) -> Result<Val, String> {
        from_yaml::<T>(y.clone()).map(f).map_err(|e| e.0)
    }
    macro_rules! nat {
        ($($t:ty, $s:expr, $f:expr;)*) => { $( judge(&format!("{} (as {})", how, stringify!($t)), n, &$s, one::<$t>(y, $f), ctx)?; )* };
    }
    nat! {
        i8, Schema::I(8), |v| Val::I(v as i128);
        i16, Schema::I(16), |v| Val::I(v as i128);
        i32, Schema::I(32), |v| Val::I(v as i128);
        i64, Schema::I(64), |v| Val::I(v as i128);
        i128, Schema::I(128), |v| Val::I(v);
        u8, Schema::U(8), |v| Val::U(v as u128);
        u16, Schema::U(16), |v| Val::U(v as u128);
        u32, Schema::U(32), |v| Val::U(v as u128);
        u64, Schema::U(64), |v| Val::U(v as u128);
        u128, Schema::U(128), |v| Val::U(v);
        f32, Schema::F32, Val::F32;
        f64, Schema::F64, Val::F64;
        bool, Schema::Bool, Val::Bool;
        char, Schema::Char, Val::Char;
        String, Schema::Str, Val::Str;
        (), Schema::Unit, |_| Val::Unit;
        Option<String>, Schema::Opt(Box::new(Schema::Str)), |v| v.map_or(Val::None, |v| Val::Some(Box::new(Val::Str(v))));
        Option<i16>, Schema::Opt(Box::new(Schema::I(16))), |v| v.map_or(Val::None, |v| Val::Some(Box::new(Val::I(v as i128))));
        Option<bool>, Schema::Opt(Box::new(Schema::Bool)), |v| v.map_or(Val::None, |v| Val::Some(Box::new(Val::Bool(v))));
        Vec<String>, Schema::Seq(Box::new(Schema::Str)), |v| Val::List(v.into_iter().map(Val::Str).collect());
        (i64, String), Schema::Tuple(vec![Schema::I(64), Schema::Str]), |v| Val::List(vec![Val::I(v.0 as i128), Val::Str(v.1)]);
        [u8; 2], Schema::Tuple(vec![Schema::U(8), Schema::U(8)]), |v| Val::List(v.iter().map(|b| Val::U(*b as u128)).collect());
        Box<i32>, Schema::I(32), |v| Val::I(*v as i128);
        Any, Schema::Any, Val::Any;
    }
    Ok(())
}

fn leaf_case(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let s = gen_leaf(r);
    let n = Node::Scalar(s.clone());
    let y = proj::yaml(&n);
    ctx.say(format!("{:?}", y));
    ctx.distinct(&ctx.input.clone());
    ctx.hit(&format!("style {:?}", s.style));
    let schemas = leaf_schemas();
    for t in &schemas {
        judge("the scalar", &n, t, read(y.clone(), t), ctx)?;
    }
    natives("the scalar", &n, &y, ctx)?;
    if !writable(&s) {
        return Ok(());
    }
    // written in a text, in block or flow style, by itself or through a reference
    let flow = !s.style.block() && r.chance(1, 3);
    let mut items = vec![Item::Entry(Entry { key: "k".into(), alias: None, node: n.clone() })];
    let way = r.below(4);
    match way {
        0 => {}
        1 => items.push(Item::Entry(Entry { key: "o".into(), alias: None, node: plain("x") })),
        _ if !flow => {
            items[0] = Item::Entry(Entry { key: "d".into(), alias: Some("n".into()), node: n.clone() });
            items.push(Item::Entry(Entry { key: "k".into(), alias: None, node: Node::Ref("n".into()) }));
        }
        _ => {}
    }
    let mut map = Node::Map { flow, items };
    if flow {
        map = Node::Seq { flow: false, items: vec![Item::Entry(Entry { key: String::new(), alias: None, node: map })] };
    }
    let doc = Doc { lead: vec![], pre: vec![], root: map, post: vec![] };
    let (text, _) = render(&doc, Layout::random(r), r);
    ctx.say(format!("{:?}\n{}", y, text));
    ctx.hit("written in a text");
    // a struct with just the field k
    #[derive(serde::Deserialize)]
    struct K<T> {
        k: T,
    }
    fn get<T: DeserializeOwned>(text: &str, flow: bool) -> Result<T, String> {
        if flow {
            from_yaml_str::<Vec<K<T>>>(text).map_err(|e| e.0).and_then(|mut v| v.pop().map(|k| k.k).ok_or("empty".to_string()))
        } else {
            from_yaml_str::<K<T>>(text).map(|k| k.k).map_err(|e| e.0)
        }
    }
    let how = "the scalar written in the text";
    judge(how, &n, &Schema::Str, get::<String>(&text, flow).map(Val::Str), ctx)?;
    judge(how, &n, &Schema::I(64), get::<i64>(&text, flow).map(|v| Val::I(v as i128)), ctx)?;
    judge(how, &n, &Schema::U(32), get::<u32>(&text, flow).map(|v| Val::U(v as u128)), ctx)?;
    judge(how, &n, &Schema::I(128), get::<i128>(&text, flow).map(Val::I), ctx)?;
    judge(how, &n, &Schema::F64, get::<f64>(&text, flow).map(Val::F64), ctx)?;
    judge(how, &n, &Schema::Bool, get::<bool>(&text, flow).map(Val::Bool), ctx)?;
    judge(how, &n, &Schema::Char, get::<char>(&text, flow).map(Val::Char), ctx)?;
    judge(how, &n, &Schema::Unit, get::<()>(&text, flow).map(|_| Val::Unit), ctx)?;
    judge(how, &n, &Schema::Any, get::<Any>(&text, flow).map(Val::Any), ctx)?;
    judge(how, &n, &Schema::Opt(Box::new(Schema::Str)), get::<Option<String>>(&text, flow).map(|v| v.map_or(Val::None, |v| Val::Some(Box::new(Val::Str(v))))), ctx)?;
    Ok(())
}

fn each_node(n: &mut Node, f: &mut dyn FnMut(&mut Node)) {
    f(n);
    if let Node::Map { items, .. } | Node::Seq { items, .. } = n {
        for i in items {
            if let Item::Entry(e) = i {
                each_node(&mut e.node, f);
            }
        }
    }
}

/// Changes one place of the tree.
fn disturb(r: &mut Rng, root: &mut Node) {
    let at = r.below(root.count());
    let mut i = 0;
    let rr = &mut r.clone();
    r.next();
    each_node(root, &mut |n| {
        i += 1;
        if i - 1 != at {
            return;
        }
        let leaf = Node::Scalar(gen_leaf(rr));
        let entry = |key: String, node: Node| Item::Entry(Entry { key, alias: None, node });
        match n {
            Node::Scalar(s) => match rr.below(4) {
                0 => *n = leaf,
                1 => *n = Node::Seq { flow: rr.chance(1, 2), items: if rr.chance(1, 2) { vec![] } else { vec![entry(String::new(), n.clone())] } },
                2 => *n = Node::Map { flow: rr.chance(1, 2), items: if rr.chance(1, 2) { vec![] } else { vec![entry(rr.pick(&VARIANTS).to_string(), n.clone())] } },
                _ => *n = Node::Scalar(scalar_of(rr, &s.value.clone())),
            },
            Node::Ref(_) => *n = leaf,
            Node::Map { items, flow } => match rr.below(7) {
                0 => *n = leaf,
                1 if !items.is_empty() => {
                    let k = rr.below(items.len());
                    items.remove(k);
                }
                2 => {
                    let k = rr.below(items.len() + 1);
                    let key = if rr.chance(1, 2) { rr.pick(&NAMES[..32]).to_string() } else { gen_key_text(rr) };
                    items.insert(k, entry(key, leaf));
                }
                3 if !items.is_empty() => {
                    let k = rr.below(items.len());
                    let again = items[k].clone();
                    items.push(again);
                }
                4 => *n = Node::Seq { flow: *flow, items: items.clone() },
                5 if !items.is_empty() => {
                    // order has no meaning for a struct
                    let k = rr.below(items.len());
                    let e = items.remove(k);
                    items.push(e);
                }
                _ => *flow = !*flow,
            },
            Node::Seq { items, flow } => match rr.below(6) {
                0 => *n = leaf,
                1 if !items.is_empty() => {
                    let k = rr.below(items.len());
                    items.remove(k);
                }
                2 => {
                    let k = rr.below(items.len() + 1);
                    items.insert(k, entry(String::new(), leaf));
                }
                3 if !items.is_empty() => {
                    let k = rr.below(items.len());
                    let again = items[k].clone();
                    items.push(again);
                }
                4 if items.len() == 1 => {
                    if let Item::Entry(e) = items.remove(0) {
                        *n = e.node;
                    }
                }
                _ => *flow = !*flow,
            },
        }
    });
}

fn shape_case(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let depth = r.below(1 + ctx.size.min(4));
    let s = gen_schema(r, depth);
    let v = gen_val(r, &s, false);
    let mut n = proj::node(&write(&s, &v).map_err(|e| format!("serializing fails: {}", e))?);
    let changes = *r.pick(&[0, 1, 1, 1, 2, 3]);
    for _ in 0..changes {
        disturb(r, &mut n);
    }
    let t = if r.chance(1, 6) { gen_schema(r, depth) } else { s.clone() };
    // comments are no values
    if r.chance(1, 4) {
        each_node(&mut n, &mut |n| {
            if let Node::Map { flow: false, items } | Node::Seq { flow: false, items } = n {
                let at = r.below(items.len() + 1);
                items.insert(at, if r.chance(1, 2) { Item::Comment(" c".into()) } else { Item::Inline(" c".into()) });
            }
        });
    }
    let y = proj::yaml(&n);
    ctx.say(format!("schema {:?}\ntree {:?}", t, y));
    ctx.distinct(&ctx.input.clone());
    ctx.hit(&format!("changes {}", changes));
    judge("the tree", &n, &t, read(y.clone(), &t), ctx)?;
    judge("the tree", &n, &Schema::Any, read(y, &Schema::Any), ctx)
}

fn c21(r: &mut Rng, ctx: &mut Ctx) -> Res {
    if r.chance(1, 2) {
        leaf_case(r, ctx)
    } else {
        shape_case(r, ctx)
    }
}

// ---------------------------------------------------------------------------------------------
// C22

/// Puts in every reference's place the value that its name was last given before it.
struct Resolver {
    latest: HashMap<String, Node>,
    budget: usize,
}
impl Resolver {
    fn resolve(&mut self, n: &Node) -> Option<Node> {
        self.budget = self.budget.checked_sub(1)?;
        Some(match n {
            Node::Ref(a) => match self.latest.get(a) {
                Some(v) => {
                    self.budget = self.budget.checked_sub(v.count())?;
                    v.clone()
                }
                None => n.clone(),
            },
            Node::Scalar(_) => n.clone(),
            Node::Map { flow, items } => Node::Map { flow: *flow, items: self.items(items)? },
            Node::Seq { flow, items } => Node::Seq { flow: *flow, items: self.items(items)? },
        })
    }
    fn items(&mut self, items: &[Item]) -> Option<Vec<Item>> {
        let mut v = Vec::new();
        for i in items {
            v.push(match i {
                Item::Entry(e) => {
                    let node = self.resolve(&e.node)?;
                    if let Some(a) = &e.alias {
                        self.latest.insert(a.clone(), node.clone());
                    }
                    Item::Entry(Entry { key: e.key.clone(), alias: None, node })
                }
                other => other.clone(),
            });
        }
        Some(v)
    }
}

fn resolved(n: &Node) -> Option<Node> {
    Resolver { latest: HashMap::new(), budget: 3000 }.resolve(n)
}

fn name_of(r: &mut Rng) -> String {
    r.pick(&["a", "b", "n0", "n1", "n2", "x", "é", "_1", "9"]).to_string()
}

/// Names and references everywhere.
fn sow(r: &mut Rng, n: &mut Node, refs: usize, names: usize, flow: bool, odd: bool) {
    let inner_flow = flow || matches!(n, Node::Map { flow: true, .. } | Node::Seq { flow: true, .. });
    if let Node::Map { items, .. } | Node::Seq { items, .. } = n {
        for i in items {
            if let Item::Entry(e) = i {
                if r.chance(refs, 100) && !matches!(&e.node, Node::Map { .. } | Node::Seq { .. }) {
                    e.node = Node::Ref(name_of(r));
                }
                if !inner_flow {
                    e.alias = if r.chance(names, 100) && (odd || !matches!(e.node, Node::Ref(_))) { Some(name_of(r)) } else { None };
                }
                sow(r, &mut e.node, refs, names, inner_flow, odd);
            }
        }
    }
}

fn count_refs(n: &Node) -> (usize, usize) {
    let mut t = (0, 0);
    each_node(&mut n.clone(), &mut |n| match n {
        Node::Ref(_) => t.0 += 1,
        Node::Map { .. } | Node::Seq { .. } => t.1 += n.entries().iter().filter(|e| e.alias.is_some()).count(),
        _ => {}
    });
    t
}

fn defined(n: &Node) -> bool {
    let mut ok = true;
    each_node(&mut n.clone(), &mut |n| ok &= !matches!(n, Node::Ref(_)));
    ok
}

fn wild_refs(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::random(r, ctx.size);
    cfg.max_depth = 1 + r.below(4);
    cfg.block = r.chance(1, 4);
    cfg.comments = *r.pick(&[0, 0, 10]);
    let mut d = gen_doc(r, &mut cfg);
    let (refs, names) = (*r.pick(&[10, 30, 60]), *r.pick(&[30, 60, 90]));
    let odd = r.chance(1, 3);
    sow(r, &mut d.root, refs, names, false, odd);
    if r.chance(1, 2) {
        // most references have something to refer to
        let mut rr = r.clone();
        for _ in 0..6 {
            let mut known = resolved(&d.root);
            let bad = known.as_mut().map_or(false, |n| !defined(n));
            if !bad {
                break;
            }
            let mut seen: Vec<String> = Vec::new();
            fn fix(r: &mut Rng, n: &mut Node, seen: &mut Vec<String>) {
                if let Node::Ref(a) = n {
                    if !seen.contains(a) {
                        *n = if seen.is_empty() { plain("none") } else { Node::Ref(r.pick(seen).clone()) };
                    }
                }
                if let Node::Map { items, .. } | Node::Seq { items, .. } = n {
                    for i in items {
                        if let Item::Entry(e) = i {
                            fix(r, &mut e.node, seen);
                            if let Some(a) = &e.alias {
                                seen.push(a.clone());
                            }
                        }
                    }
                }
            }
            fix(&mut rr, &mut d.root, &mut seen);
        }
    }
    let (nr, nd) = count_refs(&d.root);
    ctx.add("references", nr as u64);
    ctx.add("definitions", nd as u64);
    let want = match resolved(&d.root) {
        Some(n) => n,
        None => {
            ctx.hit("too big when resolved");
            return Ok(());
        }
    };
    let y = proj::yaml(&d.root);
    let (text, _) = render(&d, Layout::random(r), r);
    ctx.say(text.clone());
    if nr > 0 && nd > 0 {
        ctx.distinct(&text);
    }
    ctx.hit(if defined(&want) { "all references defined" } else { "an undefined reference" });
    judge("the tree", &want, &Schema::Any, read(y.clone(), &Schema::Any), ctx)?;
    let parsed = parse_ok(&text)?;
    let py = value_of(parsed).ok_or("no value")?;
    judge("the parsed text", &want, &Schema::Any, from_yaml::<Any>(py.clone()).map(Val::Any).map_err(|e| e.0), ctx)?;
    judge("the text", &want, &Schema::Any, from_yaml_str::<Any>(&text).map(Val::Any).map_err(|e| e.0), ctx)?;
    // single entries of the root, the rest being ignored
    if let Node::Map { .. } = &want {
        let es = want.entries();
        for e in &es {
            if let Some(i) = NAMES.iter().position(|n| *n == e.key) {
                let t = Schema::Loose(i, vec![Schema::Any]);
                let others_fine = defined(&e.node) <= es.iter().all(|o| defined(&o.node));
                if es.iter().filter(|o| o.key == e.key).count() == 1 && i + 1 < NAMES.len() && others_fine {
                    ctx.hit("one entry, the rest ignored");
                    judge("one entry of the text", &want, &t, read(py.clone(), &t), ctx)?;
                }
            }
        }
    }
    Ok(())
}

fn value_of(d: Document) -> Option<Yaml> {
    d.items.into_iter().find_map(|i| if let DocumentData::Yaml(y) = i { Some(y) } else { None })
}

/// A serialized value with parts of it given names elsewhere and referred to.
fn hoisted(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let depth = 1 + r.below(1 + ctx.size.min(4));
    let s = gen_schema(r, depth);
    let v = gen_val(r, &s, true);
    let mut n = proj::node(&write(&s, &v).map_err(|e| format!("serializing fails: {}", e))?);
    // flow collections cannot hold names: definitions inside a hoisted one are not wanted either
    let total = n.count();
    let k = 1 + r.below(4);
    let mut marks: Vec<usize> = (0..k).map(|_| r.below(total)).collect();
    marks.sort();
    marks.dedup();
    let mut defs: Vec<(String, Node)> = Vec::new();
    fn cut(n: &mut Node, i: &mut usize, marks: &[usize], r: &mut Rng, defs: &mut Vec<(String, Node)>) {
        let me = *i;
        *i += 1;
        if let Node::Map { items, .. } | Node::Seq { items, .. } = n {
            for it in items {
                if let Item::Entry(e) = it {
                    cut(&mut e.node, i, marks, r, defs);
                }
            }
        }
        if marks.contains(&me) {
            // inner parts come first in the list, so their names are known to the outer ones
            let name = if r.chance(1, 3) { name_of(r) } else { format!("m{}", defs.len()) };
            if defs.iter().any(|d| d.0 == name) {
                return;
            }
            let node = std::mem::replace(n, Node::Ref(name.clone()));
            defs.push((name, node));
        }
    }
    cut(&mut n, &mut 0, &marks, r, &mut defs);
    // the root: decoys of the same names, the definitions, the value, more decoys; the struct reads them in its own order
    let mut items: Vec<Item> = Vec::new();
    let mut c = 0;
    let mut put = |items: &mut Vec<Item>, alias: Option<String>, node: Node| {
        c += 1;
        items.push(Item::Entry(Entry { key: format!("def{}", c), alias, node }));
    };
    for (name, _) in &defs {
        if r.chance(1, 3) {
            put(&mut items, Some(name.clone()), plain("decoy"));
        }
    }
    for (name, node) in &defs {
        if r.chance(1, 4) {
            // inside another value
            let holder = Node::Map { flow: false, items: vec![Item::Entry(Entry { key: "in".into(), alias: Some(name.clone()), node: node.clone() })] };
            put(&mut items, None, holder);
        } else {
            put(&mut items, Some(name.clone()), node.clone());
        }
        if r.chance(1, 5) {
            // the name is given again, to a reference to a reference to ...
            ctx.hit("a chain of references");
            let n = if r.chance(1, 6) { long(r, 300) } else { r.below(8) };
            for i in 0..n {
                let before = if i == 0 { name.clone() } else { format!("via{}", i - 1) };
                put(&mut items, Some(format!("via{}", i)), Node::Ref(before));
            }
            let last = if n == 0 { name.clone() } else { format!("via{}", n - 1) };
            put(&mut items, Some(name.clone()), Node::Ref(last));
        }
    }
    // the field z is read first or last as the struct says; v comes after it or before
    let first = r.chance(1, 2);
    let at = NAMES.iter().position(|n| *n == "u").unwrap();
    let twice = r.chance(1, 2);
    let value = |key: &str| Item::Entry(Entry { key: key.into(), alias: None, node: n.clone() });
    let wrapped = |key: &str| {
        // the same value with another value of the names before it
        let mut inner: Vec<Item> = Vec::new();
        for (name, node) in &defs {
            inner.push(Item::Entry(Entry { key: format!("again{}", inner.len()), alias: Some(name.clone()), node: node.clone() }));
        }
        inner.push(value("u"));
        Item::Entry(Entry { key: key.into(), alias: None, node: Node::Map { flow: false, items: inner } })
    };
    let nested = Schema::Loose(at, vec![s.clone()]);
    let (schema, want) = if twice {
        if first {
            items.push(value("u"));
            for (name, _) in &defs {
                put(&mut items, Some(name.clone()), plain("other"));
            }
            items.push(wrapped("v"));
            (Schema::Loose(at, vec![s.clone(), nested]), Val::List(vec![v.clone(), Val::List(vec![v.clone()])]))
        } else {
            items.push(value("v"));
            for (name, _) in &defs {
                put(&mut items, Some(name.clone()), Node::Seq { flow: true, items: vec![] });
            }
            items.push(wrapped("u"));
            (Schema::Loose(at, vec![nested, s.clone()]), Val::List(vec![Val::List(vec![v.clone()]), v.clone()]))
        }
    } else {
        items.push(value("u"));
        (Schema::Loose(at, vec![s.clone()]), Val::List(vec![v.clone()]))
    };
    for (name, _) in &defs {
        if r.chance(1, 2) {
            put(&mut items, Some(name.clone()), plain("late"));
        }
    }
    let root = Node::Map { flow: false, items };
    let y = proj::yaml(&root);
    ctx.say(format!("schema {:?}\ntree {:?}", schema, root.dump(FULL)));
    ctx.distinct(&ctx.input.clone());
    ctx.add("hoisted parts", defs.len() as u64);
    match read(y, &schema) {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(diff("the value with parts behind references reads wrongly", &format!("{:?}", want), &format!("{:?}", g))),
        Err(e) => Err(format!("the value with parts behind references is not read: {}", e)),
    }
}

fn c22(r: &mut Rng, ctx: &mut Ctx) -> Res {
    if r.chance(3, 5) {
        wild_refs(r, ctx)
    } else {
        hoisted(r, ctx)
    }
}

// ---------------------------------------------------------------------------------------------
// C23

fn visit_model(n: &Node, out: &mut Vec<String>) {
    match n {
        Node::Map { flow: false, items } | Node::Seq { flow: false, items } => {
            for i in items {
                if let Item::Entry(e) = i {
                    out.push(show(&e.alias, &e.node));
                    visit_model(&e.node, out);
                }
            }
        }
        _ => {
            // block collections inside flow ones exist only in trees made by hand
            for e in n.entries() {
                visit_model(&e.node, out);
            }
        }
    }
}
fn show(alias: &Option<String>, n: &Node) -> String {
    format!("&{:?} {}", alias, n.dump(FULL))
}

/// What the substitution makes of the n-th value it sees.
fn subst(count: usize, plan: &[usize], n: Node) -> Node {
    match plan[count % plan.len()] {
        0 => plain(&format!("v{}", count)),
        1 => Node::Map { flow: false, items: vec![Item::Entry(Entry { key: format!("w{}", count), alias: Some(format!("s{}", count)), node: n })] },
        2 => Node::Seq { flow: true, items: vec![Item::Entry(Entry { key: String::new(), alias: None, node: n })] },
        3 => Node::Ref(format!("r{}", count)),
        _ => n,
    }
}

fn map_model(n: Node, seen: &mut Vec<String>, plan: &[usize]) -> Node {
    let inner = |items: Vec<Item>, seen: &mut Vec<String>| -> Vec<Item> {
        items
            .into_iter()
            .map(|i| match i {
                Item::Entry(e) => Item::Entry(Entry { node: map_model(e.node, seen, plan), ..e }),
                c => c,
            })
            .collect()
    };
    let n = match n {
        Node::Map { flow, items } => Node::Map { flow, items: inner(items, seen) },
        Node::Seq { flow, items } => Node::Seq { flow, items: inner(items, seen) },
        leaf => leaf,
    };
    let c = seen.len();
    seen.push(n.dump(FULL));
    subst(c, plan, n)
}

fn lib_map(y: Yaml, seen: &mut Vec<String>, plan: &[usize]) -> Yaml {
    let c = seen.len();
    let n = proj::node(&y);
    seen.push(n.dump(FULL));
    match plan[c % plan.len()] {
        4 => y,
        _ => proj::yaml(&subst(c, plan, n)),
    }
}

/// A block collection inside a flow one keeps nothing of its aliases and comments in the model's trees; here it does.
fn c23(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::random(r, ctx.size);
    cfg.aliases = *r.pick(&[10, 40]);
    let mut d = gen_doc(r, &mut cfg);
    if r.chance(1, 4) {
        // by hand: flow and block collections in any mix
        each_node(&mut d.root, &mut |n| {
            if let Node::Map { flow, items } | Node::Seq { flow, items } = n {
                if r.chance(1, 4) {
                    if *flow {
                        *flow = false;
                    } else if items.iter().all(|i| matches!(i, Item::Entry(e) if e.alias.is_none())) {
                        *flow = true;
                    }
                }
            }
        });
        ctx.hit("tree made by hand");
    }
    let document = if r.chance(1, 2) {
        proj::document(&d)
    } else {
        let (text, _) = render(&d, Layout::random(r), r);
        match parse_yaml_file(&text) {
            Ok(p) => p,
            Err(_) => proj::document(&d),
        }
    };
    let model = proj::doc(&document)?;
    let full = model.dump(FULL);
    ctx.say(full.clone());
    if model.root.count() > 2 {
        ctx.distinct(&full);
    }
    ctx.max("nodes", model.root.count() as u64);
    let y = value_of(document).ok_or("no value")?;

    // visiting, from the document down to each kind of holder
    let trace = |f: &dyn Fn(&mut dyn FnMut(&AliasedYaml))| -> Vec<String> {
        let mut v = Vec::new();
        f(&mut |a: &AliasedYaml| v.push(show(&a.alias, &proj::node(&a.value))));
        v
    };
    let mut want = Vec::new();
    visit_model(&model.root, &mut want);
    ctx.add("values visited", want.len() as u64);
    let same = |what: &str, want: &[String], got: Vec<String>| -> Res {
        if want != got.as_slice() {
            return Err(diff(&format!("visiting {} calls for other values", what), &format!("{:#?}", want), &format!("{:#?}", got)));
        }
        Ok(())
    };
    same("the value", &want, trace(&|f| y.visit_yaml(&mut |a| f(a))))?;
    let pair = vec![y.clone(), y.clone()];
    let twice: Vec<String> = want.iter().chain(&want).cloned().collect();
    same("a list of values", &twice, trace(&|f| pair.visit_yaml(&mut |a| f(a))))?;
    let es = model.root.entries();
    match &y {
        Yaml::Hash(v) => {
            same("the mapping's items", &want, trace(&|f| v.visit_yaml(&mut |a| f(a))))?;
            let only: Vec<_> = v.iter().filter(|d| matches!(d, HashData::Element(_))).collect();
            for (e, d) in es.iter().zip(only) {
                let mut w = vec![show(&e.alias, &e.node)];
                visit_model(&e.node, &mut w);
                same("an entry", &w, trace(&|f| d.visit_yaml(&mut |a| f(a))))?;
                if let HashData::Element(h) = d {
                    same("an element", &w, trace(&|f| h.visit_yaml(&mut |a| f(a))))?;
                    same("an entry's value", &w, trace(&|f| h.value.visit_yaml(&mut |a| f(a))))?;
                }
            }
        }
        Yaml::Array(v) => {
            same("the sequence's items", &want, trace(&|f| v.visit_yaml(&mut |a| f(a))))?;
            let only: Vec<_> = v.iter().filter(|d| matches!(d, ArrayData::Element(_))).collect();
            for (e, d) in es.iter().zip(only) {
                let mut w = vec![show(&e.alias, &e.node)];
                visit_model(&e.node, &mut w);
                same("an element", &w, trace(&|f| d.visit_yaml(&mut |a| f(a))))?;
            }
        }
        _ => {}
    }

    // mapping: identity, then substitutions by the order of the calls
    let mut plans: Vec<Vec<usize>> = vec![vec![4]];
    for _ in 0..2 {
        let n = 1 + r.below(7);
        plans.push((0..n).map(|_| if r.chance(1, 2) { 4 } else { r.below(5) }).collect());
    }
    for plan in &plans {
        let mut seen_m = Vec::new();
        let root_m = map_model(model.root.clone(), &mut seen_m, plan);
        ctx.add("values mapped", seen_m.len() as u64);
        let mut seen = Vec::new();
        let got = y.clone().map_yaml(&mut |y| lib_map(y, &mut seen, plan));
        if seen != seen_m || proj::node(&got).dump(FULL) != root_m.dump(FULL) {
            return Err(diff("mapping the value makes another tree or calls for other values", &format!("{}\n{:#?}", root_m.dump(FULL), seen_m), &format!("{}\n{:#?}", proj::node(&got).dump(FULL), seen)));
        }
        if plan == &[4] && got != y {
            return Err("mapping with the identity changes the value".to_string());
        }
        // the holders inside
        let holder = |what: &str, es: &[&Entry], f: &mut dyn FnMut(&mut Vec<String>) -> Vec<(String, Option<String>, Node)>| -> Res {
            let mut sm = Vec::new();
            let want: Vec<_> = es.iter().map(|e| (e.key.clone(), e.alias.clone(), map_model(e.node.clone(), &mut sm, plan).dump(FULL))).collect();
            let mut sl = Vec::new();
            let got: Vec<_> = f(&mut sl).into_iter().map(|(k, a, n)| (k, a, n.dump(FULL))).collect();
            if sm != sl || want != got {
                return Err(diff(&format!("mapping {} makes something else", what), &format!("{:?}\n{:?}", want, sm), &format!("{:?}\n{:?}", got, sl)));
            }
            Ok(())
        };
        match &y {
            Yaml::Hash(v) => {
                holder("the mapping's items", &es, &mut |seen| {
                    let out = v.clone().map_yaml(&mut |y| lib_map(y, seen, plan));
                    proj::node(&Yaml::Hash(out)).entries().into_iter().map(|e| (e.key.clone(), e.alias.clone(), e.node.clone())).collect()
                })?;
                for (e, d) in es.iter().zip(v.iter().filter(|d| matches!(d, HashData::Element(_)))) {
                    holder("an entry", &[e], &mut |seen| {
                        let out = d.clone().map_yaml(&mut |y| lib_map(y, seen, plan));
                        proj::node(&Yaml::Hash(vec![out])).entries().into_iter().map(|e| (e.key.clone(), e.alias.clone(), e.node.clone())).collect()
                    })?;
                    if let HashData::Element(h) = d {
                        holder("an element", &[e], &mut |seen| {
                            let out = h.clone().map_yaml(&mut |y| lib_map(y, seen, plan));
                            vec![(out.key, out.value.alias, proj::node(&out.value.value))]
                        })?;
                        holder("an entry's value", &[e], &mut |seen| {
                            let out = h.value.clone().map_yaml(&mut |y| lib_map(y, seen, plan));
                            vec![(h.key.clone(), out.alias, proj::node(&out.value))]
                        })?;
                    }
                }
            }
            Yaml::Array(v) => {
                for (e, d) in es.iter().zip(v.iter().filter(|d| matches!(d, ArrayData::Element(_)))) {
                    holder("an element", &[e], &mut |seen| {
                        let out = d.clone().map_yaml(&mut |y| lib_map(y, seen, plan));
                        proj::node(&Yaml::Array(vec![out])).entries().into_iter().map(|e| (e.key.clone(), e.alias.clone(), e.node.clone())).collect()
                    })?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn known(_: &str, _: &mut Ctx) -> Res {
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C21",
            rule: "Scalars in every style with numbers around every bound, boolean and null words in every casing, characters and hard strings, in a tree, in a text, and behind a reference, each read as about forty types; and serialized values of random types, disturbed in up to three places and read with their own or another type. Non-trivial: all.",
            assumptions: &["a float is what Rust's own float syntax says", "minus zero as an unsigned integer, and a bare name for an enum variant whose content may be null, are left open"],
            quick: 500_000,
            thorough: 4_000_000,
            case: c21,
            fixed: no_fixed,
            known,
        },
        Check {
            id: "C22",
            rule: "Random documents with names and references at random places (nested, redefined, undefined, self-referring), as a tree and as a text, read whole and entry by entry; and serialized values with parts moved behind references among decoys of the same name, read with their type in another field order. Non-trivial: at least one definition and one reference.",
            assumptions: &["documents that grow beyond 3000 nodes when resolved are left out", "an undefined reference in an ignored entry is not judged"],
            quick: 400_000,
            thorough: 4_000_000,
            case: c22,
            fixed: no_fixed,
            known,
        },
        Check {
            id: "C23",
            rule: "Random trees, parsed and made by hand; the visitor's calls recorded and compared with a pre-order walk of the model, the mapping's calls and result with a post-order walk that substitutes by the number of the call, at every kind of holder. Non-trivial: more than two nodes.",
            assumptions: &["aliases exist only on entries of block collections"],
            quick: 70_000,
            thorough: 1_500_000,
            case: c23,
            fixed: no_fixed,
            known,
        },
    ]
}
