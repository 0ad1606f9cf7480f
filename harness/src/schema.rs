//! Serde types made at run time: a schema, values of it, and how serde sees them.
use crate::hostile;
use crate::model::long;
use crate::rng::Rng;
use crate::types::Any;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use std::fmt;

#[derive(Clone, Debug)]
pub enum Schema {
    Bool,
    I(u8),
    U(u8),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Schema>),
    Unit,
    UnitStruct,
    Newtype(Box<Schema>),
    Seq(Box<Schema>),
    Tuple(Vec<Schema>),
    TupleStruct(Vec<Schema>),
    Map(Box<Schema>, Box<Schema>),
    /// Offset into the names, and the fields.
    Struct(usize, Vec<Schema>),
    Enum(usize, Vec<Variant>),
    /// A struct that ignores fields it does not know (read only).
    Loose(usize, Vec<Schema>),
    /// Whatever is there (read only).
    Any,
}
#[derive(Clone, Debug)]
pub enum Variant {
    Unit,
    Newtype(Schema),
    Tuple(Vec<Schema>),
    Struct(usize, Vec<Schema>),
}

pub static NAMES: [&str; 132] = [
    "a", "b", "name", "type", "x1", "value", "true", "null", "no", "on", "n", "y", "False", "id", "kind", "point_s", "_p", "some", "Null", "NULL", "Yes", "fn_", "e1", "inf", "nan", "z", "é", "ok", "Long", "t",
    "u", "v",
    "f0","f1","f2","f3","f4","f5","f6","f7","f8","f9","f10","f11","f12","f13","f14","f15","f16","f17","f18","f19","f20","f21","f22","f23","f24","f25","f26","f27","f28","f29","f30","f31","f32","f33","f34","f35","f36","f37","f38","f39","f40","f41","f42","f43","f44","f45","f46","f47","f48","f49","f50","f51","f52","f53","f54","f55","f56","f57","f58","f59","field_0","field_1","field_2","field_3","field_4","field_5","field_6","field_7","field_8","field_9","field_10","field_11","field_12","field_13","field_14","field_15","field_16","field_17","field_18","field_19","field_20","field_21","field_22","field_23","field_24","field_25","field_26","field_27","field_28","field_29","a_rather_long_name_of_a_field_0","a_rather_long_name_of_a_field_1","a_rather_long_name_of_a_field_2","a_rather_long_name_of_a_field_3","a_rather_long_name_of_a_field_4","a_rather_long_name_of_a_field_5","a_rather_long_name_of_a_field_6","a_rather_long_name_of_a_field_7","a_rather_long_name_of_a_field_8","a_rather_long_name_of_a_field_9",
];
pub static VARIANTS: [&str; 24] = [
    "A", "B", "True", "False", "Null", "null", "Some", "None", "true", "yes", "No", "C", "Dd", "NaN", "inf", "E1", "x", "Y", "on", "Off", "NULL", "ok", "Err", "_v",
];
pub fn fields(at: usize, n: usize) -> &'static [&'static str] {
    &NAMES[at..at + n]
}

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool),
    I(i128),
    U(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Unit,
    /// Sequences, tuples, structs, newtypes.
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Variant(usize, Vec<Val>),
    Any(Any),
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::I(a), Val::I(b)) => a == b,
            (Val::U(a), Val::U(b)) => a == b,
            (Val::F32(a), Val::F32(b)) => a.is_nan() && b.is_nan() || a.to_bits() == b.to_bits(),
            (Val::F64(a), Val::F64(b)) => a.is_nan() && b.is_nan() || a.to_bits() == b.to_bits(),
            (Val::Char(a), Val::Char(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Bytes(a), Val::Bytes(b)) => a == b,
            (Val::None, Val::None) | (Val::Unit, Val::Unit) => true,
            (Val::Some(a), Val::Some(b)) => a == b,
            (Val::List(a), Val::List(b)) => a == b,
            (Val::Map(a), Val::Map(b)) => a == b,
            (Val::Variant(i, a), Val::Variant(j, b)) => i == j && a == b,
            (Val::Any(a), Val::Any(b)) => a.same(b),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// Whether a null could be a value of this schema, so that an option of it would be ambiguous.
fn nullable(s: &Schema) -> bool {
    match s {
        Schema::Opt(_) | Schema::Unit | Schema::UnitStruct => true,
        Schema::Newtype(s) => nullable(s),
        _ => false,
    }
}

/// Where the names of `n` fields start.
fn names_at(r: &mut Rng, n: usize) -> usize {
    let most = if n < 30 && !r.chance(1, 4) { 32 } else { NAMES.len() };
    r.below(most - n)
}

/// How many elements of such a kind to make: sometimes many, if they are small.
fn count(r: &mut Rng, s: &Schema) -> usize {
    fn small(s: &Schema) -> bool {
        match s {
            Schema::Seq(_) | Schema::Map(..) | Schema::Enum(..) | Schema::Str | Schema::Any => false,
            Schema::Opt(s) | Schema::Newtype(s) => small(s),
            Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(_, v) | Schema::Loose(_, v) => v.len() < 4 && v.iter().all(small),
            _ => true,
        }
    }
    if r.chance(1, 40) {
        long(r, if small(s) { 600 } else { 80 })
    } else {
        r.below(5)
    }
}

pub fn gen_schema(r: &mut Rng, depth: usize) -> Schema {
    let leaf = depth == 0 || r.chance(1, 3);
    if leaf {
        return match r.below(12) {
            0 => Schema::Bool,
            1 => Schema::I(*r.pick(&[8, 16, 32, 64, 64, 128])),
            2 => Schema::U(*r.pick(&[8, 16, 32, 64, 64, 128])),
            3 => Schema::F32,
            4 => Schema::F64,
            5 => Schema::Char,
            6 => Schema::Unit,
            7 => Schema::Bytes,
            8 => Schema::UnitStruct,
            _ => Schema::Str,
        };
    }
    let list = |r: &mut Rng| -> Vec<Schema> {
        if r.chance(1, 40) {
            let n = long(r, 100);
            return (0..n).map(|_| gen_schema(r, 0)).collect();
        }
        let n = 1 + r.below(4);
        (0..n).map(|_| gen_schema(r, depth - 1)).collect()
    };
    match r.below(12) {
        0 => {
            let s = gen_schema(r, depth - 1);
            if nullable(&s) {
                s
            } else {
                Schema::Opt(Box::new(s))
            }
        }
        1 => Schema::Newtype(Box::new(gen_schema(r, depth - 1))),
        2 | 3 => Schema::Seq(Box::new(gen_schema(r, depth - 1))),
        4 => Schema::Tuple(list(r)),
        5 => {
            let mut l = list(r);
            l.push(Schema::Str);
            Schema::TupleStruct(l)
        }
        6 => {
            let k = match r.below(8) {
                0 => Schema::I(*r.pick(&[16, 64, 128])),
                1 => Schema::U(*r.pick(&[16, 32, 64, 128])),
                2 => Schema::Bool,
                3 => Schema::Char,
                5 if r.chance(1, 2) => Schema::Newtype(Box::new(Schema::Str)),
                6 if r.chance(1, 3) => Schema::Opt(Box::new(if r.chance(1, 3) { Schema::Bool } else { Schema::U(64) })),
                4 => {
                    let n = 2 + r.below(6);
                    Schema::Enum(r.below(VARIANTS.len() - n), vec![Variant::Unit; n])
                }
                _ => Schema::Str,
            };
            Schema::Map(Box::new(k), Box::new(gen_schema(r, depth - 1)))
        }
        7 | 8 => {
            let l = list(r);
            let at = names_at(r, l.len());
            Schema::Struct(at, l)
        }
        _ => {
            let n = 1 + if r.chance(1, 30) { r.below(VARIANTS.len() - 1) } else { r.below(4) };
            let at = r.below(VARIANTS.len() - n + 1);
            let v = (0..n)
                .map(|_| match r.below(5) {
                    0 => Variant::Unit,
                    1 | 2 => Variant::Newtype(gen_schema(r, depth - 1)),
                    3 => {
                        let mut l = list(r);
                        l.push(Schema::Str);
                        Variant::Tuple(l)
                    }
                    _ => {
                        let l = list(r);
                        Variant::Struct(names_at(r, l.len()), l)
                    }
                })
                .collect();
            Schema::Enum(at, v)
        }
    }
}

pub fn gen_int(r: &mut Rng, bits: u8) -> i128 {
    let max = if bits == 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
    let min = -max - 1;
    match r.below(5) {
        0 => *r.pick(&[0, 1, -1, 9, 10, -10, 100]),
        1 => max - r.below(3) as i128,
        2 => min + r.below(3) as i128,
        3 => {
            let x = ((r.next() as i128) << 64) ^ r.next() as i128;
            let s = x >> (128 - bits as u32);
            s >> r.below(bits as usize)
        }
        _ => (r.below(200) as i128 - 100).clamp(min, max),
    }
}
pub fn gen_uint(r: &mut Rng, bits: u8) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match r.below(4) {
        0 => *r.pick(&[0, 1, 9, 10, 100]),
        1 => max - r.below(3) as u128,
        2 => {
            let x = ((r.next() as u128) << 64) ^ r.next() as u128;
            let s = x >> (128 - bits as u32);
            s >> r.below(bits as usize)
        }
        _ => (r.below(200) as u128).min(max),
    }
}
pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e300, 1e-300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e15, 1e16, 1e17, 123456789.125]),
        1 => f64::from_bits(r.next()),
        2 => r.below(1000) as f64 / 8.0 - 50.0,
        _ => (r.below(2_000_000) as f64 - 1e6) / 1000.0,
    }
}
pub fn gen_char(r: &mut Rng) -> char {
    match r.below(4) {
        0 => *r.pick(&['a', 'é', '日', '😀', '\n', '\r', '\t', ' ', '\0', '"', '\'', '\\', '#', '-', ':', '~', '*', '&', '|', '>', '[', '{', ',', '5', '\u{a0}', '\u{feff}', '\u{2028}', '!', '%']),
        1 => (32 + r.below(95)) as u8 as char,
        _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
    }
}

/// Keys the subset can write.
pub fn gen_key_text(r: &mut Rng) -> String {
    let first = "abcxyzABCXYZ0123456789_éß日Ω٣½";
    let rest = "abcxyzABCXYZ0123456789_--  éß日Ω٣½";
    if r.chance(1, 4) {
        return r.pick(&["true", "null", "no", "1", "0", "-1x", "007", "1e5", "inf", "nan", "NULL", "a b", "a-b", "on", "True", "long key name here"]).trim_start_matches('-').to_string();
    }
    let pick = |r: &mut Rng, s: &str| {
        let cs: Vec<char> = s.chars().collect();
        *r.pick(&cs)
    };
    let n = if r.chance(1, 40) { long(r, 300) } else { r.below(8) };
    let mut s = pick(r, first).to_string();
    for _ in 0..n {
        s.push(pick(r, rest));
    }
    s.trim_end().to_string()
}

pub fn gen_val(r: &mut Rng, s: &Schema, writable: bool) -> Val {
    let all = |r: &mut Rng, v: &Vec<Schema>| -> Vec<Val> { v.iter().map(|s| gen_val(r, s, writable)).collect() };
    match s {
        Schema::Bool => Val::Bool(r.chance(1, 2)),
        Schema::I(b) => Val::I(gen_int(r, *b)),
        Schema::U(b) => Val::U(gen_uint(r, *b)),
        Schema::F32 => Val::F32(match r.below(3) {
            0 => *r.pick(&[0.0, -0.0, 1.0, 0.1, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NAN, 16777216.0, 3.4e38, 7.038531e-26]),
            1 => f32::from_bits(r.next() as u32),
            _ => r.below(1000) as f32 / 7.0,
        }),
        Schema::F64 => Val::F64(gen_f64(r)),
        Schema::Char => Val::Char(gen_char(r)),
        Schema::Str => Val::Str(hostile::string(r)),
        Schema::Bytes => {
            let n = if r.chance(1, 40) { long(r, 600) } else { r.below(5) };
            Val::Bytes((0..n).map(|_| r.below(256) as u8).collect())
        }
        Schema::Opt(s) => {
            if r.chance(1, 3) {
                Val::None
            } else {
                Val::Some(Box::new(gen_val(r, s, writable)))
            }
        }
        Schema::Unit | Schema::UnitStruct => Val::Unit,
        Schema::Newtype(s) => Val::List(vec![gen_val(r, s, writable)]),
        Schema::Seq(s) => {
            let n = count(r, s);
            Val::List((0..n).map(|_| gen_val(r, s, writable)).collect())
        }
        Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(_, v) | Schema::Loose(_, v) => Val::List(all(r, v)),
        Schema::Any => Val::Unit,
        Schema::Map(k, v) => {
            let n = count(r, v);
            let mut m: Vec<(Val, Val)> = Vec::new();
            for _ in 0..n {
                let key = match **k {
                    Schema::Str if writable => Val::Str(gen_key_text(r)),
                    Schema::Newtype(_) if writable => Val::List(vec![Val::Str(gen_key_text(r))]),
                    // a key without a value cannot be written
                    Schema::Opt(ref k) if writable => Val::Some(Box::new(gen_val(r, k, true))),
                    Schema::I(_) if writable => Val::I(r.below(1000) as i128),
                    Schema::Char if writable => Val::Char(*r.pick(&['a', 'Z', '0', '_', 'é', '日', 'n', 'y'])),
                    _ => gen_val(r, k, writable),
                };
                if !m.iter().any(|e| e.0 == key) {
                    let v = gen_val(r, v, writable);
                    m.push((key, v));
                }
            }
            Val::Map(m)
        }
        Schema::Enum(_, vs) => {
            let i = r.below(vs.len());
            Val::Variant(
                i,
                match &vs[i] {
                    Variant::Unit => vec![],
                    Variant::Newtype(s) => vec![gen_val(r, s, writable)],
                    Variant::Tuple(v) | Variant::Struct(_, v) => all(r, v),
                },
            )
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub struct Typed<'a>(pub &'a Schema, pub &'a Val);

impl<'a> Serialize for Typed<'a> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Schema::Bool, Val::Bool(b)) => z.serialize_bool(*b),
            (Schema::I(8), Val::I(i)) => z.serialize_i8(*i as i8),
            (Schema::I(16), Val::I(i)) => z.serialize_i16(*i as i16),
            (Schema::I(32), Val::I(i)) => z.serialize_i32(*i as i32),
            (Schema::I(64), Val::I(i)) => z.serialize_i64(*i as i64),
            (Schema::I(_), Val::I(i)) => z.serialize_i128(*i),
            (Schema::U(8), Val::U(i)) => z.serialize_u8(*i as u8),
            (Schema::U(16), Val::U(i)) => z.serialize_u16(*i as u16),
            (Schema::U(32), Val::U(i)) => z.serialize_u32(*i as u32),
            (Schema::U(64), Val::U(i)) => z.serialize_u64(*i as u64),
            (Schema::U(_), Val::U(i)) => z.serialize_u128(*i),
            (Schema::F32, Val::F32(f)) => z.serialize_f32(*f),
            (Schema::F64, Val::F64(f)) => z.serialize_f64(*f),
            (Schema::Char, Val::Char(c)) => z.serialize_char(*c),
            (Schema::Str, Val::Str(s)) => z.serialize_str(s),
            (Schema::Bytes, Val::Bytes(b)) => z.serialize_bytes(b),
            (Schema::Opt(_), Val::None) => z.serialize_none(),
            (Schema::Opt(s), Val::Some(v)) => z.serialize_some(&Typed(s, v)),
            (Schema::Unit, _) => z.serialize_unit(),
            (Schema::UnitStruct, _) => z.serialize_unit_struct("U"),
            (Schema::Newtype(s), Val::List(v)) => z.serialize_newtype_struct("N", &Typed(s, &v[0])),
            (Schema::Seq(s), Val::List(v)) => {
                let mut q = z.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(&Typed(s, x))?;
                }
                q.end()
            }
            (Schema::Tuple(s), Val::List(v)) => {
                let mut q = z.serialize_tuple(v.len())?;
                for (s, x) in s.iter().zip(v) {
                    q.serialize_element(&Typed(s, x))?;
                }
                q.end()
            }
            (Schema::TupleStruct(s), Val::List(v)) => {
                let mut q = z.serialize_tuple_struct("T", v.len())?;
                for (s, x) in s.iter().zip(v) {
                    q.serialize_field(&Typed(s, x))?;
                }
                q.end()
            }
            (Schema::Map(ks, vs), Val::Map(m)) => {
                let mut q = z.serialize_map(if m.len() % 2 == 0 { Some(m.len()) } else { None })?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Typed(ks, k), &Typed(vs, v))?;
                    } else {
                        q.serialize_key(&Typed(ks, k))?;
                        q.serialize_value(&Typed(vs, v))?;
                    }
                }
                q.end()
            }
            (Schema::Struct(at, s), Val::List(v)) => {
                let mut q = z.serialize_struct("S", v.len())?;
                for ((s, x), n) in s.iter().zip(v).zip(fields(*at, s.len())) {
                    q.serialize_field(n, &Typed(s, x))?;
                }
                q.end()
            }
            (Schema::Enum(at, vs), Val::Variant(i, v)) => {
                let name = VARIANTS[at + i];
                match &vs[*i] {
                    Variant::Unit => z.serialize_unit_variant("E", *i as u32, name),
                    Variant::Newtype(s) => z.serialize_newtype_variant("E", *i as u32, name, &Typed(s, &v[0])),
                    Variant::Tuple(s) => {
                        let mut q = z.serialize_tuple_variant("E", *i as u32, name, v.len())?;
                        for (s, x) in s.iter().zip(v) {
                            q.serialize_field(&Typed(s, x))?;
                        }
                        q.end()
                    }
                    Variant::Struct(at, s) => {
                        let mut q = z.serialize_struct_variant("E", *i as u32, name, v.len())?;
                        for ((s, x), n) in s.iter().zip(v).zip(fields(*at, s.len())) {
                            q.serialize_field(n, &Typed(s, x))?;
                        }
                        q.end()
                    }
                }
            }
            (s, v) => Err(ser::Error::custom(format!("{:?} is no {:?}", v, s))),
        }
    }
}

/// Makes a part of a value one that cannot be serialized: its own serialization fails, or it is
/// a map with keys that are no scalars. Tells which.
pub fn poison(r: &mut Rng, s: &mut Schema, v: &mut Val) -> Option<&'static str> {
    if r.chance(1, 4) {
        if let (Schema::Map(k, _), Val::Map(m)) = (&mut *s, &mut *v) {
            if !m.is_empty() {
                let inner = (**k).clone();
                let kind = r.below(4);
                **k = match kind {
                    0 => Schema::Seq(Box::new(inner)),
                    1 => Schema::Tuple(vec![inner]),
                    2 => Schema::Struct(0, vec![inner]),
                    _ => Schema::Enum(0, vec![Variant::Newtype(inner)]),
                };
                for (k, _) in m.iter_mut() {
                    let old = std::mem::replace(k, Val::Unit);
                    *k = if kind == 3 { Val::Variant(0, vec![old]) } else { Val::List(vec![old]) };
                }
                return Some("a map with keys that are no scalars");
            }
        }
    }
    fn one<'a>(r: &mut Rng, s: &'a mut Vec<Schema>, v: &'a mut Vec<Val>) -> Option<&'static str> {
        if s.is_empty() || v.len() != s.len() {
            return None;
        }
        let i = r.below(s.len());
        poison(r, &mut s[i], &mut v[i])
    }
    let inside = match (&mut *s, &mut *v) {
        (Schema::Opt(s), Val::Some(v)) => poison(r, s, v),
        (Schema::Newtype(s), Val::List(v)) => poison(r, s, &mut v[0]),
        // one element fails, the others do not
        (Schema::Seq(_), Val::List(v)) if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = Val::Any(Any::Null);
            let ok = !matches!(s, Schema::Seq(s) if matches!(**s, Schema::Unit | Schema::UnitStruct));
            return ok.then_some("an element whose serialization fails");
        }
        (Schema::Tuple(s), Val::List(v)) | (Schema::TupleStruct(s), Val::List(v)) | (Schema::Struct(_, s), Val::List(v)) => one(r, s, v),
        (Schema::Map(k, _), Val::Map(m)) if !m.is_empty() => {
            let i = r.below(m.len());
            if r.chance(1, 2) {
                m[i].0 = Val::Any(Any::Null);
                return Some("a key whose serialization fails");
            }
            let _ = k;
            m[i].1 = Val::Any(Any::Null);
            let ok = !matches!(s, Schema::Map(_, s) if matches!(**s, Schema::Unit | Schema::UnitStruct));
            return ok.then_some("a value whose serialization fails");
        }
        (Schema::Enum(_, vs), Val::Variant(i, v)) => match &mut vs[*i] {
            Variant::Unit => None,
            Variant::Newtype(s) => poison(r, s, &mut v[0]),
            Variant::Tuple(s) | Variant::Struct(_, s) => one(r, s, v),
        },
        _ => None,
    };
    if inside.is_some() {
        return inside;
    }
    if matches!(s, Schema::Unit | Schema::UnitStruct) {
        return None;
    }
    *v = Val::Any(Any::Null);
    Some("a part whose serialization fails")
}

// ---------------------------------------------------------------------------------------------

pub struct Seed<'a>(pub &'a Schema);

impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = See(self.0);
        match self.0 {
            Schema::Bool => d.deserialize_bool(v),
            Schema::I(8) => d.deserialize_i8(v),
            Schema::I(16) => d.deserialize_i16(v),
            Schema::I(32) => d.deserialize_i32(v),
            Schema::I(64) => d.deserialize_i64(v),
            Schema::I(_) => d.deserialize_i128(v),
            Schema::U(8) => d.deserialize_u8(v),
            Schema::U(16) => d.deserialize_u16(v),
            Schema::U(32) => d.deserialize_u32(v),
            Schema::U(64) => d.deserialize_u64(v),
            Schema::U(_) => d.deserialize_u128(v),
            Schema::F32 => d.deserialize_f32(v),
            Schema::F64 => d.deserialize_f64(v),
            Schema::Char => d.deserialize_char(v),
            Schema::Str => d.deserialize_string(v),
            Schema::Bytes => d.deserialize_byte_buf(v),
            Schema::Opt(_) => d.deserialize_option(v),
            Schema::Unit => d.deserialize_unit(v),
            Schema::UnitStruct => d.deserialize_unit_struct("U", v),
            Schema::Newtype(_) => d.deserialize_newtype_struct("N", v),
            Schema::Seq(_) => d.deserialize_seq(v),
            Schema::Tuple(s) => d.deserialize_tuple(s.len(), v),
            Schema::TupleStruct(s) => d.deserialize_tuple_struct("T", s.len(), v),
            Schema::Map(..) => d.deserialize_map(v),
            Schema::Struct(at, s) | Schema::Loose(at, s) => d.deserialize_struct("S", fields(*at, s.len()), v),
            Schema::Any => Ok(Val::Any(de::Deserialize::deserialize(d)?)),
            Schema::Enum(at, s) => d.deserialize_enum("E", &VARIANTS[*at..*at + s.len()], v),
        }
    }
}

struct Name<'a>(&'a [&'static str]);
impl<'a, 'de> DeserializeSeed<'de> for Name<'a> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'a, 'de> Visitor<'de> for Name<'a> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<usize, E> {
        self.0.iter().position(|n| *n == s).ok_or_else(|| E::custom(format!("unknown name {:?}", s)))
    }
}

struct See<'a>(&'a Schema);

fn int<E: de::Error>(s: &Schema, i: i128) -> Result<Val, E> {
    match s {
        Schema::I(128) => Ok(Val::I(i)),
        Schema::I(b) if i >= -(1i128 << (b - 1)) && i < (1i128 << (b - 1)) => Ok(Val::I(i)),
        Schema::U(128) if i >= 0 => Ok(Val::U(i as u128)),
        Schema::U(b) if *b < 128 && i >= 0 && i < (1i128 << b) => Ok(Val::U(i as u128)),
        Schema::F32 => Ok(Val::F32(i as f32)),
        Schema::F64 => Ok(Val::F64(i as f64)),
        _ => Err(E::custom(format!("integer {} for {:?}", i, s))),
    }
}
fn elements<'de, A: SeqAccess<'de>>(mut a: A, s: &[Schema]) -> Result<Vec<Val>, A::Error> {
    let mut v = Vec::new();
    for (i, s) in s.iter().enumerate() {
        v.push(a.next_element_seed(Seed(s))?.ok_or_else(|| de::Error::invalid_length(i, &"more"))?);
    }
    Ok(v)
}
fn by_name<'de, A: MapAccess<'de>>(mut a: A, at: usize, s: &[Schema]) -> Result<Vec<Val>, A::Error> {
    let mut got: Vec<Option<Val>> = vec![None; s.len()];
    while let Some(i) = a.next_key_seed(Name(fields(at, s.len())))? {
        if got[i].is_some() {
            return Err(de::Error::custom("duplicate field"));
        }
        got[i] = Some(a.next_value_seed(Seed(&s[i]))?);
    }
    got.into_iter().map(|g| g.ok_or_else(|| de::Error::custom("missing field"))).collect()
}

impl<'a, 'de> Visitor<'de> for See<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Val, E> {
        match self.0 {
            Schema::Bool => Ok(Val::Bool(b)),
            s => Err(E::custom(format!("bool for {:?}", s))),
        }
    }
    fn visit_i64<E: de::Error>(self, i: i64) -> Result<Val, E> {
        int(self.0, i as i128)
    }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<Val, E> {
        int(self.0, i as i128)
    }
    fn visit_i128<E: de::Error>(self, i: i128) -> Result<Val, E> {
        int(self.0, i)
    }
    fn visit_u128<E: de::Error>(self, i: u128) -> Result<Val, E> {
        match self.0 {
            Schema::U(128) => Ok(Val::U(i)),
            s if i <= i128::MAX as u128 => int(s, i as i128),
            s => Err(E::custom(format!("integer {} for {:?}", i, s))),
        }
    }
    fn visit_f64<E: de::Error>(self, f: f64) -> Result<Val, E> {
        match self.0 {
            Schema::F32 => Ok(Val::F32(f as f32)),
            Schema::F64 => Ok(Val::F64(f)),
            s => Err(E::custom(format!("float for {:?}", s))),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        match self.0 {
            Schema::Str => Ok(Val::Str(v.to_string())),
            Schema::Char => {
                let mut c = v.chars();
                match (c.next(), c.next()) {
                    (Some(x), None) => Ok(Val::Char(x)),
                    _ => Err(E::custom("not one character")),
                }
            }
            s => Err(E::custom(format!("string for {:?}", s))),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Schema::Opt(_) => Ok(Val::None),
            s => Err(E::custom(format!("none for {:?}", s))),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Schema::Opt(s) => Ok(Val::Some(Box::new(Seed(s).deserialize(d)?))),
            s => Err(de::Error::custom(format!("some for {:?}", s))),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Schema::Unit | Schema::UnitStruct => Ok(Val::Unit),
            s => Err(E::custom(format!("unit for {:?}", s))),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Schema::Newtype(s) => Ok(Val::List(vec![Seed(s).deserialize(d)?])),
            s => Err(de::Error::custom(format!("newtype for {:?}", s))),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Schema::Seq(s) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element_seed(Seed(s))? {
                    v.push(x);
                }
                Ok(Val::List(v))
            }
            Schema::Bytes => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element::<u8>()? {
                    v.push(x);
                }
                Ok(Val::Bytes(v))
            }
            Schema::Tuple(s) | Schema::TupleStruct(s) => Ok(Val::List(elements(a, s)?)),
            s => Err(de::Error::custom(format!("sequence for {:?}", s))),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Schema::Map(k, v) => {
                let mut m = Vec::new();
                while let Some(x) = a.next_key_seed(Seed(k))? {
                    m.push((x, a.next_value_seed(Seed(v))?));
                }
                Ok(Val::Map(m))
            }
            Schema::Struct(at, s) => Ok(Val::List(by_name(a, *at, s)?)),
            Schema::Loose(at, s) => {
                let names = fields(*at, s.len());
                let mut got: Vec<Option<Val>> = vec![None; s.len()];
                while let Some(k) = a.next_key::<String>()? {
                    match names.iter().position(|n| *n == k) {
                        Some(i) if got[i].is_some() => return Err(de::Error::custom("duplicate field")),
                        Some(i) => got[i] = Some(a.next_value_seed(Seed(&s[i]))?),
                        None => {
                            a.next_value::<de::IgnoredAny>()?;
                        }
                    }
                }
                got.into_iter().map(|g| g.ok_or_else(|| de::Error::custom("missing field"))).collect::<Result<Vec<_>, _>>().map(Val::List)
            }
            s => Err(de::Error::custom(format!("map for {:?}", s))),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (at, vs) = match self.0 {
            Schema::Enum(at, vs) => (*at, vs),
            s => return Err(de::Error::custom(format!("enum for {:?}", s))),
        };
        let (i, x) = a.variant_seed(Name(&VARIANTS[at..at + vs.len()]))?;
        struct Parts<'a>(&'a Variant);
        impl<'a, 'de> Visitor<'de> for Parts<'a> {
            type Value = Vec<Val>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
                match self.0 {
                    Variant::Tuple(s) => elements(a, s),
                    _ => Err(de::Error::custom("sequence")),
                }
            }
            fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
                match self.0 {
                    Variant::Struct(at, s) => by_name(a, *at, s),
                    _ => Err(de::Error::custom("map")),
                }
            }
        }
        let v = match &vs[i] {
            Variant::Unit => {
                x.unit_variant()?;
                vec![]
            }
            Variant::Newtype(s) => vec![x.newtype_variant_seed(Seed(s))?],
            v @ Variant::Tuple(s) => x.tuple_variant(s.len(), Parts(v))?,
            v @ Variant::Struct(at, s) => x.struct_variant(fields(*at, s.len()), Parts(v))?,
        };
        Ok(Val::Variant(i, v))
    }
}

pub fn read(y: yaml_subset::yaml::Yaml, s: &Schema) -> Result<Val, String> {
    Seed(s).deserialize(yaml_subset::yaml::YamlDeserializer::new(y)).map_err(|e| e.0)
}
pub fn write(s: &Schema, v: &Val) -> Result<yaml_subset::yaml::Yaml, String> {
    Typed(s, v).serialize(yaml_subset::yaml::YamlSerializer).map_err(|e| e.to_string())
}
