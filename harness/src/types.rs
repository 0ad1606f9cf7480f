//! Serde target types.
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};

/// Whatever the deserializer says is there.
#[derive(Clone, Debug, PartialEq)]
pub enum Any {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<Any>),
    Map(Vec<(Any, Any)>),
}

impl Any {
    /// Equal, a NaN being equal to a NaN.
    pub fn same(&self, o: &Any) -> bool {
        match (self, o) {
            (Any::Float(x), Any::Float(y)) => x.is_nan() && y.is_nan() || x.to_bits() == y.to_bits(),
            (Any::Seq(a), Any::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),
            (Any::Map(a), Any::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0.same(&b.0) && a.1.same(&b.1)),
            (a, b) => a == b,
        }
    }
}

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E: de::Error>(self, v: bool) -> Result<Any, E> {
                Ok(Any::Bool(v))
            }
            fn visit_i64<E: de::Error>(self, v: i64) -> Result<Any, E> {
                Ok(Any::Int(v as i128))
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Any, E> {
                Ok(Any::Int(v as i128))
            }
            fn visit_i128<E: de::Error>(self, v: i128) -> Result<Any, E> {
                Ok(Any::Int(v))
            }
            fn visit_u128<E: de::Error>(self, v: u128) -> Result<Any, E> {
                Ok(Any::Int(v as i128))
            }
            fn visit_f64<E: de::Error>(self, v: f64) -> Result<Any, E> {
                Ok(Any::Float(v))
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Any, E> {
                Ok(Any::Str(v.to_string()))
            }
            fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
                Ok(Any::Null)
            }
            fn visit_none<E: de::Error>(self) -> Result<Any, E> {
                Ok(Any::Null)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
                Any::deserialize(d)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Any::Seq(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(Any::Map(v))
            }
        }
        d.deserialize_any(V)
    }
}
