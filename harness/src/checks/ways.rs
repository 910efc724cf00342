//! The ways in which one message can be coded: dynamic value, individual calls, serde with typed
//! and self-describing requests mixed, serde ignoring it.

use crate::checks::core::ops_of;
use crate::checks::serde_io::{request, Dg, Dyn, Names, Rq};
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use binschema::error::Error;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use crate::util::Coded;
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt;
use std::io::{Read, Write};

// ---------------------------------------------------------------- encoding

#[derive(Clone, Debug)]
pub enum EncWay {
    Value(Value),
    Calls(Vec<Op>),
    Serde(Dyn),
}

impl EncWay {
    /// Some way of encoding the value, which may live no longer than the names.
    pub fn draw(src: &mut Src, a: &Arena, v: &Value, names: &Names) -> EncWay {
        match src.idx(3) {
            0 => EncWay::Value(v.clone()),
            1 => { let mut ops = Vec::new(); ops_of(v, &mut ops); EncWay::Calls(ops) }
            _ => EncWay::Serde(Dg { names, firm: true }.fitting(src, a, a.root, v)),
        }
    }
    pub fn name(&self) -> &'static str {
        match self { EncWay::Value(_) => "dynamic value", EncWay::Calls(_) => "individual calls", EncWay::Serde(_) => "serde" }
    }
    pub fn run<W: Write>(&self, e: &mut Encoder<W>) -> Result<(), Error> {
        match self {
            EncWay::Value(v) => v.encode_to(e),
            EncWay::Calls(ops) => ops.iter().try_for_each(|op| do_enc(e, op)),
            EncWay::Serde(d) => d.serialize(e),
        }
    }
}

pub fn encode_by<W: Write>(way: &EncWay, s: &Schema, w: &mut W, alloc: CoderStateAlloc) -> Coded<()> {
    let mut st = CoderState::new(s, alloc, None);
    let result = way.run(&mut Encoder::new(&mut st, w));
    let finished = st.is_finished();
    Coded { result, finished, alloc: st.into_alloc() }
}

pub fn decode_by<R: Read>(way: DecWay, a: &Arena, s: &Schema, r: &mut R, alloc: CoderStateAlloc) -> Coded<Option<Value>> {
    let mut st = CoderState::new(s, alloc, None);
    let result = way.run(a, &mut Decoder::new(&mut st, r));
    let finished = st.is_finished();
    Coded { result, finished, alloc: st.into_alloc() }
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DecWay {
    Value,
    Calls,
    /// the number says which requests are made
    Serde(u64),
    Ignored,
}

impl DecWay {
    pub fn draw(src: &mut Src) -> DecWay {
        match src.weighted(&[3, 2, 4, 2]) {
            0 => DecWay::Value,
            1 => DecWay::Calls,
            2 => DecWay::Serde(src.below(1 << 32)),
            _ => DecWay::Ignored,
        }
    }
    pub fn name(&self) -> &'static str {
        match self { DecWay::Value => "dynamic value", DecWay::Calls => "individual calls", DecWay::Serde(_) => "serde", DecWay::Ignored => "serde, ignored" }
    }
    /// The value, where this way of decoding gives one.
    pub fn run<R: Read>(&self, a: &Arena, d: &mut Decoder<R>) -> Result<Option<Value>, Error> {
        match self {
            DecWay::Value => Value::decode_from(d).map(Some),
            DecWay::Calls => pull(d, &mut (String::new(), Vec::new(), 0)).map(Some),
            DecWay::Ignored => IgnoredAny::deserialize(d).map(|_| None),
            DecWay::Serde(n) => {
                let cx = Cx { a, rng: Cell::new(*n), names: Names::default(), fail: None };
                Build { cx: &cx, r: a.root, map: false, pre: 0, again: false }.deserialize(d).map(Some)
            }
        }
    }
}

/// By individual calls; strings into new and into used buffers in turn.
fn pull<R: Read>(d: &mut Decoder<R>, buf: &mut (String, Vec<u8>, u32)) -> Result<Value, Error> {
    Ok(match d.need()? {
        Schema::Scalar(t) => Value::Scalar(ScalarValue::decode_from(d, *t)?),
        Schema::Str => {
            buf.2 += 1;
            if buf.2 % 2 == 0 { Value::Str(d.decode_str()?) } else { d.decode_str_into(&mut buf.0)?; Value::Str(buf.0.clone()) }
        }
        Schema::Bytes => {
            buf.2 += 1;
            if buf.2 % 2 == 0 { Value::Bytes(d.decode_bytes()?) } else { d.decode_bytes_into(&mut buf.1)?; Value::Bytes(buf.1.clone()) }
        }
        Schema::Unit => { d.decode_unit()?; Value::Unit }
        Schema::Option(_) => Value::Option(if d.begin_option()? { Some(Box::new(pull(d, buf)?)) } else { None }),
        Schema::Seq(q) => {
            let n = match q.len { Some(n) => { d.begin_fixed_len_seq(n)?; n } None => d.begin_var_len_seq()? };
            let mut v = Vec::new();
            for _ in 0..n { d.begin_seq_elem()?; v.push(pull(d, buf)?); }
            d.finish_seq()?;
            if q.len.is_some() { Value::FixedLenSeq(v) } else { Value::VarLenSeq(v) }
        }
        Schema::Tuple(c) => {
            d.begin_tuple()?;
            let mut v = Vec::new();
            for _ in c { d.begin_tuple_elem()?; v.push(pull(d, buf)?); }
            d.finish_tuple()?;
            Value::Tuple(v)
        }
        Schema::Struct(c) => {
            d.begin_struct()?;
            let mut v = Vec::new();
            for f in c { d.begin_struct_field(&f.name)?; v.push(StructValueField { name: f.name.clone(), value: pull(d, buf)? }); }
            d.finish_struct()?;
            Value::Struct(v)
        }
        Schema::Enum(c) => {
            let variant_ord = d.begin_enum()?;
            let variant_name = c[variant_ord].name.clone();
            d.begin_enum_variant(&variant_name)?;
            Value::Enum(EnumValue { variant_ord, variant_name, value: Box::new(pull(d, buf)?) })
        }
        Schema::Recurse(_) => unreachable!("a recurse is due"),
    })
}

/// Where a deserialization fails of its own.
pub struct FailPlan {
    /// counts down with every occasion to fail
    left: Cell<u64>,
    /// nodes begun
    begun: Cell<u64>,
    msg: String,
    done: Cell<Option<FailedAt>>,
}

#[derive(Clone, Copy, Debug)]
pub struct FailedAt {
    /// so many nodes had been begun
    pub begun: u64,
    pub place: Place,
}

#[derive(Clone, Copy, Debug)]
pub enum Place {
    /// before the next one is asked for
    Next,
    /// in the sequence or tuple that was begun as this one, after so many of its elements
    Within(u64, usize),
    /// when the node that was begun as this one is complete
    After(u64),
}

impl fmt::Display for FailedAt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self.place {
            Place::Next => write!(f, "node {}", self.begun),
            Place::Within(o, k) => write!(f, "node {}, after {} elements of node {}", self.begun, k, o),
            Place::After(o) => write!(f, "node {}, after node {}", self.begun, o),
        } }
}

impl FailPlan {
    pub fn new(occasion: u64, msg: String) -> FailPlan { FailPlan { left: Cell::new(occasion), begun: Cell::new(0), msg, done: Cell::new(None) } }
    pub fn node(&self) -> Option<FailedAt> { self.done.get() }
    fn occasion<E: de::Error>(&self, begun: u64, place: Place) -> Result<(), E> {
        self.left.set(self.left.get().saturating_sub(1));
        if self.left.get() > 0 || self.done.get().is_some() { return Ok(()); }
        self.done.set(Some(FailedAt { begun, place }));
        Err(E::custom(&self.msg))
    }
}

/// Decodes through serde, with a visitor that fails of its own.
pub fn decode_failing<R: Read>(n: u64, plan: &FailPlan, a: &Arena, d: &mut Decoder<R>) -> Result<Value, Error> {
    let cx = Cx { a, rng: Cell::new(n), names: Names::default(), fail: Some(plan) };
    Build { cx: &cx, r: a.root, map: false, pre: 0, again: false }.deserialize(d)
}

struct Cx<'x> { a: &'x Arena<'x>, rng: Cell<u64>, names: Names, fail: Option<&'x FailPlan> }

impl<'x> Cx<'x> {
    fn begin(&self, n: u64) { if let Some(f) = self.fail { f.begun.set(f.begun.get() + n); } }
    fn idx(&self, n: u64) -> u64 {
        let mut r = Rng(self.rng.get());
        let x = r.next();
        self.rng.set(mix(self.rng.get(), x));
        (x >> 7) % n
    }
}

/// Puts the value together from what is presented.
#[derive(Clone, Copy)]
struct Build<'x> {
    cx: &'x Cx<'x>,
    r: Ref,
    map: bool,
    /// nodes begun on the way here without being asked for
    pre: u64,
    /// asked for already, as a newtype
    again: bool,
}

impl<'x> Build<'x> {
    fn at(&self, r: Ref) -> Build<'x> { Build { r, map: false, pre: 0, again: false, ..*self } }
    /// The visitor is given a leaf.
    fn leaf<E: de::Error>(&self) -> Result<(), E> {
        match self.cx.fail { Some(f) => f.occasion(f.begun.get(), Place::After(f.begun.get() - 1)), None => Ok(()) }
    }
    fn kind(&self) -> Option<&'x Kind> {
        match self.r { Ref::Node(i) => Some(&self.cx.a.nodes[i].kind), Ref::Illegal => None }
    }
    fn pair(&self) -> Option<(Ref, Ref)> {
        let Some(Kind::Seq(None, Ref::Node(i))) = self.kind() else { return None };
        match &self.cx.a.nodes[*i].kind { Kind::Tuple(p) if p.len() == 2 => Some((p[0], p[1])), _ => None }
    }
    fn typed(&mut self) -> Option<Rq> {
        let x = self.cx.idx(2) == 0;
        Some(match self.kind()? {
            Kind::Scalar(t) => Rq::Scalar(*t),
            Kind::Str => Rq::Str(x),
            Kind::Bytes => Rq::Bytes(x),
            Kind::Unit => if self.cx.idx(2) == 0 { Rq::Unit(x) } else { Rq::Tuple(0, x) },
            Kind::Option(_) => Rq::Option,
            Kind::Seq(Some(n), _) => if x { Rq::Tuple(*n, self.cx.idx(2) == 0) } else { Rq::Seq },
            Kind::Seq(None, _) => if x && self.pair().is_some() { self.map = true; Rq::Map } else { Rq::Seq },
            Kind::Tuple(c) => Rq::Tuple(c.len(), x),
            Kind::Struct(f) => Rq::Struct(self.cx.names.list(f.iter().map(|x| x.0.as_str()))),
            Kind::Enum(f) => Rq::Enum(self.cx.names.list(f.iter().map(|x| x.0.as_str()))),
        })
    }
    fn int<E: de::Error>(self, n: Option<i128>, u: Option<u128>) -> Result<Value, E> {
        self.leaf()?;
        use ScalarValue as S;
        let s = |x: i128| u.map_or(x, |u| u as i128);
        let (n, big) = match (n, u) { (Some(n), _) => (n, false), (_, Some(u)) => (s(0), u > i128::MAX as u128), _ => unreachable!() };
        macro_rules! narrow { ($v:ident) => { n.try_into().ok().filter(|_| !big).map(S::$v) } }
        let Some(Kind::Scalar(t)) = self.kind() else { return Err(E::custom("an integer is presented")) };
        let v = match t {
            ScalarType::U8 => narrow!(U8), ScalarType::U16 => narrow!(U16), ScalarType::U32 => narrow!(U32), ScalarType::U64 => narrow!(U64),
            ScalarType::U128 => u.or(n.try_into().ok()).map(S::U128),
            ScalarType::I8 => narrow!(I8), ScalarType::I16 => narrow!(I16), ScalarType::I32 => narrow!(I32), ScalarType::I64 => narrow!(I64), ScalarType::I128 => narrow!(I128),
            _ => None,
        };
        v.map(Value::Scalar).ok_or_else(|| E::custom("an integer is presented that does not fit"))
    }
    fn scalar<E: de::Error>(self, t: ScalarType, v: ScalarValue) -> Result<Value, E> {
        self.leaf()?;
        match self.kind() { Some(Kind::Scalar(x)) if *x == t => Ok(Value::Scalar(v)), _ => Err(E::custom(format!("{:?} is presented", v))) }
    }
}

impl<'de, 'x> DeserializeSeed<'de> for Build<'x> {
    type Value = Value;
    fn deserialize<D: Deserializer<'de>>(mut self, d: D) -> Result<Value, D::Error> {
        if let Some(f) = self.cx.fail {
            self.cx.begin(self.pre);
            f.occasion(f.begun.get() - self.again as u64, Place::Next)?;
            self.cx.begin(!self.again as u64);
        }
        let (cx, own) = (self.cx, self.cx.fail.map_or(0, |f| f.begun.get() - 1));
        let v = match cx.idx(6) {
            0 | 1 => d.deserialize_any(self),
            2 => d.deserialize_newtype_struct("Name", self),
            _ => match self.typed() { Some(rq) => request(d, &rq, self), None => d.deserialize_any(self) },
        }?;
        if let Some(f) = cx.fail { f.occasion(f.begun.get(), Place::After(own))?; }
        Ok(v)
    }
}

macro_rules! ints { ($($f:ident $t:ty, $a:expr, $b:expr;)*) => {$(
    fn $f<E: de::Error>(self, n: $t) -> Result<Value, E> { let (a, b): (fn($t) -> Option<i128>, fn($t) -> Option<u128>) = ($a, $b); self.int(a(n), b(n)) }
)*} }

impl<'de, 'x> Visitor<'de> for Build<'x> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("the data of the message") }
    ints! {
        visit_u8 u8, |_| None, |n| Some(n as u128);
        visit_u16 u16, |_| None, |n| Some(n as u128);
        visit_u32 u32, |_| None, |n| Some(n as u128);
        visit_u64 u64, |_| None, |n| Some(n as u128);
        visit_u128 u128, |_| None, |n| Some(n);
        visit_i8 i8, |n| Some(n as i128), |_| None;
        visit_i16 i16, |n| Some(n as i128), |_| None;
        visit_i32 i32, |n| Some(n as i128), |_| None;
        visit_i64 i64, |n| Some(n as i128), |_| None;
        visit_i128 i128, |n| Some(n), |_| None;
    }
    fn visit_f32<E: de::Error>(self, n: f32) -> Result<Value, E> { self.scalar(ScalarType::F32, ScalarValue::F32(n)) }
    fn visit_f64<E: de::Error>(self, n: f64) -> Result<Value, E> { self.scalar(ScalarType::F64, ScalarValue::F64(n)) }
    fn visit_bool<E: de::Error>(self, n: bool) -> Result<Value, E> { self.scalar(ScalarType::Bool, ScalarValue::Bool(n)) }
    fn visit_char<E: de::Error>(self, n: char) -> Result<Value, E> { self.scalar(ScalarType::Char, ScalarValue::Char(n)) }
    fn visit_str<E: de::Error>(self, n: &str) -> Result<Value, E> {
        self.leaf()?;
        match self.kind() { Some(Kind::Str) => Ok(Value::Str(n.into())), _ => Err(E::custom("a string is presented")) }
    }
    fn visit_bytes<E: de::Error>(self, n: &[u8]) -> Result<Value, E> {
        self.leaf()?;
        match self.kind() { Some(Kind::Bytes) => Ok(Value::Bytes(n.into())), _ => Err(E::custom("a byte string is presented")) }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        self.leaf()?;
        match self.kind() { Some(Kind::Unit) => Ok(Value::Unit), _ => Err(E::custom("unit is presented")) }
    }
    fn visit_none<E: de::Error>(self) -> Result<Value, E> {
        self.leaf()?;
        match self.kind() { Some(Kind::Option(_)) => Ok(Value::Option(None)), _ => Err(E::custom("none is presented")) }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        if let Some(f) = self.cx.fail { f.occasion(f.begun.get(), Place::Next)?; }
        match self.kind() {
            Some(Kind::Option(c)) => Ok(Value::Option(Some(Box::new(self.at(*c).deserialize(d)?)))),
            _ => Err(de::Error::custom("some is presented")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> { Build { pre: 0, again: true, ..self }.deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        let owner = self.cx.fail.map_or(0, |f| f.begun.get() - 1);
        // after the last element it may be finished already
        let pause = |k: usize, more: bool| match self.cx.fail { Some(f) if more => f.occasion::<A::Error>(f.begun.get(), Place::Within(owner, k)), _ => Ok(()) };
        match self.kind() {
            Some(Kind::Seq(n, c)) => {
                while let Some(x) = q.next_element_seed(self.at(*c))? { v.push(x); let more = q.size_hint().is_some_and(|n| n > 0); pause(v.len(), more)?; }
                Ok(if n.is_some() { Value::FixedLenSeq(v) } else { Value::VarLenSeq(v) })
            }
            Some(Kind::Tuple(cs)) => {
                for c in cs {
                    match q.next_element_seed(self.at(*c))? { Some(x) => { v.push(x); pause(v.len(), v.len() < cs.len())? } None => return Err(de::Error::custom("an element is not presented")) }
                }
                Ok(Value::Tuple(v))
            }
            Some(Kind::Unit) => Ok(Value::Unit),
            _ => Err(de::Error::custom("a sequence is presented")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut q: A) -> Result<Value, A::Error> {
        match (self.kind(), self.pair()) {
            (Some(Kind::Struct(cs)), _) => {
                let mut v = Vec::new();
                for (name, c) in cs {
                    match q.next_key::<String>()? {
                        Some(n) if n == *name => v.push(StructValueField { name: n, value: q.next_value_seed(self.at(*c))? }),
                        n => return Err(de::Error::custom(format!("the field {:?} is presented as {:?}", name, n))),
                    }
                }
                Ok(Value::Struct(v))
            }
            (_, Some((k, e))) if self.map => {
                let mut v = Vec::new();
                while let Some(key) = q.next_key_seed(Build { pre: 1, ..self.at(k) })? {
                    let val = q.next_value_seed(self.at(e))?;
                    v.push(Value::Tuple(vec![key, val]));
                }
                Ok(Value::VarLenSeq(v))
            }
            _ => Err(de::Error::custom("a map is presented")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, q: A) -> Result<Value, A::Error> {
        let Some(Kind::Enum(cs)) = self.kind() else { return Err(de::Error::custom("an enum is presented")) };
        let (i, va) = q.variant_seed(Ident { of: cs })?;
        let b = self.at(cs[i].1);
        let value = if self.cx.idx(3) == 0 { va.newtype_variant_seed(b)? } else {
            match b.kind() {
                Some(Kind::Unit) => { b.cx.begin(1); va.unit_variant()?; Value::Unit }
                Some(Kind::Tuple(c)) => { b.cx.begin(1); va.tuple_variant(c.len(), b)? },
                Some(Kind::Seq(Some(n), _)) => { b.cx.begin(1); va.tuple_variant(*n, b)? },
                Some(Kind::Struct(f)) => { b.cx.begin(1); va.struct_variant(self.cx.names.list(f.iter().map(|x| x.0.as_str())), b)? }
                _ => va.newtype_variant_seed(b)?,
            }
        };
        Ok(Value::Enum(EnumValue { variant_ord: i, variant_name: cs[i].0.clone(), value: Box::new(value) }))
    }
}

/// Which variant it is.
struct Ident<'x> { of: &'x [(String, Ref)] }

impl<'de, 'x> DeserializeSeed<'de> for Ident<'x> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}

impl<'de, 'x> Visitor<'de> for Ident<'x> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a variant") }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<usize, E> {
        if n < self.of.len() as u64 { Ok(n as usize) } else { Err(E::custom("no such variant")) }
    }
    fn visit_str<E: de::Error>(self, n: &str) -> Result<usize, E> {
        self.of.iter().position(|x| x.0 == n).ok_or_else(|| E::custom("no such variant"))
    }
    fn visit_bytes<E: de::Error>(self, n: &[u8]) -> Result<usize, E> {
        self.of.iter().position(|x| x.0.as_bytes() == n).ok_or_else(|| E::custom("no such variant"))
    }
}
