//! C21: announced lengths that the message does not hold.

use crate::alloc;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use crate::must;
use binschema::error::{Error, ErrorKind};
use binschema::value::{ScalarValue, Value};
use binschema::{CoderState, CoderStateAlloc, Decoder, EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField};
use serde::de::{DeserializeOwned, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer};
use std::collections::*;
use std::fmt;
use std::io::Read;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C21", f: c21, quick: 2_000_000, thorough: 80_000_000,
        rule: "a case is a schema with a string, byte string or sequence (of elements of at least a byte) at the end of 0 to 6, rarely up to 118 generated layers, or at each level of a recursion up to 300 levels deep, a message that announces there (or a schema that prescribes) more than the message holds, and a way of decoding it (dynamic value, individual calls, reused buffers, serde: typed, self-describing, ignored); non-trivial when the length announced is at least 2^20; distinct by schema, message and way" }]
}

/// Bytes that any decoding may use, whatever the message: a constant.
const CONSTANT: i64 = 8 << 20;
/// and for each byte of the message and node of the schema.
const PER_BYTE: i64 = 2 << 10;

fn sc(t: ScalarType) -> Schema { Schema::Scalar(t) }
fn seq(len: Option<usize>, s: Schema) -> Schema { Schema::Seq(SeqSchema { len, inner: Box::new(s) }) }

/// An element of at least one byte.
fn elem(src: &mut Src, depth: u32) -> Schema {
    let k = if depth > 2 { src.idx(9) } else { src.idx(15) };
    match k {
        0 | 1 => sc(ScalarType::U8),
        2 => sc(SCALARS[src.idx(14)]),
        3 => sc(ScalarType::U64),
        4 => sc(ScalarType::F64),
        5 => Schema::Str,
        6 => Schema::Bytes,
        7 => sc(ScalarType::Char),
        8 => Schema::Option(Box::new(Schema::Unit)),
        9 => Schema::Option(Box::new(elem(src, depth + 1))),
        10 => seq(None, elem(src, depth + 1)),
        11 => { let n = 1 + src.idx(3); seq(Some(n), elem(src, depth + 1)) }
        12 => { let n = 1 + src.idx(3); Schema::Tuple((0..n).map(|_| elem(src, depth + 1)).collect()) }
        13 => { let n = 1 + src.idx(3); Schema::Struct((0..n).map(|i| StructSchemaField { name: format!("f{}", i), inner: elem(src, depth + 1) }).collect()) }
        _ => { let n = 1 + src.idx(3); Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: elem(src, depth + 1) }).collect()) }
    }
}

fn small_value(src: &mut Src, s: &Schema) -> Vec<u8> {
    let a = Arena::new(s);
    let mut g = Vg { fuel: 6, eager: 6, mult: 1, bulk: 0, nodes: 40 };
    let v = g.value(src, &a, a.root);
    a.encode(&v).unwrap()
}

fn announced(src: &mut Src, held: u64) -> u128 {
    let n: u128 = match src.weighted(&[3, 6, 6, 2, 3]) {
        0 => held as u128 + 1 + src.below(4) as u128,
        1 => { let k = src.range(16, 63); (1u128 << k) + src.below(3) as u128 - 1 }
        2 => *src.pick(&[u64::MAX as u128, i64::MAX as u128, 1 << 63, u64::MAX as u128 - 1, u32::MAX as u128, 1 << 32, i64::MAX as u128 - 7, (1 << 63) / 16, u64::MAX as u128 / 3]),
        3 => *src.pick(&[1u128 << 64, u128::MAX, (1 << 64) + 1, (1 << 64) + 5, 1 << 100, u128::MAX - 1]),
        _ => 1 << 27,
    };
    n.max(held as u128 + 1)
}

/// How much of the content is there.
fn held(src: &mut Src) -> usize {
    match src.weighted(&[6, 8, 3, 1]) {
        0 => 0,
        1 => src.below(40) as usize,
        2 => src.below(1000) as usize,
        _ => *src.pick(&[4095usize, 4096, 8192, 20_000, 65_536]),
    }
}

#[derive(Default)]
struct Made { schema: Option<Schema>, msg: Vec<u8>, length: u128, beyond: bool }

fn make(src: &mut Src) -> Made {
    let mut m = Made::default();
    let n = held(src);
    if src.chance(1, 20) { return recursive(src); }
    let core = match src.idx(8) {
        0 | 1 => {
            let is_str = src.chance(1, 2);
            m.length = announced(src, n as u64);
            m.msg.extend(uint_bytes(m.length));
            // also text cut within a character
            if is_str && src.chance(1, 4) { while m.msg.len() + 4 <= n { m.msg.extend("😀".as_bytes()); } }
            let r = Rng(src.raw()).next();
            let have = m.msg.len();
            m.msg.extend((have..n).map(|i| if is_str { b'a' + (i % 26) as u8 } else { (r >> (i % 57)) as u8 }));
            if is_str { Schema::Str } else { Schema::Bytes }
        }
        k => {
            let e = elem(src, 0);
            let parts: Vec<Vec<u8>> = (0..1 + src.idx(3)).map(|_| small_value(src, &e)).collect();
            let mut content = Vec::new();
            let mut whole = 0u64;
            while content.len() < n { content.extend(&parts[whole as usize % parts.len()]); whole += 1; }
            if src.chance(1, 2) { content.truncate(n); }
            m.length = announced(src, whole);
            if k < 4 {
                if m.length > usize::MAX as u128 { m.length = usize::MAX as u128; }
                m.msg = content;
                seq(Some(m.length as usize), e)
            } else {
                m.msg.extend(uint_bytes(m.length));
                m.msg.extend(content);
                seq(None, e)
            }
        }
    };
    m.beyond = m.length > usize::MAX as u128;
    let mut s = core;
    let layers = match src.weighted(&[16, 14, 1]) { 0 => 0, 1 => src.idx(7), _ => 8 + src.idx(110) };
    // as many layers of a single kind, at times
    let kind = if layers > 7 && src.chance(1, 2) { Some(4 + src.idx(3)) } else { None };
    for _ in 0..layers {
        let mut pre = Vec::new();
        s = match kind.unwrap_or_else(|| src.idx(7)) {
            0 => { pre.push(1); Schema::Option(Box::new(s)) }
            1 => {
                let first = elem(src, 1);
                pre.extend(small_value(src, &first));
                let mut v = vec![first, s];
                if src.chance(1, 2) { v.push(sc(ScalarType::U8)); }
                Schema::Tuple(v)
            }
            2 => {
                let first = elem(src, 1);
                pre.extend(small_value(src, &first));
                Schema::Struct(vec![StructSchemaField { name: "a".into(), inner: first }, StructSchemaField { name: "b".into(), inner: s }])
            }
            3 => {
                let ord = src.idx(3);
                pre.push(ord as u8);
                Schema::Enum((0..3).map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: if i == ord { s.clone() } else { Schema::Unit } }).collect())
            }
            4 | 5 => {
                let l = if src.chance(1, 2) { announced(src, 1).min(u64::MAX as u128) } else { 1 + src.below(3) as u128 };
                pre.extend(uint_bytes(l));
                seq(None, s)
            }
            _ => {
                let l = if src.chance(1, 2) { announced(src, 1).min(usize::MAX as u128) as usize } else { 1 + src.idx(3) };
                seq(Some(l), s)
            }
        };
        pre.extend(&m.msg);
        m.msg = pre;
    }
    m.schema = Some(s);
    m
}

/// A schema that contains itself, with much announced at each of many levels.
fn recursive(src: &mut Src) -> Made {
    let mut m = Made::default();
    let k = src.idx(4);
    let first = elem(src, 2);
    let s = match k {
        0 => seq(None, Schema::Recurse(1)),
        1 => Schema::Struct(vec![StructSchemaField { name: "a".into(), inner: first.clone() }, StructSchemaField { name: "b".into(), inner: seq(None, Schema::Recurse(2)) }]),
        2 => Schema::Option(Box::new(seq(None, Schema::Recurse(2)))),
        _ => seq(None, Schema::Tuple(vec![first.clone(), Schema::Recurse(2)])),
    };
    let low = src.chance(1, 2);
    for _ in 0..1 + src.idx(300) {
        let l = if low { *src.pick(&[1u128, 2, 63, 64, 65, 127, 128, 1000]) } else { announced(src, 1).min(u64::MAX as u128) };
        if m.length < l { m.length = l; }
        match k {
            1 => m.msg.extend(small_value(src, &first)),
            2 => m.msg.push(1),
            _ => {}
        }
        m.msg.extend(uint_bytes(l));
        if k == 3 { m.msg.extend(small_value(src, &first)); }
    }
    if k == 1 && src.chance(1, 2) { m.msg.extend(small_value(src, &first)); }
    m.schema = Some(s);
    m
}

fn nodes(s: &Schema) -> i64 {
    1 + match s {
        Schema::Option(i) => nodes(i),
        Schema::Seq(q) => nodes(&q.inner),
        Schema::Tuple(v) => v.iter().map(nodes).sum(),
        Schema::Struct(v) => v.iter().map(|f| nodes(&f.inner)).sum(),
        Schema::Enum(v) => v.iter().map(|f| nodes(&f.inner)).sum(),
        _ => 0,
    }
}

/// Everything there, by individual calls, keeping nothing.
fn pull<R: Read>(d: &mut Decoder<R>, sbuf: &mut String, bbuf: &mut Vec<u8>, reuse: bool) -> Result<(), Error> {
    let s = d.need()?.clone();
    match s {
        Schema::Scalar(t) => { ScalarValue::decode_from(d, t)?; }
        Schema::Str => if reuse { sbuf.push('x'); d.decode_str_into(sbuf)? } else { d.decode_str()?; },
        Schema::Bytes => if reuse { bbuf.push(1); d.decode_bytes_into(bbuf)? } else { d.decode_bytes()?; },
        Schema::Unit => d.decode_unit()?,
        Schema::Option(_) => if d.begin_option()? { pull(d, sbuf, bbuf, reuse)? },
        Schema::Seq(q) => {
            let n = match q.len { Some(n) => { d.begin_fixed_len_seq(n)?; n } None => d.begin_var_len_seq()? };
            for _ in 0..n { d.begin_seq_elem()?; pull(d, sbuf, bbuf, reuse)?; }
            d.finish_seq()?
        }
        Schema::Tuple(v) => {
            d.begin_tuple()?;
            for _ in &v { d.begin_tuple_elem()?; pull(d, sbuf, bbuf, reuse)?; }
            d.finish_tuple()?
        }
        Schema::Struct(v) => {
            d.begin_struct()?;
            for f in &v { d.begin_struct_field(&f.name)?; pull(d, sbuf, bbuf, reuse)?; }
            d.finish_struct()?
        }
        Schema::Enum(v) => {
            let o = d.begin_enum()?;
            d.begin_enum_variant(&v[o].name)?;
            pull(d, sbuf, bbuf, reuse)?
        }
        Schema::Recurse(_) => unreachable!(),
    }
    Ok(())
}

/// Takes whatever is there, self-describing, keeping a count.
struct Any(u64);

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
            fn visit_bool<E>(self, _: bool) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_u8<E>(self, _: u8) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_u16<E>(self, _: u16) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_u32<E>(self, _: u32) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_u64<E>(self, _: u64) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_u128<E>(self, _: u128) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_i8<E>(self, _: i8) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_i16<E>(self, _: i16) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_i32<E>(self, _: i32) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_i64<E>(self, _: i64) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_i128<E>(self, _: i128) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_f32<E>(self, _: f32) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_f64<E>(self, _: f64) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_char<E>(self, _: char) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_str<E>(self, v: &str) -> Result<Any, E> { Ok(Any(v.len() as u64)) }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Any, E> { Ok(Any(v.len() as u64)) }
            fn visit_unit<E>(self) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_none<E>(self) -> Result<Any, E> { Ok(Any(1)) }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> { Any::deserialize(d) }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> { Any::deserialize(d) }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut n = 0;
                while let Some(Any(k)) = a.next_element()? { n += k; }
                Ok(Any(n))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut n = 0;
                while let Some((IgnoredAny, Any(k))) = a.next_entry()? { n += k; }
                Ok(Any(n))
            }
            fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<Any, A::Error> {
                use serde::de::VariantAccess;
                let (IgnoredAny, v) = a.variant()?;
                v.newtype_variant()
            }
        }
        d.deserialize_any(V)
    }
}

fn typed<T: DeserializeOwned>(st: &mut CoderState, r: &mut &[u8]) -> Result<(), Error> {
    T::deserialize(&mut Decoder::new(st, r)).map(drop)
}

type Way = fn(&mut CoderState, &mut &[u8]) -> Result<(), Error>;

fn c21(c: &mut Case) -> Res {
    if c.src.chance(1, 12) { return schema_of_schemas(c); }
    let mut m = make(c.src);
    let mut way: Option<(&'static str, Way)> = None;
    if c.src.chance(1, 3) {
        // into containers that reserve what is announced
        let u8s = |s: &mut Src| { let n = held(s); fill(s, n) };
        let ways: [(&'static str, Schema, Way); 16] = [
            ("String", Schema::Str, typed::<String>),
            ("Box<str>", Schema::Str, typed::<Box<str>>),
            ("Vec<u8>", seq(None, sc(ScalarType::U8)), typed::<Vec<u8>>),
            ("Vec<u128>", seq(None, sc(ScalarType::U128)), typed::<Vec<u128>>),
            ("Vec<[u8;32]>", seq(None, Schema::Tuple(vec![sc(ScalarType::U8); 32])), typed::<Vec<[u8; 32]>>),
            ("VecDeque<u64>", seq(None, sc(ScalarType::U64)), typed::<VecDeque<u64>>),
            ("LinkedList<u16>", seq(None, sc(ScalarType::U16)), typed::<LinkedList<u16>>),
            ("BTreeSet<u8>", seq(None, sc(ScalarType::U8)), typed::<BTreeSet<u8>>),
            ("HashSet<u8>", seq(None, sc(ScalarType::U8)), typed::<HashSet<u8>>),
            ("BinaryHeap<i32>", seq(None, sc(ScalarType::I32)), typed::<BinaryHeap<i32>>),
            ("BTreeMap<u8,u8>", seq(None, Schema::Tuple(vec![sc(ScalarType::U8); 2])), typed::<BTreeMap<u8, u8>>),
            ("HashMap<u8,u8>", seq(None, Schema::Tuple(vec![sc(ScalarType::U8); 2])), typed::<HashMap<u8, u8>>),
            ("HashMap<u8,Vec<String>>", seq(None, Schema::Tuple(vec![sc(ScalarType::U8), seq(None, Schema::Str)])), typed::<HashMap<u8, Vec<String>>>),
            ("Vec<Vec<Vec<u8>>>", seq(None, seq(None, seq(None, sc(ScalarType::U8)))), typed::<Vec<Vec<Vec<u8>>>>),
            ("Vec<Option<Box<u64>>>", seq(None, Schema::Option(Box::new(sc(ScalarType::U64)))), typed::<Vec<Option<Box<u64>>>>),
            ("Vec<String>", seq(None, Schema::Str), typed::<Vec<String>>),
        ];
        let k = c.src.idx(16);
        let (name, s, w) = ways[k].clone();
        m.length = announced(c.src, 70_000);
        m.beyond = m.length > usize::MAX as u128;
        m.msg = uint_bytes(m.length);
        match k {
            0 | 1 => { let b = u8s(c.src); m.msg.extend(b.iter().map(|b| b & 0x7f)); }
            14 => { let b = u8s(c.src); m.msg.extend(b.iter().map(|b| b & 1)); }
            13 | 15 if c.src.chance(1, 2) => { let l = announced(c.src, 70_000).min(u64::MAX as u128); m.msg.extend(uint_bytes(l)); }
            12 | 13 | 15 => {}
            _ => { let b = u8s(c.src); m.msg.extend(b.iter().map(|b| b & 0x7f)); }
        }
        m.schema = Some(s);
        way = Some((name, w));
    }
    let (name, f): (&'static str, Way) = way.unwrap_or_else(|| match c.src.idx(6) {
        0 | 1 => ("dynamic value", |st: &mut CoderState, r: &mut &[u8]| Value::decode_from(&mut Decoder::new(st, r)).map(drop)),
        2 => ("individual calls", |st: &mut CoderState, r: &mut &[u8]| pull(&mut Decoder::new(st, r), &mut String::new(), &mut Vec::new(), false)),
        3 => ("individual calls with buffers", |st: &mut CoderState, r: &mut &[u8]| pull(&mut Decoder::new(st, r), &mut String::new(), &mut Vec::new(), true)),
        4 => ("self-describing", typed::<Any>),
        _ => ("ignored", typed::<IgnoredAny>),
    });
    judge(c, name, f, m)
}

fn fill(src: &mut Src, n: usize) -> Vec<u8> {
    let mut r = Rng(src.raw());
    (0..n).map(|_| r.next() as u8).collect()
}

/// The schema of schemas, with a length that is not there.
fn schema_of_schemas(c: &mut Case) -> Res {
    let meta = crate::checks::meta::meta();
    let l = announced(c.src, 0);
    let mut m = Made { length: l, beyond: l > usize::MAX as u128, ..Default::default() };
    for _ in 0..c.src.idx(20) {
        // layers of option, and of tuples announcing much
        let ord = *c.src.pick(&[4u8, 6]);
        m.msg.push(ord);
        if ord == 6 { let l = if c.src.chance(1, 2) { 1 } else { announced(c.src, 1).min(u64::MAX as u128) }; m.msg.extend(uint_bytes(l)); }
    }
    let ord = *c.src.pick(&[6u8, 7, 8]);
    m.msg.push(ord);
    m.msg.extend(uint_bytes(l));
    if ord != 6 && c.src.chance(1, 2) {
        let l = announced(c.src, 0);
        if !m.beyond { m.beyond = l > usize::MAX as u128; }
        m.msg.extend(uint_bytes(l));
    }
    m.schema = Some(meta);
    let (name, f): (&'static str, Way) = match c.src.idx(3) {
        0 => ("Schema", typed::<Schema>),
        1 => ("Vec<Schema>-like value", |st: &mut CoderState, r: &mut &[u8]| Value::decode_from(&mut Decoder::new(st, r)).map(drop)),
        _ => ("ignored", typed::<IgnoredAny>),
    };
    judge(c, name, f, m)
}

fn judge(c: &mut Case, name: &'static str, f: Way, m: Made) -> Res {
    let s = m.schema.unwrap();
    let al = CoderStateAlloc::new();
    let mut rest: &[u8] = &m.msg;
    let mut st = CoderState::new(&s, al, None);
    let (r, peak) = alloc::peak_of(|| f(&mut st, &mut rest));
    let what = || format!("decoding as {}, message {} ({} bytes) with {} announced, schema {}", name, hex(&m.msg), m.msg.len(), m.length, short(&s));
    let bound = CONSTANT + PER_BYTE * (m.msg.len() as i64 + nodes(&s));
    must!(peak <= bound, "{} bytes of memory used at once, more than {}: {}", peak, bound, what());
    match r {
        Ok(()) => return Err(Fail::new(format!("succeeded: {}", what()))),
        Err(e) => {
            let k = e.kind();
            let ok = match k {
                ErrorKind::Io | ErrorKind::PlatformLimits => true,
                ErrorKind::MalformedData => m.beyond,
                _ => false,
            };
            must!(ok, "fails with {:?} ({}): {}", k, clip(&e.to_string(), 300), what());
            c.label(match k { ErrorKind::Io => "io_error", ErrorKind::PlatformLimits => "platform_limits", _ => "other_error" });
        }
    }
    must!(!st.is_finished(), "reports finished: {}", what());
    c.label(name);
    if m.length >= 1 << 20 { c.label("huge"); c.nontrivial(mix(mix(hash_of(&s), hash_bytes(&m.msg)), hash_str(name))); }
    c.sample(what);
    Ok(())
}
