//! Small helpers shared by the checks.

use crate::engine::hash_bytes;
use binschema::error::{Error, ErrorKind};
use binschema::value::Value;
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, Schema};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::Mutex;

pub struct Coded<T> {
    pub result: Result<T, Error>,
    pub finished: bool,
    pub alloc: CoderStateAlloc,
}

pub fn encode_with<W: Write>(s: &Schema, v: &Value, w: &mut W, alloc: CoderStateAlloc) -> Coded<()> {
    let mut st = CoderState::new(s, alloc, None);
    let result = v.encode_to(&mut Encoder::new(&mut st, w));
    let finished = st.is_finished();
    Coded { result, finished, alloc: st.into_alloc() }
}

pub fn encode(s: &Schema, v: &Value) -> (Result<(), Error>, bool, Vec<u8>) {
    let mut out = Vec::new();
    let c = encode_with(s, v, &mut out, CoderStateAlloc::new());
    (c.result, c.finished, out)
}

pub fn decode_with<R: Read>(s: &Schema, r: &mut R, alloc: CoderStateAlloc) -> Coded<Value> {
    let mut st = CoderState::new(s, alloc, None);
    let result = Value::decode_from(&mut Decoder::new(&mut st, r));
    let finished = st.is_finished();
    Coded { result, finished, alloc: st.into_alloc() }
}

/// Decodes from a slice; also says how many bytes were taken.
pub fn decode(s: &Schema, data: &[u8]) -> (Result<Value, Error>, bool, usize) {
    let mut r = data;
    let c = decode_with(s, &mut r, CoderStateAlloc::new());
    (c.result, c.finished, data.len() - r.len())
}

pub fn kind_of<T>(r: &Result<T, Error>) -> Option<ErrorKind> {
    r.as_ref().err().map(|e| e.kind())
}

pub fn short<T: std::fmt::Debug>(x: &T) -> String {
    clip(&format!("{:?}", x), 900)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut k = n;
    while !s.is_char_boundary(k) { k -= 1; }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 200 { s.push_str(&format!("… ({} bytes)", b.len())); }
    s
}

pub fn hash_str(s: &str) -> u64 { hash_bytes(s.as_bytes()) }

pub fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// `&'static` versions of generated names, as serde's traits ask for.
pub fn intern(s: &str) -> &'static str {
    static POOL: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) { return x; }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

pub fn intern_list(names: &[&str]) -> &'static [&'static str] {
    static POOL: Mutex<Option<HashMap<Vec<&'static str>, &'static [&'static str]>>> = Mutex::new(None);
    let v: Vec<&'static str> = names.iter().map(|n| intern(n)).collect();
    let mut g = POOL.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(&v) { return x; }
    let l: &'static [&'static str] = Box::leak(v.clone().into_boxed_slice());
    m.insert(v, l);
    l
}

/// Reads a schema from words: `U8`, `str`, `opt X`, `seq - X`, `seq 3 X`, `tup n X..`, `st n name X..`,
/// `en n name X..`, `rec k`. Numbers may be `pI` or `pI+K` (a parameter), schemas `%I`.
pub fn parse_schema(text: &str, p: &[usize], s: &[Schema]) -> Schema {
    fn num(w: &str, p: &[usize]) -> usize {
        match w.strip_prefix('p') {
            Some(r) => match r.split_once('+') {
                Some((i, k)) => p[i.parse::<usize>().unwrap()].wrapping_add(k.parse().unwrap()),
                None => p[r.parse::<usize>().unwrap()],
            },
            None => w.parse().unwrap(),
        }
    }
    fn go<'t>(it: &mut impl Iterator<Item = &'t str>, p: &[usize], s: &[Schema]) -> Schema {
        use binschema::*;
        let w = it.next().expect("a word");
        if let Some(i) = w.strip_prefix('%') { return s[i.parse::<usize>().unwrap()].clone(); }
        match w {
            "str" => Schema::Str,
            "bytes" => Schema::Bytes,
            "unit" => Schema::Unit,
            "opt" => Schema::Option(Box::new(go(it, p, s))),
            "seq" => { let n = it.next().unwrap(); Schema::Seq(SeqSchema { len: if n == "-" { None } else { Some(num(n, p)) }, inner: Box::new(go(it, p, s)) }) }
            "tup" => { let n = num(it.next().unwrap(), p); Schema::Tuple((0..n).map(|_| go(it, p, s)).collect()) }
            "st" => { let n = num(it.next().unwrap(), p); Schema::Struct((0..n).map(|_| { let name = it.next().unwrap().to_string(); StructSchemaField { name, inner: go(it, p, s) } }).collect()) }
            "en" => { let n = num(it.next().unwrap(), p); Schema::Enum((0..n).map(|_| { let name = it.next().unwrap().to_string(); EnumSchemaVariant { name, inner: go(it, p, s) } }).collect()) }
            "rec" => Schema::Recurse(num(it.next().unwrap(), p)),
            other => Schema::Scalar(*crate::gen::SCALARS.iter().find(|t| format!("{:?}", t) == other).unwrap_or_else(|| panic!("word {}", other))),
        }
    }
    let mut it = text.split_ascii_whitespace();
    let r = go(&mut it, p, s);
    assert!(it.next().is_none(), "words left over");
    r
}

/// Longest path from the root, in layers.
pub fn schema_depth(s: &Schema) -> usize {
    1 + match s {
        Schema::Option(x) => schema_depth(x),
        Schema::Seq(x) => schema_depth(&x.inner),
        Schema::Tuple(x) => x.iter().map(schema_depth).max().unwrap_or(0),
        Schema::Struct(x) => x.iter().map(|f| schema_depth(&f.inner)).max().unwrap_or(0),
        Schema::Enum(x) => x.iter().map(|f| schema_depth(&f.inner)).max().unwrap_or(0),
        _ => 0,
    }
}
