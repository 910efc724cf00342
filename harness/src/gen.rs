//! Generators of schemas, values and byte strings. Zero is everywhere the simplest choice.

use crate::engine::{Rng, Src};
use crate::model::*;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField};

pub const SCALARS: [ScalarType; 14] = [
    ScalarType::U8, ScalarType::U16, ScalarType::U32, ScalarType::U64, ScalarType::U128,
    ScalarType::I8, ScalarType::I16, ScalarType::I32, ScalarType::I64, ScalarType::I128,
    ScalarType::F32, ScalarType::F64, ScalarType::Char, ScalarType::Bool,
];

// ---------------------------------------------------------------- names and text

pub const NAMES: [&str; 24] = [
    "a", "b", "c", "x", "value", "left", "right", "name", "inner", "Foo", "Bar", "Leaf", "Branch", "len",
    "", "A", "type", "r#type", "a b", "ünï", "日本", "\"q\"\\", "line\nbreak", "a_rather_long_field_name_0123456789",
];

/// Names of single-byte characters without quotes or escapes.
pub fn plain_name(src: &mut Src) -> String {
    let i = src.idx(15);
    if i == 14 { return src.dict_word().unwrap_or("a").to_string(); }
    let mut s = NAMES[i].to_string();
    if src.chance(1, 6) { s.push_str(&src.below(100).to_string()); }
    s
}

pub fn name(src: &mut Src) -> String {
    match src.weighted(&[12, 4, 1, 1, 1]) {
        4 => src.dict_word().unwrap_or("a").to_string(),
        0 => NAMES[src.idx(NAMES.len())].to_string(),
        1 => { let mut s = NAMES[src.idx(8)].to_string(); s.push_str(&src.below(1000).to_string()); s }
        2 => text(src, 40),
        _ => { let n = *src.pick(&[127usize, 128, 129, 300]); "n".repeat(n) }
    }
}

/// A name that differs from `n` only a little.
pub fn near_name(src: &mut Src, n: &str) -> String {
    let cs: Vec<char> = n.chars().collect();
    let at = |src: &mut Src| src.idx(cs.len().max(1));
    let r = match src.idx(20) {
        0 => format!("{}_", n),
        1 => { let mut s = n.to_string(); s.pop(); s }
        2 => String::new(),
        3 => match n.strip_prefix("r#") { Some(x) => x.to_string(), None => format!("r#{}", n) },
        4 => { let k = at(src); cs.iter().enumerate().map(|(i, c)| if i == k { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { *c }).collect() }
        5 => n.to_uppercase(),
        6 => n.to_lowercase(),
        7 => cs.iter().skip(1).collect(),
        8 => format!(" {}", n),
        9 => format!("{} ", n),
        10 => { let mut v = cs.clone(); let k = at(src); if k + 1 < v.len() { v.swap(k, k + 1); } v.into_iter().collect() }
        11 => { let mut v = cs.clone(); let k = at(src); if k < v.len() { v[k] = if v[k] == 'q' { 'p' } else { 'q' }; } v.into_iter().collect() }
        12 => cs.iter().rev().collect(),
        13 => format!("{}\0", n),
        14 => format!("{}{}", n, n),
        15 => { let k = at(src); let mut v = cs.clone(); v.truncate(k); v.into_iter().collect() }
        16 => n.replace('_', "-"),
        17 => n.trim().trim_matches('_').to_string(),
        18 => match n.trim_end_matches(|c: char| c.is_ascii_digit()) { x if x.len() < n.len() => x.to_string(), _ => format!("{}0", n) },
        _ => n.replace('ü', "u\u{308}").replace('ï', "i\u{308}"),
    };
    if r == n { format!("{}x", n) } else { r }
}

pub fn gen_char(src: &mut Src) -> char {
    match src.weighted(&[18, 12, 6, 6, 1]) {
        4 => src.dict(0x10ffff).and_then(|x| char::from_u32(x as u32)).unwrap_or('a'),
        0 => (b'a' + src.below(26) as u8) as char,
        1 => *src.pick(&['\0', '\u{1}', '\u{3f}', '\u{40}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{3fff}', '\u{4000}',
            '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10fffe}', '\u{10ffff}', '"', '\'', '\\', '\n']),
        2 => char::from_u32(src.below(0x3000) as u32).unwrap(),
        _ => {
            let n = src.below(0x110000 - 0x800) as u32;
            char::from_u32(if n >= 0xd800 { n + 0x800 } else { n }).unwrap()
        }
    }
}

/// A string; `cap` bounds the characters of the short kind.
pub fn text(src: &mut Src, cap: u64) -> String {
    let n = src.below(cap + 1);
    (0..n).map(|_| gen_char(src)).collect()
}

/// Long content expanded from one draw.
fn long_len(src: &mut Src) -> usize {
    if let Some(n) = src.maybe_dict(1, 8, 140_000) { return n as usize; }
    match src.weighted(&[10, 8, 5, 4, 1]) {
        0 => src.range(20, 200) as usize,
        1 => *src.pick(&[63usize, 64, 65, 126, 127, 128, 129, 255, 256, 257]),
        2 => src.range(200, 3000) as usize,
        3 => *src.pick(&[1023usize, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385]),
        _ => *src.pick(&[32768usize, 65535, 65536, 65537, 100_000, 131072]),
    }
}

fn fill(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n { v.extend(r.next().to_le_bytes()); }
    v.truncate(n);
    v
}

pub fn gen_string(src: &mut Src) -> String {
    match src.weighted(&[10, 30, 3, 2, 1]) {
        0 => String::new(),
        1 => text(src, 12),
        4 => src.dict_word().unwrap_or("").to_string(),
        2 => {
            let n = long_len(src);
            let b = fill(src.raw(), n);
            b.iter().map(|c| (b' ' + c % 95) as char).collect()
        }
        _ => {
            // exactly n bytes of multi-byte text
            let n = long_len(src);
            let mut s = String::new();
            let mut r = Rng(src.raw());
            while s.len() < n {
                let c = ['é', '日', '😀', 'x'][(r.next() % 4) as usize];
                if s.len() + c.len_utf8() <= n { s.push(c) } else { s.push('y') }
            }
            s
        }
    }
}

pub fn gen_bytes(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[10, 30, 4]) {
        0 => Vec::new(),
        1 => { let n = src.below(14); (0..n).map(|_| byte(src)).collect() }
        _ => { let n = long_len(src); fill(src.raw(), n) }
    }
}

pub fn byte(src: &mut Src) -> u8 {
    match src.weighted(&[12, 12, 8, 1]) {
        3 => src.dict(255).unwrap_or(0) as u8,
        0 => src.below(4) as u8,
        1 => src.below(256) as u8,
        _ => *src.pick(&[0u8, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff]),
    }
}

// ---------------------------------------------------------------- numbers

/// An unsigned number of at most `bits` bits, biased to lengths and boundaries.
pub fn gen_uint(src: &mut Src, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match src.weighted(&[4, 6, 5, 4, 1]) {
        4 => src.dict(max).unwrap_or(0),
        0 => src.below(200) as u128 & max,
        1 => {
            // around a power of two
            let k = src.below(bits as u64 + 1) as u32;
            let p = if k >= 128 { 0 } else { 1u128 << k };
            let d = src.below(5) as u128;
            p.wrapping_add(d).wrapping_sub(2) & max
        }
        2 => {
            let k = src.below(bits as u64 + 1) as u32;
            let r = ((src.raw() as u128) << 64) | src.raw() as u128;
            if k == 0 { 0 } else { (r >> (128 - k)) & max }
        }
        _ => max - src.below(3) as u128,
    }
}

pub fn gen_sint(src: &mut Src, bits: u32) -> i128 {
    // sign-extend a number of `bits` bits
    let mag = if src.chance(1, 8) { gen_uint(src, bits) } else { gen_uint(src, bits - 1) };
    let neg = src.chance(1, 2);
    let v = if neg { !mag } else { mag };
    ((v << (128 - bits)) as i128) >> (128 - bits)
}

pub fn gen_f32(src: &mut Src) -> f32 {
    f32::from_bits(match src.weighted(&[9, 12, 12, 1]) {
        3 => match src.dict(u32::MAX as u128) { Some(x) if src.chance(1, 2) => (x as f32).to_bits(), Some(x) => x as u32, None => 0 },
        0 => (src.below(100) as f32 / 4.0).to_bits(),
        1 => *src.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7fa0_0001, 0xffff_ffff, 0x7f80_0001, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff]),
        _ => src.raw() as u32,
    })
}

pub fn gen_f64(src: &mut Src) -> f64 {
    f64::from_bits(match src.weighted(&[9, 12, 12, 1]) {
        3 => match src.dict(u64::MAX as u128) { Some(x) if src.chance(1, 2) => (x as f64).to_bits(), Some(x) => x as u64, None => 0 },
        0 => (src.below(100) as f64 / 4.0).to_bits(),
        1 => *src.pick(&[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48, (0x7ff0 << 48) + 1, u64::MAX, 0x7ff4_0000_dead_beef, 1, (0x10 << 48) - 1, 0x10 << 48, (0x7ff0 << 48) - 1, (0xfff0 << 48) - 1]),
        _ => src.raw(),
    })
}

pub fn gen_scalar(src: &mut Src, st: ScalarType) -> ScalarValue {
    match st {
        ScalarType::U8 => ScalarValue::U8(gen_uint(src, 8) as u8),
        ScalarType::U16 => ScalarValue::U16(gen_uint(src, 16) as u16),
        ScalarType::U32 => ScalarValue::U32(gen_uint(src, 32) as u32),
        ScalarType::U64 => ScalarValue::U64(gen_uint(src, 64) as u64),
        ScalarType::U128 => ScalarValue::U128(gen_uint(src, 128)),
        ScalarType::I8 => ScalarValue::I8(gen_sint(src, 8) as i8),
        ScalarType::I16 => ScalarValue::I16(gen_sint(src, 16) as i16),
        ScalarType::I32 => ScalarValue::I32(gen_sint(src, 32) as i32),
        ScalarType::I64 => ScalarValue::I64(gen_sint(src, 64) as i64),
        ScalarType::I128 => ScalarValue::I128(gen_sint(src, 128)),
        ScalarType::F32 => ScalarValue::F32(gen_f32(src)),
        ScalarType::F64 => ScalarValue::F64(gen_f64(src)),
        ScalarType::Char => ScalarValue::Char(gen_char(src)),
        ScalarType::Bool => ScalarValue::Bool(src.chance(1, 2)),
    }
}

// ---------------------------------------------------------------- schemas

#[derive(Clone)]
pub struct SchemaCfg {
    /// recursion levels of zero and beyond the root may appear
    pub illegal: bool,
    pub plain_names: bool,
    /// bias towards recursion
    pub recursive: bool,
    /// allow the rare very wide and very deep shapes
    pub extreme: bool,
    /// no schema without values, and no huge smallest value
    pub inhabited: bool,
    pub max_nodes: i64,
}

impl Default for SchemaCfg {
    fn default() -> Self {
        SchemaCfg { illegal: false, plain_names: false, recursive: false, extreme: true, inhabited: true, max_nodes: 0 }
    }
}

struct Sg<'a> {
    src: &'a mut Src,
    cfg: SchemaCfg,
    budget: i64,
    mult: u64,
}

impl<'a> Sg<'a> {
    fn nm(&mut self) -> String {
        if self.cfg.plain_names { plain_name(self.src) } else { name(self.src) }
    }

    fn leaf(&mut self) -> Schema {
        match self.src.weighted(&[8, 2, 3, 2]) {
            0 => Schema::Scalar(SCALARS[self.src.idx(14)]),
            1 => Schema::Unit,
            2 => Schema::Str,
            _ => Schema::Bytes,
        }
    }

    fn level(&mut self, depth: usize) -> usize {
        if self.cfg.illegal && self.src.chance(1, 4) {
            return match self.src.weighted(&[2, 4, 1]) {
                0 => 0,
                1 => depth + 1 + self.src.idx(3),
                _ => *self.src.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 1000]),
            };
        }
        if depth == 0 { return 1; }
        match self.src.weighted(&[6, 3, 3, 1]) {
            0 => 1 + self.src.idx(depth),
            1 => depth,
            3 => (self.src.dict(depth as u128).unwrap_or(1) as usize).max(1),
            _ => 1,
        }
    }

    fn arity(&mut self) -> usize {
        if let Some(n) = self.src.maybe_dict(1, 60, 64) { return n as usize; }
        match self.src.weighted(&[2, 3, 6, 4, 2, 1]) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            4 => 4 + self.src.idx(3),
            _ => 8 + self.src.idx(8),
        }
    }

    fn node(&mut self, depth: usize) -> Schema {
        self.budget -= 1;
        let can_recurse = depth > 0 || (self.cfg.illegal && self.src.chance(1, 10));
        let rec_w = if !can_recurse { 0 } else if self.cfg.recursive { 10 } else { 3 };
        if self.budget <= 0 || depth > 40 {
            return if rec_w > 0 && self.src.chance(rec_w, 12) { Schema::Recurse(self.level(depth)) } else { self.leaf() };
        }
        let branch = if depth == 0 { 30 } else if depth < 4 { 14 } else { 7 };
        match self.src.weighted(&[8, branch, rec_w]) {
            0 => self.leaf(),
            1 => match self.src.weighted(&[4, 3, 2, 4, 4, 5]) {
                0 => Schema::Option(Box::new(self.node(depth + 1))),
                1 => Schema::Seq(SeqSchema { len: None, inner: Box::new(self.node(depth + 1)) }),
                2 => {
                    let cap = (300 / self.mult).max(1);
                    let n = match self.src.weighted(&[6, 6, 18, 3, 2]) {
                        4 => self.src.dict(cap as u128).unwrap_or(2) as u64,
                        0 => 1,
                        1 => 0,
                        2 => self.src.below(5.min(cap + 1)),
                        _ => self.src.below(cap + 1),
                    };
                    let m = self.mult;
                    self.mult *= n.max(1);
                    let inner = Box::new(self.node(depth + 1));
                    self.mult = m;
                    Schema::Seq(SeqSchema { len: Some(n as usize), inner })
                }
                3 => {
                    let n = self.arity();
                    Schema::Tuple((0..n).map(|_| self.node(depth + 1)).collect())
                }
                4 => {
                    let n = self.arity();
                    Schema::Struct((0..n).map(|_| StructSchemaField { name: self.nm(), inner: self.node(depth + 1) }).collect())
                }
                _ => {
                    let mut n = self.arity();
                    if n == 0 && !self.src.chance(1, 3) { n = 2; }
                    Schema::Enum((0..n).map(|_| EnumSchemaVariant { name: self.nm(), inner: self.node(depth + 1) }).collect())
                }
            },
            _ => Schema::Recurse(self.level(depth)),
        }
    }

    fn wide_enum(&mut self) -> Schema {
        let n = match self.src.weighted(&[60, 20, 1, 15]) {
            3 => (self.src.dict(5000).unwrap_or(300) as usize).max(1),
            0 => *self.src.pick(&[255usize, 256, 257, 258, 300]),
            1 => 100 + self.src.idx(600),
            _ => *self.src.pick(&[65535usize, 65536, 65537, 65800]),
        };
        let special = match self.src.maybe_dict(1, 6, n as u128 - 1) { Some(x) => x as usize, None => self.src.idx(n) };
        let inner = self.leaf();
        Schema::Enum((0..n).map(|i| EnumSchemaVariant {
            name: if n > 2000 { String::new() } else { format!("v{}", i) },
            inner: if i == special || i == n - 1 { inner.clone() } else { Schema::Unit },
        }).collect())
    }

    fn extreme(&mut self) -> Schema {
        match self.src.weighted(&[3, 1, 2, 1]) {
            0 => {
                let e = self.wide_enum();
                match self.src.idx(4) {
                    0 => e,
                    1 => Schema::Seq(SeqSchema { len: None, inner: Box::new(e) }),
                    2 => Schema::Tuple(vec![Schema::Scalar(ScalarType::U8), e, Schema::Scalar(ScalarType::U8)]),
                    _ => Schema::Option(Box::new(e)),
                }
            }
            1 => {
                let mut n = *self.src.pick(&[129usize, 256, 257, 400]);
                if let Some(x) = self.src.maybe_dict(1, 4, 1000) { n = x as usize; }
                let inner = self.leaf();
                if self.src.chance(1, 2) {
                    Schema::Struct((0..n).map(|i| StructSchemaField { name: format!("f{}", i), inner: inner.clone() }).collect())
                } else {
                    Schema::Tuple(vec![inner; n])
                }
            }
            2 => {
                // deep chain of single-child layers
                let mut n = *self.src.pick(&[33usize, 33, 40, 64, 64, 65, 65, 129, 129, 260]);
                if let Some(x) = self.src.maybe_dict(1, 4, 400) { n = (x as usize).max(1); }
                let mut s = if self.src.chance(1, 2) { Schema::Recurse(1 + self.src.idx(n)) } else { self.leaf() };
                let k = self.src.idx(5);
                for i in 0..n {
                    s = match (k + i / 7) % 5 {
                        0 => Schema::Option(Box::new(s)),
                        1 => Schema::Tuple(vec![s]),
                        2 => Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]),
                        3 => Schema::Enum(vec![EnumSchemaVariant { name: "z".into(), inner: Schema::Unit }, EnumSchemaVariant { name: "s".into(), inner: s }]),
                        _ => Schema::Seq(SeqSchema { len: None, inner: Box::new(s) }),
                    };
                }
                s
            }
            _ => {
                let mut n = *self.src.pick(&[127usize, 128, 255, 256, 1000, 2000]);
                if let Some(x) = self.src.maybe_dict(1, 4, 5000) { n = x as usize; }
                let inner = self.leaf();
                Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(inner) })
            }
        }
    }
}

/// Puts an option around every recurse and gives empty enums a variant, which makes any schema inhabited.
fn repair(s: &mut Schema) {
    match s {
        Schema::Recurse(n) => *s = Schema::Option(Box::new(Schema::Recurse(n.saturating_add(1)))),
        Schema::Option(i) => if !matches!(**i, Schema::Recurse(_)) { repair(i) },
        Schema::Seq(q) => {
            if q.len.is_none() && matches!(*q.inner, Schema::Recurse(_)) { return; }
            repair(&mut q.inner)
        }
        Schema::Tuple(v) => v.iter_mut().for_each(repair),
        Schema::Struct(v) => v.iter_mut().for_each(|f| repair(&mut f.inner)),
        Schema::Enum(v) => {
            v.iter_mut().for_each(|f| repair(&mut f.inner));
            if v.is_empty() { v.push(EnumSchemaVariant { name: "only".into(), inner: Schema::Unit }); }
        }
        _ => {}
    }
}

pub fn gen_schema(src: &mut Src, cfg: &SchemaCfg) -> Schema {
    let budget = if cfg.max_nodes > 0 {
        1 + src.below(cfg.max_nodes as u64) as i64
    } else {
        match src.weighted(&[5, 8, 4, 1]) {
            0 => 3,
            1 => 10,
            2 => 30,
            _ => 100,
        }
    };
    let extreme = cfg.extreme && src.chance(1, 60);
    let mut g = Sg { src, cfg: cfg.clone(), budget, mult: 1 };
    let mut s = if extreme { g.extreme() } else { g.node(0) };
    if cfg.inhabited {
        let bad = |s: &Schema| { let a = Arena::make(s, cfg.illegal); a.root_min_nodes() > 2500 };
        if bad(&s) {
            repair(&mut s);
            if bad(&s) {
                s = Schema::Tuple(vec![Schema::Option(Box::new(s))]);
            }
        }
    }
    s
}

/// Inserts a recurse that is certainly illegal or legal-but-deep somewhere? (used by C10)
pub fn count_recurse(s: &Schema) -> usize {
    match s {
        Schema::Recurse(_) => 1,
        Schema::Option(i) => count_recurse(i),
        Schema::Seq(q) => count_recurse(&q.inner),
        Schema::Tuple(v) => v.iter().map(count_recurse).sum(),
        Schema::Struct(v) => v.iter().map(|f| count_recurse(&f.inner)).sum(),
        Schema::Enum(v) => v.iter().map(|f| count_recurse(&f.inner)).sum(),
        _ => 0,
    }
}

// ---------------------------------------------------------------- values

pub struct Vg {
    pub fuel: i64,
    /// probability (of 10) of going on: some, longer sequences, deeper variants
    pub eager: u64,
    /// how often the value being made will be repeated
    pub mult: u64,
    /// bytes of long text left
    pub bulk: i64,
    /// nodes left for parts that are there by choice
    pub nodes: i64,
}

impl Vg {
    pub fn draw(src: &mut Src) -> Vg {
        let fuel = match src.weighted(&[6, 8, 3, 1]) { 0 => 8, 1 => 40, 2 => 200, _ => 800 };
        let eager = *src.pick(&[3, 5, 7, 9, 10]);
        Vg { fuel, eager, mult: 1, bulk: 400_000, nodes: 20_000 }
    }

    /// Whether `n` more values of `r` are affordable; pays for them if so.
    fn pay(&mut self, a: &Arena, r: Ref, n: u64) -> bool {
        if !a.inhabited(r) { return false; }
        let cost = a.min_nodes(r).saturating_mul(self.mult).saturating_mul(n);
        if cost as u128 > self.nodes.max(0) as u128 { return false; }
        self.nodes -= cost as i64;
        true
    }

    /// A conforming value of an inhabited node.
    pub fn value(&mut self, src: &mut Src, a: &Arena, r: Ref) -> Value {
        let i = match r { Ref::Node(i) => i, Ref::Illegal => return any_value(src, 1) };
        self.fuel -= 1;
        let ok = |r: Ref| a.inhabited(r);
        match &a.nodes[i].kind {
            Kind::Scalar(st) => Value::Scalar(gen_scalar(src, *st)),
            Kind::Str => Value::Str(if self.bulk > 0 {
                let s = gen_string(src);
                if s.len() as u64 * self.mult > 300_000 { s.chars().take(5).collect() } else { self.bulk -= s.len() as i64 * self.mult as i64; s }
            } else { text(src, 6) }),
            Kind::Bytes => Value::Bytes(if self.bulk > 0 {
                let mut s = gen_bytes(src);
                if s.len() as u64 * self.mult > 300_000 { s.truncate(5); }
                self.bulk -= s.len() as i64 * self.mult as i64;
                s
            } else { vec![byte(src)] }),
            Kind::Unit => Value::Unit,
            Kind::Option(c) => {
                if self.fuel > 0 && ok(*c) && src.chance(self.eager, 11) && self.pay(a, *c, 1) {
                    Value::Option(Some(Box::new(self.value(src, a, *c))))
                } else { Value::Option(None) }
            }
            Kind::Seq(Some(n), c) => {
                if *n > 40 {
                    let m = self.mult;
                    let fuel = self.fuel - *n as i64 / 8;
                    self.mult = m.saturating_mul(*n as u64);
                    self.fuel = if self.mult > 400 { 0 } else { self.fuel.min(12) };
                    let v = self.value(src, a, *c);
                    let w = self.value(src, a, *c);
                    self.mult = m;
                    self.fuel = fuel;
                    Value::FixedLenSeq((0..*n).map(|k| if k % 3 == 1 { w.clone() } else { v.clone() }).collect())
                } else {
                    Value::FixedLenSeq((0..*n).map(|_| self.value(src, a, *c)).collect())
                }
            }
            Kind::Seq(None, c) => {
                if !ok(*c) || self.fuel <= 0 { return Value::VarLenSeq(vec![]); }
                let n = match src.weighted(&[3, self.eager, self.eager / 2, 1]) {
                    0 => 0,
                    1 => 1 + src.below(2),
                    2 => 2 + src.below(6),
                    _ => {
                        let leafy = match *c { Ref::Node(k) => matches!(a.nodes[k].kind, Kind::Scalar(_) | Kind::Unit), Ref::Illegal => false };
                        if leafy && self.mult == 1 && src.chance(1, 3) {
                            let n = match src.weighted(&[8, 1, 2]) {
                                2 => src.dict(20_000).unwrap_or(300) as u64,
                                0 => *src.pick(&[63u64, 64, 126, 127, 128, 129, 255, 256, 300]),
                                _ => *src.pick(&[4096u64, 16383, 16384, 16385]),
                            };
                            let v = self.value(src, a, *c);
                            let w = self.value(src, a, *c);
                            self.fuel -= n as i64 / 8;
                            return Value::VarLenSeq((0..n).map(|k| if k % 3 == 1 { w.clone() } else { v.clone() }).collect());
                        }
                        8 + src.below(20)
                    }
                };
                let mut n = n;
                while n > 0 && !self.pay(a, *c, n) { n /= 2; }
                Value::VarLenSeq((0..n).map(|_| self.value(src, a, *c)).collect())
            }
            Kind::Tuple(cs) => Value::Tuple(cs.iter().map(|c| self.value(src, a, *c)).collect()),
            Kind::Struct(cs) => Value::Struct(cs.iter().map(|(n, c)| StructValueField { name: n.clone(), value: self.value(src, a, *c) }).collect()),
            Kind::Enum(cs) => {
                let mut o = 0;
                let mut chosen = false;
                if self.fuel > 0 {
                    o = src.idx(cs.len());
                    if cs.len() > 40 && src.chance(1, 2) { o = cs.len() - 1 - src.idx(3); }
                    else if cs.len() > 7 { if let Some(x) = src.maybe_dict(1, 4, cs.len() as u128 - 1) { o = x as usize; } }
                    let mut tries = 0;
                    while !ok(cs[o].1) && tries < cs.len() { o = (o + 1) % cs.len(); tries += 1; }
                    chosen = self.pay(a, cs[o].1, 1);
                }
                if !chosen {
                    // the smallest, the lowest among equals: this always ends
                    o = (0..cs.len()).min_by_key(|o| (a.min_nodes(cs[*o].1), a.min_height(cs[*o].1))).unwrap();
                }
                Value::Enum(EnumValue { variant_ord: o, variant_name: cs[o].0.clone(), value: Box::new(self.value(src, a, cs[o].1)) })
            }
        }
    }
}

pub fn gen_value(src: &mut Src, a: &Arena) -> Value {
    let mut g = Vg::draw(src);
    g.value(src, a, a.root)
}

// ---------------------------------------------------------------- corrupted messages

#[derive(Debug, Clone, PartialEq)]
pub enum Atom { Fixed, Uint(u32), Sint(u32), Char, Bool, Someness, Ord(usize), Len, StrBody, BytesBody }

pub fn atoms(a: &Arena, r: Ref, v: &Value, out: &mut Vec<(Atom, Vec<u8>)>) {
    let Ref::Node(i) = r else { return };
    match (&a.nodes[i].kind, v) {
        (Kind::Scalar(st), Value::Scalar(s)) => {
            let k = match st {
                ScalarType::U32 => Atom::Uint(32), ScalarType::U64 => Atom::Uint(64), ScalarType::U128 => Atom::Uint(128),
                ScalarType::I32 => Atom::Sint(32), ScalarType::I64 => Atom::Sint(64), ScalarType::I128 => Atom::Sint(128),
                ScalarType::Char => Atom::Char, ScalarType::Bool => Atom::Bool,
                _ => Atom::Fixed,
            };
            out.push((k, scalar_bytes(s)));
        }
        (Kind::Str, Value::Str(s)) => { out.push((Atom::Len, uint_bytes(s.len() as u128))); out.push((Atom::StrBody, s.as_bytes().to_vec())); }
        (Kind::Bytes, Value::Bytes(s)) => { out.push((Atom::Len, uint_bytes(s.len() as u128))); out.push((Atom::BytesBody, s.clone())); }
        (Kind::Option(_), Value::Option(None)) => out.push((Atom::Someness, vec![0])),
        (Kind::Option(c), Value::Option(Some(x))) => { out.push((Atom::Someness, vec![1])); atoms(a, *c, x, out); }
        (Kind::Seq(n, c), Value::FixedLenSeq(xs)) | (Kind::Seq(n, c), Value::VarLenSeq(xs)) => {
            if n.is_none() { out.push((Atom::Len, uint_bytes(xs.len() as u128))); }
            for x in xs { atoms(a, *c, x, out); }
        }
        (Kind::Tuple(cs), Value::Tuple(xs)) => for (c, x) in cs.iter().zip(xs) { atoms(a, *c, x, out); },
        (Kind::Struct(cs), Value::Struct(xs)) => for (c, x) in cs.iter().zip(xs) { atoms(a, c.1, &x.value, out); },
        (Kind::Enum(cs), Value::Enum(e)) => {
            out.push((Atom::Ord(cs.len()), ord_bytes(e.variant_ord, cs.len())));
            atoms(a, cs[e.variant_ord].1, &e.value, out);
        }
        _ => {}
    }
}

/// Pads a var-len integer with empty groups up to `len` bytes.
pub fn pad_varlen(b: &[u8], len: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.len() < len {
        *v.last_mut().unwrap() |= 128;
        v.push(0);
    }
    v
}

fn tamper_varlen(src: &mut Src, orig: &[u8], bits: u32, signed: bool) -> Vec<u8> {
    match src.weighted(&[4, 3, 3, 3, 2]) {
        0 => { let n = 1 + src.idx(24); pad_varlen(orig, n) }
        1 => {
            // just outside the range, or far outside
            let n: u128 = if bits >= 127 { u128::MAX } else {
                let p = 1u128 << (if signed { bits - 1 } else { bits });
                match src.idx(3) { 0 => p, 1 => p + src.below(100) as u128, _ => p.wrapping_mul(1 + src.below(1000) as u128) }
            };
            if signed {
                let v = if src.chance(1, 2) { !(n as i128) } else { n as i128 };
                sint_bytes(v)
            } else { uint_bytes(n) }
        }
        2 => {
            // random groups of any number
            let n = 1 + src.idx(22);
            (0..n).map(|i| { let b = byte(src); if i + 1 == n { b & 127 } else { b | 128 } }).collect()
        }
        3 => {
            // 18 to 20 bytes with bits at the top
            let n = 18 + src.idx(3);
            let mut v = vec![0x80u8 | src.below(128) as u8; n];
            v[n - 1] = src.below(128) as u8;
            v
        }
        _ => vec![0xff; 1 + src.idx(25)],
    }
}

const BAD_UTF8: [&[u8]; 12] = [
    &[0x80], &[0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xc3],
    &[0xf0, 0x9f, 0x98], &[0xe0, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc3, 0x28], &[0xed, 0xbf, 0xbf],
];

/// A corrupted message; says which kinds of corruption were applied.
pub fn tampered(src: &mut Src, a: &Arena, v: &Value) -> (Vec<u8>, &'static str) {
    let mut at = Vec::new();
    atoms(a, a.root, v, &mut at);
    let mut what = "semantic";
    let n = 1 + src.below(2);
    for _ in 0..n {
        let targets: Vec<usize> = (0..at.len()).filter(|i| at[*i].0 != Atom::Fixed && at[*i].0 != Atom::BytesBody).collect();
        if targets.is_empty() { what = "bytes"; break; }
        let t = targets[src.idx(targets.len())];
        let orig = at[t].1.clone();
        at[t].1 = match at[t].0.clone() {
            Atom::Uint(b) => tamper_varlen(src, &orig, b, false),
            Atom::Sint(b) => tamper_varlen(src, &orig, b, true),
            Atom::Char => match src.idx(4) {
                0 => uint_bytes(0xd800 + src.below(0x800) as u128),
                1 => uint_bytes(0x110000 + src.below(100) as u128),
                2 => uint_bytes((1u128 << 32) + src.below(1000) as u128),
                _ => tamper_varlen(src, &orig, 21, false),
            },
            Atom::Bool | Atom::Someness => match src.idx(3) { 0 => vec![2], 1 => vec![2 + src.below(254) as u8], _ => vec![*src.pick(&[0x80u8, 0x81, 0xff, 0xfe])] },
            Atom::Ord(n) => {
                let k = ord_len(n);
                match src.idx(3) {
                    0 => (0..k).map(|i| (n >> (8 * i)) as u8).collect(),
                    1 => vec![0xff; k],
                    _ => (0..k).map(|_| byte(src)).collect(),
                }
            }
            Atom::Len => match src.idx(5) {
                0 => { let x = src.below(40); uint_bytes(x as u128) }
                1 => { let k = src.range(10, 62); uint_bytes((1u128 << k) + src.below(3) as u128) }
                2 => uint_bytes(*src.pick(&[u64::MAX as u128, i64::MAX as u128, i64::MAX as u128 + 1, u64::MAX as u128 + 1, u128::MAX, u32::MAX as u128])),
                3 => { let n = 1 + src.idx(21); pad_varlen(&orig, n) }
                _ => tamper_varlen(src, &orig, 64, false),
            },
            Atom::StrBody => {
                let mut b = orig.clone();
                let bad = BAD_UTF8[src.idx(BAD_UTF8.len())];
                let at_ = src.idx(b.len() + 1);
                if src.chance(1, 2) && b.len() >= at_ + bad.len() {
                    b[at_..at_ + bad.len()].copy_from_slice(bad);
                } else {
                    b.splice(at_..at_, bad.iter().copied());
                }
                if t > 0 { at[t - 1].1 = uint_bytes(b.len() as u128); }
                b
            }
            Atom::Fixed | Atom::BytesBody => unreachable!(),
        };
    }
    let mut bytes: Vec<u8> = at.into_iter().flat_map(|x| x.1).collect();
    if what == "bytes" || src.chance(1, 4) {
        what = "bytes";
        mutate_bytes(src, &mut bytes);
    }
    (bytes, what)
}

pub fn mutate_bytes(src: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + src.below(3);
    for _ in 0..n {
        match src.idx(6) {
            0 => { let k = src.idx(b.len() + 1); b.truncate(k); }
            1 => if !b.is_empty() { let k = src.idx(b.len()); b[k] = byte(src); },
            2 => if !b.is_empty() { let k = src.idx(b.len()); b[k] ^= 1 << src.idx(8); },
            3 => { let k = src.idx(b.len() + 1); let x = byte(src); b.insert(k, x); }
            4 => if !b.is_empty() { let k = src.idx(b.len()); b.remove(k); },
            _ => { let k = src.below(6); for _ in 0..k { let x = byte(src); b.push(x); } }
        }
    }
}

pub fn random_bytes(src: &mut Src) -> Vec<u8> {
    let n = match src.weighted(&[4, 4, 1]) { 0 => src.below(8), 1 => src.below(40), _ => src.below(300) };
    (0..n).map(|_| byte(src)).collect()
}

// ---------------------------------------------------------------- values that may not conform

/// Changes one random place of a value: kind, length, name, index, order.
pub fn mutate_value(src: &mut Src, v: &mut Value) {
    let total = count_nodes(v);
    let mut target = src.below(total) as i64;
    mut_at(src, v, &mut target);
}

fn mut_at(src: &mut Src, v: &mut Value, t: &mut i64) {
    if *t == 0 {
        *t = -1;
        mutate_here(src, v);
        return;
    }
    *t -= 1;
    match v {
        Value::Option(Some(x)) => mut_at(src, x, t),
        Value::FixedLenSeq(x) | Value::VarLenSeq(x) | Value::Tuple(x) => for e in x { if *t >= 0 { mut_at(src, e, t) } },
        Value::Struct(x) => for e in x { if *t >= 0 { mut_at(src, &mut e.value, t) } },
        Value::Enum(e) => mut_at(src, &mut e.value, t),
        _ => {}
    }
}

pub fn any_value(src: &mut Src, depth: u32) -> Value {
    let k = if depth == 0 { src.idx(5) } else { src.idx(11) };
    match k {
        0 => Value::Unit,
        1 => Value::Scalar({ let st = SCALARS[src.idx(14)]; gen_scalar(src, st) }),
        2 => Value::Str(text(src, 4)),
        3 => Value::Bytes(vec![1, 2]),
        4 => Value::Option(None),
        5 => Value::Option(Some(Box::new(any_value(src, depth - 1)))),
        6 => { let n = src.below(3); Value::FixedLenSeq((0..n).map(|_| any_value(src, depth - 1)).collect()) }
        7 => { let n = src.below(3); Value::VarLenSeq((0..n).map(|_| any_value(src, depth - 1)).collect()) }
        8 => { let n = src.below(3); Value::Tuple((0..n).map(|_| any_value(src, depth - 1)).collect()) }
        9 => { let n = src.below(3); Value::Struct((0..n).map(|_| StructValueField { name: name(src), value: any_value(src, depth - 1) }).collect()) }
        _ => Value::Enum(EnumValue { variant_ord: src.idx(4), variant_name: name(src), value: Box::new(any_value(src, depth - 1)) }),
    }
}

fn mutate_list(src: &mut Src, x: &mut Vec<Value>) {
    match src.idx(4) {
        0 => if !x.is_empty() { let k = src.idx(x.len()); x.remove(k); },
        1 => { let e = if x.is_empty() || src.chance(1, 3) { any_value(src, 1) } else { x[src.idx(x.len())].clone() }; let k = src.idx(x.len() + 1); x.insert(k, e); }
        2 => if x.len() > 1 { let k = src.idx(x.len() - 1); x.swap(k, k + 1); },
        _ => { x.pop(); }
    }
}

fn mutate_here(src: &mut Src, v: &mut Value) {
    if src.chance(1, 4) { *v = any_value(src, 2); return; }
    if src.chance(1, 8) {
        let inner = v.clone();
        *v = match src.idx(5) {
            0 => Value::Option(Some(Box::new(inner))),
            1 => Value::Tuple(vec![inner]),
            2 => Value::VarLenSeq(vec![inner]),
            3 => Value::FixedLenSeq(vec![inner]),
            _ => Value::Struct(vec![StructValueField { name: "a".into(), value: inner }]),
        };
        return;
    }
    let alt: Option<Value> = match v {
        Value::Scalar(s) => {
            // same number in a neighbouring type where possible
            let st = SCALARS[src.idx(14)];
            let _ = s;
            Some(Value::Scalar(gen_scalar(src, st)))
        }
        Value::Str(s) => Some(Value::Bytes(s.clone().into_bytes())),
        Value::Bytes(s) => Some(match String::from_utf8(s.clone()) { Ok(x) => Value::Str(x), Err(_) => Value::VarLenSeq(s.iter().map(|b| Value::Scalar(ScalarValue::U8(*b))).collect()) }),
        Value::Unit => Some(match src.idx(4) { 0 => Value::Tuple(vec![]), 1 => Value::Struct(vec![]), 2 => Value::VarLenSeq(vec![]), _ => Value::Option(None) }),
        Value::Option(None) => Some(Value::Option(Some(Box::new(any_value(src, 1))))),
        Value::Option(Some(x)) => Some(if src.chance(1, 2) { (**x).clone() } else { Value::Option(Some(Box::new(any_value(src, 1)))) }),
        Value::FixedLenSeq(x) => if src.chance(1, 3) { Some(match src.idx(2) { 0 => Value::VarLenSeq(x.clone()), _ => Value::Tuple(x.clone()) }) } else { mutate_list(src, x); None },
        Value::VarLenSeq(x) => if src.chance(1, 2) { Some(match src.idx(2) { 0 => Value::FixedLenSeq(x.clone()), _ => Value::Tuple(x.clone()) }) } else { mutate_list(src, x); None },
        Value::Tuple(x) => if src.chance(1, 3) {
            Some(match src.idx(3) {
                0 => Value::FixedLenSeq(x.clone()),
                1 => Value::VarLenSeq(x.clone()),
                _ => Value::Struct(x.iter().map(|e| StructValueField { name: "a".into(), value: e.clone() }).collect()),
            })
        } else { mutate_list(src, x); None },
        Value::Struct(x) => {
            match src.idx(7) {
                5 => if x.len() > 1 { let (k, l) = (src.idx(x.len()), src.idx(x.len())); x.swap(k, l); },
                6 => if x.len() > 1 { let (k, l) = (src.idx(x.len()), src.idx(x.len())); let t = x[l].name.clone(); x[l].name = std::mem::replace(&mut x[k].name, t); },
                0 => if !x.is_empty() { let k = src.idx(x.len()); x[k].name = if src.chance(2, 3) { near_name(src, &x[k].name) } else { name(src) }; },
                1 => { x.pop(); }
                2 => if x.len() > 1 { let k = src.idx(x.len() - 1); x.swap(k, k + 1); },
                3 => { let e = if x.is_empty() { StructValueField { name: name(src), value: Value::Unit } } else { x[src.idx(x.len())].clone() }; x.push(e); }
                _ => { let t = Value::Tuple(x.iter().map(|f| f.value.clone()).collect()); *v = t; }
            }
            None
        }
        Value::Enum(e) => {
            match src.idx(5) {
                0 => e.variant_ord = e.variant_ord.wrapping_add(1),
                1 => e.variant_ord = *src.pick(&[0usize, 1, 255, 256, 65536, usize::MAX]),
                2 => e.variant_name = near_name(src, &e.variant_name),
                3 => e.variant_name = name(src),
                _ => { let t = (*e.value).clone(); *v = t; }
            }
            None
        }
    };
    if let Some(a) = alt { *v = a; }
}

/// Changes one enum or struct of a value in a way that the schema suggests: the index or name of
/// another variant, the name of another field.
pub fn mutate_by_schema(src: &mut Src, a: &Arena, v: &mut Value) {
    fn find<'v>(src: &mut Src, a: &Arena, r: Ref, v: &'v mut Value, out: &mut Vec<(usize, &'v mut Value)>) {
        let i = match r { Ref::Node(i) => i, Ref::Illegal => return };
        if out.len() >= 16 { return; }
        match (&a.nodes[i].kind, v) {
            (Kind::Option(c), Value::Option(Some(x))) => find(src, a, *c, x, out),
            (Kind::Seq(_, c), Value::FixedLenSeq(x)) | (Kind::Seq(_, c), Value::VarLenSeq(x)) => for e in x { find(src, a, *c, e, out) },
            (Kind::Tuple(cs), Value::Tuple(x)) => for (e, c) in x.iter_mut().zip(cs) { find(src, a, *c, e, out) },
            (Kind::Struct(cs), v @ Value::Struct(_)) => {
                if !cs.is_empty() && src.chance(1, 2) { out.push((i, v)) }
                else if let Value::Struct(x) = v { for (e, c) in x.iter_mut().zip(cs) { find(src, a, c.1, &mut e.value, out) } }
            }
            (Kind::Enum(cs), v @ Value::Enum(_)) => {
                let leaf = match v { Value::Enum(e) => matches!(*e.value, Value::Unit | Value::Scalar(_)), _ => false };
                if leaf || src.chance(1, 2) { out.push((i, v)) }
                else if let Value::Enum(e) = v { if let Some(c) = cs.get(e.variant_ord) { find(src, a, c.1, &mut e.value, out) } }
            }
            _ => {}
        }
    }
    let mut at = Vec::new();
    find(src, a, a.root, v, &mut at);
    if at.is_empty() { return; }
    let k = src.idx(at.len());
    let (i, v) = at.swap_remove(k);
    match (&a.nodes[i].kind, v) {
        (Kind::Struct(cs), Value::Struct(x)) => if !x.is_empty() {
            let k = src.idx(x.len());
            x[k].name = cs[src.idx(cs.len())].0.clone();
        },
        (Kind::Enum(cs), Value::Enum(e)) => if !cs.is_empty() {
            let o = src.idx(cs.len());
            match src.idx(4) {
                0 => e.variant_name = cs[o].0.clone(),
                1 => e.variant_ord = o,
                2 => { e.variant_ord = o; e.variant_name = cs[o].0.clone(); }
                _ => e.variant_ord = cs.len() + src.idx(3),
            }
        }
        _ => {}
    }
}
