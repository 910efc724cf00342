//! Reference model of the data format, written from FORMAT.txt only. It shares nothing with the
//! code under test but the plain data types `Schema` and `Value`.

use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{ScalarType, Schema};

/// Where a child position of the schema tree leads once recursion is resolved.
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum Ref {
    Node(usize),
    /// recurse of level zero or beyond the root
    Illegal,
}

#[derive(Debug, Clone)]
pub enum Kind {
    Scalar(ScalarType),
    Str,
    Bytes,
    Unit,
    Option(Ref),
    Seq(Option<usize>, Ref),
    Tuple(Vec<Ref>),
    Struct(Vec<(String, Ref)>),
    Enum(Vec<(String, Ref)>),
}

#[derive(Debug, Clone)]
pub struct Node<'s> {
    pub kind: Kind,
    pub schema: &'s Schema,
}

/// The schema tree with every recurse replaced by the node it denotes.
#[derive(Debug, Clone)]
pub struct Arena<'s> {
    pub nodes: Vec<Node<'s>>,
    pub root: Ref,
    /// Number of nodes of the smallest value of each node; u64::MAX if it has none.
    pub min_nodes: Vec<u64>,
    /// Height of the lowest value of each node; u32::MAX if it has none.
    pub min_height: Vec<u32>,
    pub has_illegal: bool,
    pub recursions: usize,
    /// illegal recursion counts as a leaf, as if it had values
    pub lenient: bool,
}

impl<'s> Arena<'s> {
    pub fn new(schema: &'s Schema) -> Arena<'s> { Arena::make(schema, false) }
    pub fn new_lenient(schema: &'s Schema) -> Arena<'s> { Arena::make(schema, true) }
    pub fn make(schema: &'s Schema, lenient: bool) -> Arena<'s> {
        let mut a = Arena { lenient, nodes: Vec::new(), root: Ref::Illegal, min_nodes: vec![], min_height: vec![], has_illegal: false, recursions: 0 };
        let mut path = Vec::new();
        a.root = a.build(schema, &mut path);
        a.minima();
        a
    }

    fn build(&mut self, s: &'s Schema, path: &mut Vec<usize>) -> Ref {
        if let Schema::Recurse(n) = s {
            self.recursions += 1;
            return if *n == 0 || *n > path.len() {
                self.has_illegal = true;
                Ref::Illegal
            } else {
                Ref::Node(path[path.len() - *n])
            };
        }
        let me = self.nodes.len();
        self.nodes.push(Node { kind: Kind::Unit, schema: s });
        path.push(me);
        let kind = match s {
            Schema::Scalar(st) => Kind::Scalar(*st),
            Schema::Str => Kind::Str,
            Schema::Bytes => Kind::Bytes,
            Schema::Unit => Kind::Unit,
            Schema::Option(i) => Kind::Option(self.build(i, path)),
            Schema::Seq(q) => Kind::Seq(q.len, self.build(&q.inner, path)),
            Schema::Tuple(v) => Kind::Tuple(v.iter().map(|i| self.build(i, path)).collect()),
            Schema::Struct(v) => Kind::Struct(v.iter().map(|f| (f.name.clone(), self.build(&f.inner, path))).collect()),
            Schema::Enum(v) => Kind::Enum(v.iter().map(|f| (f.name.clone(), self.build(&f.inner, path))).collect()),
            Schema::Recurse(_) => unreachable!(),
        };
        path.pop();
        self.nodes[me].kind = kind;
        Ref::Node(me)
    }

    fn minima(&mut self) {
        let n = self.nodes.len();
        let mut mn = vec![u64::MAX; n];
        let mut mh = vec![u32::MAX; n];
        loop {
            let mut changed = false;
            for i in (0..n).rev() {
                let gn = |r: &Ref| match r { Ref::Node(k) => mn[*k], Ref::Illegal => if self.lenient { 1 } else { u64::MAX } };
                let gh = |r: &Ref| match r { Ref::Node(k) => mh[*k], Ref::Illegal => if self.lenient { 1 } else { u32::MAX } };
                let sum = |rs: &mut dyn Iterator<Item = &Ref>| {
                    let mut t: u64 = 1;
                    let mut h: u32 = 0;
                    for r in rs {
                        t = t.saturating_add(gn(r));
                        h = h.max(gh(r));
                    }
                    (t, h.saturating_add(1))
                };
                let (t, h) = match &self.nodes[i].kind {
                    Kind::Scalar(_) | Kind::Str | Kind::Bytes | Kind::Unit | Kind::Option(_) => (1, 1),
                    Kind::Seq(None, _) | Kind::Seq(Some(0), _) => (1, 1),
                    Kind::Seq(Some(k), r) => (
                        if gn(r) == u64::MAX { u64::MAX } else { 1u64.saturating_add(gn(r).saturating_mul(*k as u64)) },
                        gh(r).saturating_add(1),
                    ),
                    Kind::Tuple(v) => sum(&mut v.iter()),
                    Kind::Struct(v) => sum(&mut v.iter().map(|x| &x.1)),
                    Kind::Enum(v) => {
                        let t = v.iter().map(|x| gn(&x.1)).min().unwrap_or(u64::MAX);
                        let h = v.iter().map(|x| gh(&x.1)).min().unwrap_or(u32::MAX);
                        (t.saturating_add(1), h.saturating_add(1))
                    }
                };
                if t < mn[i] { mn[i] = t; changed = true; }
                if h < mh[i] { mh[i] = h; changed = true; }
            }
            if !changed { break; }
        }
        self.min_nodes = mn;
        self.min_height = mh;
    }

    pub fn inhabited(&self, r: Ref) -> bool {
        self.min_height(r) != u32::MAX
    }
    pub fn min_height(&self, r: Ref) -> u32 {
        match r { Ref::Node(i) => self.min_height[i], Ref::Illegal => if self.lenient { 1 } else { u32::MAX } }
    }
    pub fn min_nodes(&self, r: Ref) -> u64 {
        match r { Ref::Node(i) => self.min_nodes[i], Ref::Illegal => if self.lenient { 1 } else { u64::MAX } }
    }
    pub fn root_min_nodes(&self) -> u64 {
        self.min_nodes(self.root)
    }
}

// ---------------------------------------------------------------- integers

/// var-len uint: 7 bits per byte, lowest first, top bit set on all but the last.
pub fn uint_bytes(n: u128) -> Vec<u8> {
    let bits = 128 - n.leading_zeros() as usize;
    let groups = ((bits + 6) / 7).max(1);
    (0..groups)
        .map(|g| {
            let v = (n >> (7 * g)) as u8 & 127;
            if g + 1 == groups { v } else { v + 128 }
        })
        .collect()
}

/// var-len sint: as uint, but the first byte holds sign and 6 bits; negatives are complemented.
pub fn sint_bytes(n: i128) -> Vec<u8> {
    let sign = n < 0;
    let m: u128 = if sign { !(n as u128) } else { n as u128 };
    let mut first = (m % 64) as u8;
    if sign { first += 64; }
    let rest = m / 64;
    if rest == 0 { return vec![first]; }
    let mut v = vec![first + 128];
    v.extend(uint_bytes(rest));
    v
}

/// Bytes needed for an ordinal out of `n` variants.
pub fn ord_len(n: usize) -> usize {
    let mut k = 0;
    let mut cap: u128 = 1;
    while cap < n as u128 { cap *= 256; k += 1; }
    k
}

// ---------------------------------------------------------------- encoding

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum RefErr {
    /// the value does not conform to the schema
    Mismatch,
    /// the data end early
    Eof,
    /// the data are not a message of this schema
    Malformed,
    /// a length does not fit the platform
    Limit,
    /// recurse of level zero or beyond the root was reached
    Illegal,
    /// too large or too deep to be tried; the case is discarded
    TooBig,
}

pub fn scalar_type(s: &ScalarValue) -> ScalarType {
    match s {
        ScalarValue::U8(_) => ScalarType::U8, ScalarValue::U16(_) => ScalarType::U16,
        ScalarValue::U32(_) => ScalarType::U32, ScalarValue::U64(_) => ScalarType::U64,
        ScalarValue::U128(_) => ScalarType::U128, ScalarValue::I8(_) => ScalarType::I8,
        ScalarValue::I16(_) => ScalarType::I16, ScalarValue::I32(_) => ScalarType::I32,
        ScalarValue::I64(_) => ScalarType::I64, ScalarValue::I128(_) => ScalarType::I128,
        ScalarValue::F32(_) => ScalarType::F32, ScalarValue::F64(_) => ScalarType::F64,
        ScalarValue::Char(_) => ScalarType::Char, ScalarValue::Bool(_) => ScalarType::Bool,
    }
}

pub fn scalar_bytes(s: &ScalarValue) -> Vec<u8> {
    match *s {
        ScalarValue::U8(n) => vec![n],
        ScalarValue::I8(n) => vec![n as u8],
        ScalarValue::U16(n) => vec![n as u8, (n >> 8) as u8],
        ScalarValue::I16(n) => vec![n as u8, (n >> 8) as u8],
        ScalarValue::U32(n) => uint_bytes(n as u128),
        ScalarValue::U64(n) => uint_bytes(n as u128),
        ScalarValue::U128(n) => uint_bytes(n),
        ScalarValue::I32(n) => sint_bytes(n as i128),
        ScalarValue::I64(n) => sint_bytes(n as i128),
        ScalarValue::I128(n) => sint_bytes(n),
        ScalarValue::F32(n) => { let b = n.to_bits(); (0..4).map(|i| (b >> (8 * i)) as u8).collect() }
        ScalarValue::F64(n) => { let b = n.to_bits(); (0..8).map(|i| (b >> (8 * i)) as u8).collect() }
        ScalarValue::Char(c) => uint_bytes(c as u32 as u128),
        ScalarValue::Bool(b) => vec![if b { 1 } else { 0 }],
    }
}

pub fn ord_bytes(ord: usize, n: usize) -> Vec<u8> {
    (0..ord_len(n)).map(|i| (ord >> (8 * i)) as u8).collect()
}

impl<'s> Arena<'s> {
    pub fn encode(&self, v: &Value) -> Result<Vec<u8>, RefErr> {
        let mut out = Vec::new();
        self.enc(self.root, v, &mut out)?;
        Ok(out)
    }

    pub fn enc(&self, r: Ref, v: &Value, out: &mut Vec<u8>) -> Result<(), RefErr> {
        let i = match r { Ref::Node(i) => i, Ref::Illegal => return Err(RefErr::Illegal) };
        match (&self.nodes[i].kind, v) {
            (Kind::Scalar(st), Value::Scalar(sv)) if *st == scalar_type(sv) => out.extend(scalar_bytes(sv)),
            (Kind::Str, Value::Str(s)) => { out.extend(uint_bytes(s.len() as u128)); out.extend(s.as_bytes()); }
            (Kind::Bytes, Value::Bytes(s)) => { out.extend(uint_bytes(s.len() as u128)); out.extend(s); }
            (Kind::Unit, Value::Unit) => {}
            (Kind::Option(_), Value::Option(None)) => out.push(0),
            (Kind::Option(c), Value::Option(Some(x))) => { out.push(1); self.enc(*c, x, out)?; }
            (Kind::Seq(Some(n), c), Value::FixedLenSeq(xs)) => {
                if *n != xs.len() { return Err(RefErr::Mismatch); }
                for x in xs { self.enc(*c, x, out)?; }
            }
            (Kind::Seq(None, c), Value::VarLenSeq(xs)) => {
                out.extend(uint_bytes(xs.len() as u128));
                for x in xs { self.enc(*c, x, out)?; }
            }
            (Kind::Tuple(cs), Value::Tuple(xs)) => {
                for (k, x) in xs.iter().enumerate() {
                    let c = cs.get(k).ok_or(RefErr::Mismatch)?;
                    self.enc(*c, x, out)?;
                }
                if xs.len() != cs.len() { return Err(RefErr::Mismatch); }
            }
            (Kind::Struct(cs), Value::Struct(xs)) => {
                for (k, x) in xs.iter().enumerate() {
                    let (name, c) = cs.get(k).ok_or(RefErr::Mismatch)?;
                    if *name != x.name { return Err(RefErr::Mismatch); }
                    self.enc(*c, &x.value, out)?;
                }
                if xs.len() != cs.len() { return Err(RefErr::Mismatch); }
            }
            (Kind::Enum(cs), Value::Enum(e)) => {
                let (name, c) = cs.get(e.variant_ord).ok_or(RefErr::Mismatch)?;
                if *name != e.variant_name { return Err(RefErr::Mismatch); }
                if *c == Ref::Illegal { return Err(RefErr::Illegal); }
                out.extend(ord_bytes(e.variant_ord, cs.len()));
                self.enc(*c, &e.value, out)?;
            }
            _ => return Err(RefErr::Mismatch),
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- decoding

pub struct Limits { pub nodes: u64, pub depth: u32 }

impl Default for Limits {
    fn default() -> Self { Limits { nodes: 20_000, depth: 600 } }
}

pub struct RefDec<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub nodes_left: u64,
    pub depth: u32,
    pub max_depth: u32,
    /// a length of absurd size was read
    pub huge: bool,
}

impl<'a> RefDec<'a> {
    pub fn new(data: &'a [u8], l: Limits) -> Self {
        RefDec { data, pos: 0, nodes_left: l.nodes, depth: 0, max_depth: l.depth, huge: false }
    }
    pub fn byte(&mut self) -> Result<u8, RefErr> {
        let b = *self.data.get(self.pos).ok_or(RefErr::Eof)?;
        self.pos += 1;
        Ok(b)
    }
    fn bytes(&mut self, n: usize) -> Result<&'a [u8], RefErr> {
        if self.data.len() - self.pos < n {
            self.pos = self.data.len();
            return Err(RefErr::Eof);
        }
        let r = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    /// At most 19 bytes; bits beyond 128 are dropped, as in the format's reference code.
    pub fn uint(&mut self) -> Result<u128, RefErr> {
        let mut n = 0u128;
        for k in 0..19 {
            let b = self.byte()?;
            n |= ((b & 127) as u128) << (7 * k);
            if b < 128 { return Ok(n); }
        }
        Err(RefErr::Malformed)
    }
    pub fn sint(&mut self) -> Result<i128, RefErr> {
        let b = self.byte()?;
        let sign = b & 64 != 0;
        let mut n = (b & 63) as u128;
        if b >= 128 {
            let mut done = false;
            for k in 0..18 {
                let b = self.byte()?;
                n |= ((b & 127) as u128) << (6 + 7 * k);
                if b < 128 { done = true; break; }
            }
            if !done { return Err(RefErr::Malformed); }
        }
        Ok(if sign { !(n as i128) } else { n as i128 })
    }
    pub fn len(&mut self) -> Result<usize, RefErr> {
        let n = usize::try_from(self.uint()?).map_err(|_| RefErr::Limit)?;
        if n >= 1 << 31 { self.huge = true; }
        Ok(n)
    }
    pub fn scalar(&mut self, st: ScalarType) -> Result<ScalarValue, RefErr> {
        fn m<T, E>(r: Result<T, E>) -> Result<T, RefErr> { r.map_err(|_| RefErr::Malformed) }
        Ok(match st {
            ScalarType::U8 => ScalarValue::U8(self.byte()?),
            ScalarType::I8 => ScalarValue::I8(self.byte()? as i8),
            ScalarType::U16 => { let b = self.bytes(2)?; ScalarValue::U16(b[0] as u16 | (b[1] as u16) << 8) }
            ScalarType::I16 => { let b = self.bytes(2)?; ScalarValue::I16((b[0] as u16 | (b[1] as u16) << 8) as i16) }
            ScalarType::U32 => ScalarValue::U32(m(u32::try_from(self.uint()?))?),
            ScalarType::U64 => ScalarValue::U64(m(u64::try_from(self.uint()?))?),
            ScalarType::U128 => ScalarValue::U128(self.uint()?),
            ScalarType::I32 => ScalarValue::I32(m(i32::try_from(self.sint()?))?),
            ScalarType::I64 => ScalarValue::I64(m(i64::try_from(self.sint()?))?),
            ScalarType::I128 => ScalarValue::I128(self.sint()?),
            ScalarType::F32 => { let b = self.bytes(4)?; ScalarValue::F32(f32::from_bits(b.iter().rev().fold(0, |a, x| a << 8 | *x as u32))) }
            ScalarType::F64 => { let b = self.bytes(8)?; ScalarValue::F64(f64::from_bits(b.iter().rev().fold(0, |a, x| a << 8 | *x as u64))) }
            ScalarType::Char => {
                let n = m(u32::try_from(self.uint()?))?;
                if n > 0x10ffff || (n >= 0xd800 && n < 0xe000) { return Err(RefErr::Malformed); }
                ScalarValue::Char(char::from_u32(n).unwrap())
            }
            ScalarType::Bool => match self.byte()? { 0 => ScalarValue::Bool(false), 1 => ScalarValue::Bool(true), _ => return Err(RefErr::Malformed) },
        })
    }
    pub fn str(&mut self) -> Result<String, RefErr> {
        let n = self.len()?;
        let b = self.bytes(n)?;
        Ok(std::str::from_utf8(b).map_err(|_| RefErr::Malformed)?.to_string())
    }
    pub fn bytestr(&mut self) -> Result<Vec<u8>, RefErr> {
        let n = self.len()?;
        Ok(self.bytes(n)?.to_vec())
    }
    pub fn someness(&mut self) -> Result<bool, RefErr> {
        match self.byte()? { 0 => Ok(false), 1 => Ok(true), _ => Err(RefErr::Malformed) }
    }
    pub fn ord(&mut self, n: usize) -> Result<usize, RefErr> {
        if n == 0 { return Err(RefErr::Malformed); }
        let b = self.bytes(ord_len(n))?;
        let mut o = 0u64;
        for (i, x) in b.iter().enumerate() { o |= (*x as u64) << (8 * i); }
        if o >= n as u64 { return Err(RefErr::Malformed); }
        Ok(o as usize)
    }

    pub fn value(&mut self, a: &Arena, r: Ref) -> Result<Value, RefErr> {
        let i = match r { Ref::Node(i) => i, Ref::Illegal => return Err(RefErr::Illegal) };
        if self.nodes_left == 0 || self.depth >= self.max_depth { return Err(RefErr::TooBig); }
        self.nodes_left -= 1;
        self.depth += 1;
        let v = match &a.nodes[i].kind {
            Kind::Scalar(st) => Value::Scalar(self.scalar(*st)?),
            Kind::Str => Value::Str(self.str()?),
            Kind::Bytes => Value::Bytes(self.bytestr()?),
            Kind::Unit => Value::Unit,
            Kind::Option(c) => {
                if self.someness()? {
                    Value::Option(Some(Box::new(self.value(a, *c)?)))
                } else { Value::Option(None) }
            }
            Kind::Seq(Some(n), c) => Value::FixedLenSeq(self.many(a, *n, *c)?),
            Kind::Seq(None, c) => { let n = self.len()?; Value::VarLenSeq(self.many(a, n, *c)?) }
            Kind::Tuple(cs) => {
                let mut v = Vec::new();
                for c in cs { v.push(self.value(a, *c)?); }
                Value::Tuple(v)
            }
            Kind::Struct(cs) => {
                let mut v = Vec::new();
                for (name, c) in cs { v.push(StructValueField { name: name.clone(), value: self.value(a, *c)? }); }
                Value::Struct(v)
            }
            Kind::Enum(cs) => {
                let o = self.ord(cs.len())?;
                Value::Enum(EnumValue { variant_ord: o, variant_name: cs[o].0.clone(), value: Box::new(self.value(a, cs[o].1)?) })
            }
        };
        self.depth -= 1;
        Ok(v)
    }

    fn many(&mut self, a: &Arena, n: usize, c: Ref) -> Result<Vec<Value>, RefErr> {
        let mut v = Vec::new();
        for _ in 0..n { v.push(self.value(a, c)?); }
        Ok(v)
    }
}

// ---------------------------------------------------------------- values

/// Bit-for-bit equality.
pub fn veq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Scalar(x), Value::Scalar(y)) => seq(x, y),
        (Value::Str(x), Value::Str(y)) => x == y,
        (Value::Bytes(x), Value::Bytes(y)) => x == y,
        (Value::Unit, Value::Unit) => true,
        (Value::Option(None), Value::Option(None)) => true,
        (Value::Option(Some(x)), Value::Option(Some(y))) => veq(x, y),
        (Value::FixedLenSeq(x), Value::FixedLenSeq(y))
        | (Value::VarLenSeq(x), Value::VarLenSeq(y))
        | (Value::Tuple(x), Value::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (Value::Struct(x), Value::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.name == b.name && veq(&a.value, &b.value)),
        (Value::Enum(x), Value::Enum(y)) => x.variant_ord == y.variant_ord && x.variant_name == y.variant_name && veq(&x.value, &y.value),
        _ => false,
    }
}

pub fn seq(a: &ScalarValue, b: &ScalarValue) -> bool {
    scalar_type(a) == scalar_type(b) && scalar_bytes(a) == scalar_bytes(b)
}

pub fn count_nodes(v: &Value) -> u64 {
    1 + match v {
        Value::Option(Some(x)) => count_nodes(x),
        Value::FixedLenSeq(x) | Value::VarLenSeq(x) | Value::Tuple(x) => x.iter().map(count_nodes).sum(),
        Value::Struct(x) => x.iter().map(|f| count_nodes(&f.value)).sum(),
        Value::Enum(e) => count_nodes(&e.value),
        _ => 0,
    }
}

pub fn height(v: &Value) -> u64 {
    1 + match v {
        Value::Option(Some(x)) => height(x),
        Value::FixedLenSeq(x) | Value::VarLenSeq(x) | Value::Tuple(x) => x.iter().map(height).max().unwrap_or(0),
        Value::Struct(x) => x.iter().map(|f| height(&f.value)).max().unwrap_or(0),
        Value::Enum(e) => height(&e.value),
        _ => 0,
    }
}
