//! C13, C14: the serde serializer and deserializer, driven with data and requests of every shape.

use crate::checks::core::composite;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use crate::must;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::cell::{Cell, RefCell};
use std::fmt;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C13", f: c13, quick: 250_000, thorough: 8_000_000,
            rule: "a case is a generated schema and a tree of serde data: made to fit a generated value, or so made and changed in 1 or 2 places, or unrelated; a model of the mapping says whether it fits; non-trivial when the data are composite; distinct by (schema, data)" },
        Check { id: "C14", f: c14, quick: 600_000, thorough: 20_000_000,
            rule: "a case is a generated message consumed through serde with a kind of request (typed in every fitting way, self-describing, ignored, through newtypes) drawn anew at every node, half of the time with one unfitting request at a drawn node; non-trivial when the schema is composite and the message has at least 2 bytes; distinct by (schema, message, requests)" },
    ]
}

/// Names that live as long as the case.
#[derive(Default)]
pub struct Names {
    strs: RefCell<Vec<Box<str>>>,
    lists: RefCell<Vec<Box<[&'static str]>>>,
}

impl fmt::Debug for Names {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("names") }
}

impl Names {
    /// # Safety note
    /// The result must not outlive `self`; nothing of the case does.
    pub fn get(&self, s: &str) -> &'static str {
        let b: Box<str> = s.into();
        let p: &'static str = unsafe { &*(&*b as *const str) };
        self.strs.borrow_mut().push(b);
        p
    }
    pub fn list<'x>(&self, it: impl Iterator<Item = &'x str>) -> &'static [&'static str] {
        let v: Box<[&'static str]> = it.map(|s| self.get(s)).collect();
        let p: &'static [&'static str] = unsafe { &*(&*v as *const _) };
        self.lists.borrow_mut().push(v);
        p
    }
}

// ---------------------------------------------------------------- C13

type Nm = &'static str;

#[derive(Clone, Debug)]
pub enum Dyn {
    Scalar(ScalarValue),
    Str(String),
    CollectStr(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Dyn>),
    Unit,
    UnitStruct,
    UnitVariant(u32, Nm),
    Newtype(Box<Dyn>),
    NewtypeVariant(u32, Nm, Box<Dyn>),
    Seq(Option<usize>, Vec<Dyn>),
    Tuple(usize, Vec<Dyn>),
    TupleStruct(usize, Vec<Dyn>),
    TupleVariant(u32, Nm, usize, Vec<Dyn>),
    /// how: entry by entry, or key and value apart; a missing part is not serialized
    Map(Option<usize>, Vec<(Option<Dyn>, Option<Dyn>)>, bool),
    Struct(usize, Vec<(Nm, Option<Dyn>)>),
    StructVariant(u32, Nm, usize, Vec<(Nm, Option<Dyn>)>),
    /// the data fail when they are asked to serialize themselves
    Fail(String),
    /// the data fail when they are asked to serialize themselves and have done so
    FailAfter(Box<Dyn>, String),
    /// the data around fail when it is this one's turn
    Stop(String),
}

impl Dyn {
    fn turn<E: serde::ser::Error>(&self) -> Result<&Dyn, E> {
        match self { Dyn::Stop(m) => Err(E::custom(m)), _ => Ok(self) }
    }
}

impl Serialize for Dyn {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Dyn::FailAfter(x, m) => { x.serialize(s)?; Err(serde::ser::Error::custom(m)) }
            Dyn::Fail(m) | Dyn::Stop(m) => Err(serde::ser::Error::custom(m)),
            Dyn::Scalar(x) => match *x {
                ScalarValue::U8(n) => s.serialize_u8(n),
                ScalarValue::U16(n) => s.serialize_u16(n),
                ScalarValue::U32(n) => s.serialize_u32(n),
                ScalarValue::U64(n) => s.serialize_u64(n),
                ScalarValue::U128(n) => s.serialize_u128(n),
                ScalarValue::I8(n) => s.serialize_i8(n),
                ScalarValue::I16(n) => s.serialize_i16(n),
                ScalarValue::I32(n) => s.serialize_i32(n),
                ScalarValue::I64(n) => s.serialize_i64(n),
                ScalarValue::I128(n) => s.serialize_i128(n),
                ScalarValue::F32(n) => s.serialize_f32(n),
                ScalarValue::F64(n) => s.serialize_f64(n),
                ScalarValue::Char(n) => s.serialize_char(n),
                ScalarValue::Bool(n) => s.serialize_bool(n),
            },
            Dyn::Str(x) => s.serialize_str(x),
            Dyn::CollectStr(x) => s.collect_str(x),
            Dyn::Bytes(x) => s.serialize_bytes(x),
            Dyn::None => s.serialize_none(),
            Dyn::Some(x) => s.serialize_some(&**x),
            Dyn::Unit => s.serialize_unit(),
            Dyn::UnitStruct => s.serialize_unit_struct("Name"),
            Dyn::UnitVariant(i, n) => s.serialize_unit_variant("Name", *i, n),
            Dyn::Newtype(x) => s.serialize_newtype_struct("Name", &**x),
            Dyn::NewtypeVariant(i, n, x) => s.serialize_newtype_variant("Name", *i, n, &**x),
            Dyn::Seq(len, xs) => {
                let mut q = s.serialize_seq(*len)?;
                for x in xs { q.serialize_element(x.turn()?)?; }
                q.end()
            }
            Dyn::Tuple(len, xs) => {
                let mut q = s.serialize_tuple(*len)?;
                for x in xs { q.serialize_element(x.turn()?)?; }
                q.end()
            }
            Dyn::TupleStruct(len, xs) => {
                let mut q = s.serialize_tuple_struct("Name", *len)?;
                for x in xs { SerializeTupleStruct::serialize_field(&mut q, x.turn()?)?; }
                q.end()
            }
            Dyn::TupleVariant(i, n, len, xs) => {
                let mut q = s.serialize_tuple_variant("Name", *i, n, *len)?;
                for x in xs { SerializeTupleVariant::serialize_field(&mut q, x.turn()?)?; }
                q.end()
            }
            Dyn::Map(len, xs, apart) => {
                let mut q = s.serialize_map(*len)?;
                for (k, v) in xs {
                    if let (Some(k), Some(v), false) = (k, v, *apart) { q.serialize_entry(k, v)?; continue; }
                    if let Some(k) = k { q.serialize_key(k)?; }
                    if let Some(v) = v { q.serialize_value(v)?; }
                }
                q.end()
            }
            Dyn::Struct(len, xs) => {
                let mut q = s.serialize_struct("Name", *len)?;
                for (n, x) in xs {
                    match x { Some(x) => SerializeStruct::serialize_field(&mut q, n, x.turn()?)?, None => SerializeStruct::skip_field(&mut q, n)? }
                }
                q.end()
            }
            Dyn::StructVariant(i, n, len, xs) => {
                let mut q = s.serialize_struct_variant("Name", *i, n, *len)?;
                for (n, x) in xs {
                    match x { Some(x) => SerializeStructVariant::serialize_field(&mut q, n, x.turn()?)?, None => SerializeStructVariant::skip_field(&mut q, n)? }
                }
                q.end()
            }
        }
    }
}

/// Whether data fit a schema under the documented mapping. `soft`: the mapping does not say.
struct Fit { v: Value, soft: bool }

fn yes(v: Value) -> Option<Fit> { Some(Fit { v, soft: false }) }

fn fit_all<'x>(a: &Arena, it: impl Iterator<Item = (Ref, &'x Dyn)>) -> Option<(Vec<Value>, bool)> {
    let mut soft = false;
    let mut out = Vec::new();
    for (r, d) in it {
        let f = fit(a, r, d)?;
        soft |= f.soft;
        out.push(f.v);
    }
    Some((out, soft))
}

fn fit_seq(a: &Arena, r: Ref, declared: Option<usize>, xs: &[Dyn], tuple: bool) -> Option<Fit> {
    let Ref::Node(i) = r else { return None };
    let odd = declared != Some(xs.len());
    match &a.nodes[i].kind {
        Kind::Seq(Some(n), c) => {
            if *n != xs.len() || (declared.is_some() && odd) { return None; }
            let (vs, soft) = fit_all(a, xs.iter().map(|x| (*c, x)))?;
            Some(Fit { v: Value::FixedLenSeq(vs), soft })
        }
        Kind::Seq(None, c) => {
            if odd { return None; }
            let (vs, soft) = fit_all(a, xs.iter().map(|x| (*c, x)))?;
            Some(Fit { v: Value::VarLenSeq(vs), soft })
        }
        Kind::Tuple(cs) => {
            if cs.len() != xs.len() { return None; }
            let (vs, soft) = fit_all(a, cs.iter().copied().zip(xs))?;
            Some(Fit { v: Value::Tuple(vs), soft: soft || odd || !tuple })
        }
        Kind::Unit if xs.is_empty() => Some(Fit { v: Value::Unit, soft: odd || !tuple }),
        _ => None,
    }
}

fn fit_struct(a: &Arena, r: Ref, declared: usize, xs: &[(Nm, Option<Dyn>)]) -> Option<Fit> {
    let Ref::Node(i) = r else { return None };
    let Kind::Struct(cs) = &a.nodes[i].kind else { return None };
    if cs.len() != xs.len() { return None; }
    // skipped fields are counted or not, as one likes
    let mut soft = declared != xs.len() && declared != xs.iter().filter(|x| x.1.is_some()).count();
    let mut out = Vec::new();
    for ((name, c), (n, x)) in cs.iter().zip(xs) {
        if name != n { return None; }
        let value = match x {
            Some(x) => { let f = fit(a, *c, x)?; soft |= f.soft; f.v }
            None => {
                let Ref::Node(k) = c else { return None };
                if !matches!(a.nodes[*k].kind, Kind::Option(_)) { return None; }
                Value::Option(None)
            }
        };
        out.push(StructValueField { name: name.clone(), value });
    }
    Some(Fit { v: Value::Struct(out), soft })
}

fn fit_variant(a: &Arena, r: Ref, ord: u32, name: &str, inner: impl FnOnce(Ref) -> Option<Fit>) -> Option<Fit> {
    let Ref::Node(i) = r else { return None };
    let Kind::Enum(cs) = &a.nodes[i].kind else { return None };
    let (n, c) = cs.get(ord as usize)?;
    if n != name { return None; }
    let f = inner(*c)?;
    Some(Fit { v: Value::Enum(EnumValue { variant_ord: ord as usize, variant_name: n.clone(), value: Box::new(f.v) }), soft: f.soft })
}

fn is_unit(a: &Arena, r: Ref) -> bool {
    matches!(r, Ref::Node(i) if matches!(a.nodes[i].kind, Kind::Unit))
}

fn fit(a: &Arena, r: Ref, d: &Dyn) -> Option<Fit> {
    let Ref::Node(i) = r else { return None };
    let kind = &a.nodes[i].kind;
    match (d, kind) {
        (Dyn::Newtype(x), _) => fit(a, r, x),
        (Dyn::Scalar(s), Kind::Scalar(st)) if scalar_type(s) == *st => yes(Value::Scalar(*s)),
        (Dyn::Str(s) | Dyn::CollectStr(s), Kind::Str) => yes(Value::Str(s.clone())),
        (Dyn::Bytes(s), Kind::Bytes) => yes(Value::Bytes(s.clone())),
        (Dyn::Unit | Dyn::UnitStruct, Kind::Unit) => yes(Value::Unit),
        (Dyn::None, Kind::Option(_)) => yes(Value::Option(None)),
        (Dyn::Some(x), Kind::Option(c)) => { let f = fit(a, *c, x)?; Some(Fit { v: Value::Option(Some(Box::new(f.v))), soft: f.soft }) }
        (Dyn::UnitVariant(o, n), _) => fit_variant(a, r, *o, n, |c| if is_unit(a, c) { yes(Value::Unit) } else { None }),
        (Dyn::NewtypeVariant(o, n, x), _) => fit_variant(a, r, *o, n, |c| fit(a, c, x)),
        (Dyn::TupleVariant(o, n, len, xs), _) => fit_variant(a, r, *o, n, |c| fit_seq(a, c, Some(*len), xs, true)),
        (Dyn::StructVariant(o, n, len, xs), _) => fit_variant(a, r, *o, n, |c| fit_struct(a, c, *len, xs)),
        (Dyn::Seq(len, xs), _) => fit_seq(a, r, *len, xs, false),
        (Dyn::Tuple(len, xs) | Dyn::TupleStruct(len, xs), _) => fit_seq(a, r, Some(*len), xs, true),
        (Dyn::Struct(len, xs), _) => fit_struct(a, r, *len, xs),
        (Dyn::Map(len, xs, _), Kind::Seq(None, c)) => {
            if *len != Some(xs.len()) { return None; }
            let pair = match c { Ref::Node(k) => match &a.nodes[*k].kind { Kind::Tuple(p) if p.len() == 2 => Some((p[0], p[1])), _ => None }, _ => None };
            if xs.is_empty() { return Some(Fit { v: Value::VarLenSeq(vec![]), soft: pair.is_none() }); }
            let (kr, vr) = pair?;
            let mut out = Vec::new();
            let mut soft = false;
            for (k, v) in xs {
                let (k, v) = (fit(a, kr, k.as_ref()?)?, fit(a, vr, v.as_ref()?)?);
                soft |= k.soft || v.soft;
                out.push(Value::Tuple(vec![k.v, v.v]));
            }
            Some(Fit { v: Value::VarLenSeq(out), soft })
        }
        _ => None,
    }
}

fn declare(s: &mut Src, f: &[(Nm, Option<Dyn>)]) -> usize {
    if s.chance(1, 2) { f.iter().filter(|x| x.1.is_some()).count() } else { f.len() }
}

/// `firm`: fit in a way the mapping documents.
pub struct Dg<'x> { pub names: &'x Names, pub firm: bool }

impl<'x> Dg<'x> {
    /// Some serde shape that fits the value.
    pub fn fitting(&self, s: &mut Src, a: &Arena, r: Ref, v: &Value) -> Dyn {
        let Ref::Node(i) = r else { return Dyn::Unit };
        if s.chance(1, 15) { return Dyn::Newtype(Box::new(self.fitting(s, a, r, v))); }
        match (v, &a.nodes[i].kind) {
            (Value::Scalar(x), _) => Dyn::Scalar(*x),
            (Value::Str(x), _) => if s.chance(1, 5) { Dyn::CollectStr(x.clone()) } else { Dyn::Str(x.clone()) },
            (Value::Bytes(x), _) => Dyn::Bytes(x.clone()),
            (Value::Unit, _) => match s.idx(4) { 0 => Dyn::Unit, 1 => Dyn::UnitStruct, 2 => Dyn::Tuple(0, vec![]), _ => Dyn::TupleStruct(0, vec![]) },
            (Value::Option(None), _) => Dyn::None,
            (Value::Option(Some(x)), Kind::Option(c)) => Dyn::Some(Box::new(self.fitting(s, a, *c, x))),
            (Value::FixedLenSeq(xs), Kind::Seq(_, c)) => {
                let ds: Vec<Dyn> = xs.iter().map(|x| self.fitting(s, a, *c, x)).collect();
                match s.idx(4) { 0 => Dyn::Tuple(ds.len(), ds), 1 => Dyn::Seq(Some(ds.len()), ds), 2 => Dyn::Seq(None, ds), _ => Dyn::TupleStruct(ds.len(), ds) }
            }
            (Value::VarLenSeq(xs), Kind::Seq(_, c)) => {
                if let Ref::Node(k) = c {
                    if let Kind::Tuple(p) = &a.nodes[*k].kind {
                        if p.len() == 2 && s.chance(1, 2) {
                            let m = xs.iter().map(|x| match x {
                                Value::Tuple(kv) => (Some(self.fitting(s, a, p[0], &kv[0])), Some(self.fitting(s, a, p[1], &kv[1]))),
                                _ => unreachable!(),
                            }).collect::<Vec<_>>();
                            return Dyn::Map(Some(m.len()), m, s.chance(1, 2));
                        }
                    }
                }
                let ds: Vec<Dyn> = xs.iter().map(|x| self.fitting(s, a, *c, x)).collect();
                match s.idx(3) { 0 => Dyn::Seq(Some(ds.len()), ds), 1 => Dyn::Tuple(ds.len(), ds), _ => Dyn::TupleStruct(ds.len(), ds) }
            }
            (Value::Tuple(xs), Kind::Tuple(cs)) => {
                let ds: Vec<Dyn> = xs.iter().zip(cs).map(|(x, c)| self.fitting(s, a, *c, x)).collect();
                match s.weighted(&[6, 5, !self.firm as u64]) { 0 => Dyn::Tuple(ds.len(), ds), 1 => Dyn::TupleStruct(ds.len(), ds), _ => Dyn::Seq(Some(ds.len()), ds) }
            }
            (Value::Struct(_), Kind::Struct(_)) => { let f = self.fields(s, a, r, v); Dyn::Struct(declare(s, &f), f) }
            (Value::Enum(e), Kind::Enum(cs)) => {
                let (o, n, c) = (e.variant_ord as u32, self.names.get(&e.variant_name), cs[e.variant_ord].1);
                let Ref::Node(k) = c else { return Dyn::Unit };
                if s.chance(1, 3) { return Dyn::NewtypeVariant(o, n, Box::new(self.fitting(s, a, c, &e.value))); }
                match (&*e.value, &a.nodes[k].kind) {
                    (Value::Unit, _) => if s.chance(1, 6) { Dyn::TupleVariant(o, n, 0, vec![]) } else { Dyn::UnitVariant(o, n) },
                    (Value::Tuple(xs), Kind::Tuple(cs)) => { let ds: Vec<Dyn> = xs.iter().zip(cs).map(|(x, c)| self.fitting(s, a, *c, x)).collect(); Dyn::TupleVariant(o, n, ds.len(), ds) }
                    (Value::VarLenSeq(xs) | Value::FixedLenSeq(xs), Kind::Seq(_, c)) => { let ds: Vec<Dyn> = xs.iter().map(|x| self.fitting(s, a, *c, x)).collect(); Dyn::TupleVariant(o, n, ds.len(), ds) }
                    (Value::Struct(_), Kind::Struct(_)) => { let f = self.fields(s, a, c, &e.value); Dyn::StructVariant(o, n, declare(s, &f), f) }
                    _ => Dyn::NewtypeVariant(o, n, Box::new(self.fitting(s, a, c, &e.value))),
                }
            }
            _ => Dyn::Unit,
        }
    }

    fn fields(&self, s: &mut Src, a: &Arena, r: Ref, v: &Value) -> Vec<(Nm, Option<Dyn>)> {
        let (Ref::Node(i), Value::Struct(xs)) = (r, v) else { return vec![] };
        let Kind::Struct(cs) = &a.nodes[i].kind else { return vec![] };
        xs.iter().zip(cs).map(|(x, (n, c))| {
            let skip = matches!(x.value, Value::Option(None)) && s.chance(1, 2);
            (self.names.get(n), if skip { None } else { Some(self.fitting(s, a, *c, &x.value)) })
        }).collect()
    }

    pub fn any(&self, s: &mut Src, d: u32) -> Dyn {
        let sub = |s: &mut Src| -> Vec<Dyn> { let n = s.below(3); (0..n).map(|_| self.any(s, d - 1)).collect() };
        let len = |s: &mut Src, n: usize| if s.chance(1, 6) { s.idx(4) } else { n };
        match if d == 0 { s.idx(7) } else { s.idx(17) } {
            0 => { let st = SCALARS[s.idx(14)]; Dyn::Scalar(gen_scalar(s, st)) }
            1 => Dyn::Str(text(s, 3)),
            2 => Dyn::Bytes(vec![7; s.idx(4)]),
            3 => Dyn::None,
            4 => Dyn::Unit,
            5 => Dyn::UnitStruct,
            6 => Dyn::UnitVariant(s.below(4) as u32, self.names.get(&name(s))),
            7 => Dyn::Some(Box::new(self.any(s, d - 1))),
            8 => Dyn::Newtype(Box::new(self.any(s, d - 1))),
            9 => Dyn::NewtypeVariant(s.below(4) as u32, self.names.get(&name(s)), Box::new(self.any(s, d - 1))),
            10 => { let x = sub(s); Dyn::Seq(if s.chance(1, 3) { None } else { Some(len(s, x.len())) }, x) }
            11 => { let x = sub(s); Dyn::Tuple(len(s, x.len()), x) }
            12 => { let x = sub(s); Dyn::TupleStruct(len(s, x.len()), x) }
            13 => { let x = sub(s); Dyn::TupleVariant(s.below(4) as u32, self.names.get(&name(s)), len(s, x.len()), x) }
            14 => {
                let x = sub(s);
                let y: Vec<_> = x.into_iter().map(|k| (Some(k), Some(self.any(s, d - 1)))).collect();
                Dyn::Map(if s.chance(1, 3) { None } else { Some(len(s, y.len())) }, y, s.chance(1, 2))
            }
            15 => { let x = sub(s); let l = len(s, x.len()); Dyn::Struct(l, x.into_iter().map(|y| (self.names.get(&name(s)), Some(y))).collect()) }
            _ => { let x = sub(s); let l = len(s, x.len()); Dyn::StructVariant(s.below(4) as u32, self.names.get(&name(s)), l, x.into_iter().map(|y| (self.names.get(&name(s)), Some(y))).collect()) }
        }
    }

    pub fn mutate(&self, s: &mut Src, d: &mut Dyn) {
        let n = count(d);
        let mut t = s.below(n) as i64;
        walk(d, &mut t, &mut |x| self.here(s, x));
    }

    fn list(&self, s: &mut Src, xs: &mut Vec<Dyn>) {
        match s.idx(4) {
            0 => { xs.pop(); }
            1 => { let e = if xs.is_empty() || s.chance(1, 3) { self.any(s, 1) } else { xs[s.idx(xs.len())].clone() }; xs.push(e) }
            2 => if xs.len() > 1 { let k = s.idx(xs.len() - 1); xs.swap(k, k + 1) },
            _ => if !xs.is_empty() { let k = s.idx(xs.len()); xs.remove(k); },
        }
    }

    fn flds(&self, s: &mut Src, xs: &mut Vec<(Nm, Option<Dyn>)>) {
        match s.idx(6) {
            0 => { xs.pop(); }
            1 => { let e = (self.names.get(&name(s)), Some(self.any(s, 1))); xs.push(e) }
            2 => if xs.len() > 1 { let k = s.idx(xs.len() - 1); xs.swap(k, k + 1) },
            3 => if !xs.is_empty() { let k = s.idx(xs.len()); xs[k].0 = self.names.get(&near_name(s, xs[k].0)); },
            4 => if !xs.is_empty() { let k = s.idx(xs.len()); xs[k].1 = None; },
            _ => if !xs.is_empty() { let k = s.idx(xs.len()); let e = xs[k].clone(); xs.insert(k, e); },
        }
    }

    fn here(&self, s: &mut Src, d: &mut Dyn) {
        if s.chance(1, 5) { *d = self.any(s, 2); return; }
        if s.chance(1, 8) { *d = Dyn::Some(Box::new(d.clone())); return; }
        let delta = |s: &mut Src, n: usize| match s.idx(4) { 0 => n + 1, 1 => n.saturating_sub(1), 2 => 0, _ => usize::MAX };
        let keep = s.chance(2, 3);
        match d {
            Dyn::Fail(_) | Dyn::FailAfter(..) | Dyn::Stop(_) => {}
            Dyn::Scalar(_) => { let st = SCALARS[s.idx(14)]; *d = Dyn::Scalar(gen_scalar(s, st)); }
            Dyn::Str(x) | Dyn::CollectStr(x) => *d = Dyn::Bytes(x.clone().into_bytes()),
            Dyn::Bytes(x) => *d = Dyn::Seq(Some(x.len()), x.iter().map(|b| Dyn::Scalar(ScalarValue::U8(*b))).collect()),
            Dyn::None => *d = match s.idx(3) { 0 => Dyn::Unit, 1 => Dyn::Some(Box::new(Dyn::None)), _ => Dyn::Some(Box::new(self.any(s, 1))) },
            Dyn::Some(x) => *d = if keep { (**x).clone() } else { Dyn::None },
            Dyn::Unit | Dyn::UnitStruct => *d = match s.idx(5) { 0 => Dyn::None, 1 => Dyn::Seq(Some(0), vec![]), 2 => Dyn::Struct(0, vec![]), 3 => Dyn::Tuple(1, vec![Dyn::Unit]), _ => Dyn::Map(Some(0), vec![], false) },
            Dyn::UnitVariant(o, n) => match s.idx(4) {
                0 => *o = o.wrapping_add(1),
                1 => *n = self.names.get(&near_name(s, n)),
                2 => *d = Dyn::NewtypeVariant(*o, n, Box::new(self.any(s, 1))),
                _ => *d = Dyn::Unit,
            },
            Dyn::Newtype(x) => self.here(s, x),
            Dyn::NewtypeVariant(o, n, x) => match s.idx(4) {
                0 => *o = o.wrapping_add(1),
                1 => *n = self.names.get(&near_name(s, n)),
                2 => *d = Dyn::UnitVariant(*o, n),
                _ => *d = Dyn::TupleVariant(*o, n, 1, vec![(**x).clone()]),
            },
            Dyn::Seq(l, xs) => {
                if keep {
                    self.list(s, xs);
                    if l.is_some() && s.chance(1, 2) { *l = Some(xs.len()); }
                } else if s.chance(1, 2) { *l = None } else { *l = Some(delta(s, xs.len())) }
            }
            Dyn::Tuple(l, xs) | Dyn::TupleStruct(l, xs) => {
                if keep {
                    self.list(s, xs);
                    if s.chance(1, 2) { *l = xs.len(); }
                } else { *l = delta(s, xs.len()) }
            }
            Dyn::TupleVariant(o, n, l, xs) => match s.idx(6) {
                0 => *o = o.wrapping_sub(1),
                1 => *n = self.names.get(&near_name(s, n)),
                2 => *l = delta(s, xs.len()),
                3 => *d = Dyn::NewtypeVariant(*o, n, Box::new(Dyn::Seq(None, xs.clone()))),
                _ => { self.list(s, xs); if s.chance(1, 2) { *l = xs.len(); } }
            },
            Dyn::Map(l, xs, _) => match s.idx(6) {
                0 => *l = None,
                1 => *l = Some(delta(s, xs.len())),
                2 => { xs.pop(); if s.chance(1, 2) { *l = Some(xs.len()) } }
                3 => { let e = (Some(self.any(s, 1)), Some(self.any(s, 1))); xs.push(e); if s.chance(1, 2) { *l = Some(xs.len()) } }
                4 => if !xs.is_empty() { let k = s.idx(xs.len()); if s.chance(1, 2) { xs[k].0 = None } else { xs[k].1 = None } },
                _ => { let v = xs.iter().flat_map(|(k, v)| k.iter().chain(v).cloned()).collect::<Vec<_>>(); *d = Dyn::Seq(*l, v) }
            },
            Dyn::Struct(l, xs) => match s.idx(5) {
                0 => *l = delta(s, xs.len()),
                1 => { let v: Vec<Dyn> = xs.iter().map(|x| x.1.clone().unwrap_or(Dyn::None)).collect(); *d = Dyn::Tuple(v.len(), v) }
                _ => { self.flds(s, xs); if s.chance(1, 2) { *l = xs.len(); } }
            },
            Dyn::StructVariant(o, n, l, xs) => match s.idx(6) {
                0 => *o = o.wrapping_add(1),
                1 => *n = self.names.get(&near_name(s, n)),
                2 => *d = Dyn::Struct(*l, xs.clone()),
                _ => { self.flds(s, xs); if s.chance(1, 2) { *l = xs.len(); } }
            },
        }
    }
}

fn count(d: &Dyn) -> u64 {
    1 + match d {
        Dyn::Some(x) | Dyn::Newtype(x) | Dyn::NewtypeVariant(_, _, x) => count(x),
        Dyn::Seq(_, xs) | Dyn::Tuple(_, xs) | Dyn::TupleStruct(_, xs) | Dyn::TupleVariant(_, _, _, xs) => xs.iter().map(count).sum(),
        Dyn::Map(_, xs, _) => xs.iter().map(|(k, v)| k.as_ref().map_or(0, count) + v.as_ref().map_or(0, count)).sum(),
        Dyn::Struct(_, xs) | Dyn::StructVariant(_, _, _, xs) => xs.iter().map(|x| x.1.as_ref().map_or(0, count)).sum(),
        _ => 0,
    }
}

fn walk(d: &mut Dyn, t: &mut i64, f: &mut dyn FnMut(&mut Dyn)) {
    if *t < 0 { return; }
    if *t == 0 { *t = -1; f(d); return; }
    *t -= 1;
    match d {
        Dyn::Some(x) | Dyn::Newtype(x) | Dyn::NewtypeVariant(_, _, x) => walk(x, t, f),
        Dyn::Seq(_, xs) | Dyn::Tuple(_, xs) | Dyn::TupleStruct(_, xs) | Dyn::TupleVariant(_, _, _, xs) => xs.iter_mut().for_each(|x| walk(x, t, f)),
        Dyn::Map(_, xs, _) => xs.iter_mut().for_each(|(k, v)| {
            if let Some(k) = k { walk(k, t, f); }
            if let Some(v) = v { walk(v, t, f); }
        }),
        Dyn::Struct(_, xs) | Dyn::StructVariant(_, _, _, xs) => xs.iter_mut().for_each(|x| if let Some(x) = &mut x.1 { walk(x, t, f) }),
        _ => {}
    }
}

fn schema_cfg(s: &mut Src) -> SchemaCfg {
    SchemaCfg { recursive: s.chance(1, 4), ..Default::default() }
}

fn c13(c: &mut Case) -> Res {
    let cfg = schema_cfg(c.src);
    let s = gen_schema(c.src, &cfg);
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let names = Names::default();
    let g = Dg { names: &names, firm: false };
    let how = c.src.weighted(&[5, 6, 1]);
    let mut d = if how == 2 { g.any(c.src, 3) } else { g.fitting(c.src, &a, a.root, &v) };
    if how == 0 {
        match fit(&a, a.root, &d) {
            Some(f) => if !veq(&f.v, &v) { panic!("the model maps {:?} to {:?} and not {:?}", d, f.v, v) },
            None => panic!("fitting data are judged unfit: {:?} {:?}", s, d),
        }
    }
    if how == 1 { let n = 1 + c.src.below(2); for _ in 0..n { g.mutate(c.src, &mut d); } }
    let verdict = fit(&a, a.root, &d);

    let mut out = Vec::new();
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    must!(!(&mut e).is_human_readable(), "the serializer calls itself human readable");
    let r = d.serialize(&mut e);
    let fin = st.is_finished();
    let done = r.is_ok() && fin;
    match &verdict {
        Some(f) => {
            let want = match a.encode(&f.v) { Ok(b) => b, Err(x) => panic!("model made an unfit value {:?} {:?}", f.v, x) };
            if !f.soft { must!(done, "{:?} fits the schema {:?}, but serializing gives {:?}, finished {}", d, s, r, fin); }
            if done { must!(out == want, "{:?} under {:?} is serialized as {} instead of {}", d, s, hex(&out), hex(&want)); }
            c.label(if f.soft { "unspecified" } else { "fits" });
        }
        None => {
            must!(!done, "{:?} does not fit the schema {:?}, but is serialized to completion as {}", d, s, hex(&out));
            c.label(if r.is_err() { "rejected" } else { "unfinished" });
        }
    }
    if how == 1 && matches!(&verdict, Some(f) if !f.soft) { c.label("fits_after_change"); }
    if !matches!(d, Dyn::Scalar(_) | Dyn::Str(_) | Dyn::CollectStr(_) | Dyn::Bytes(_) | Dyn::Unit | Dyn::UnitStruct | Dyn::None) {
        c.nontrivial(mix(hash_of(&s), hash_str(&clip(&format!("{:?}", d), 300))));
    }
    c.sample(|| format!("{:?} under {:?}: {}", d, s, if done { hex(&out) } else { "rejected".into() }));
    Ok(())
}

// ---------------------------------------------------------------- C14

struct Ctx<'x> {
    src: RefCell<&'x mut Src>,
    names: &'x Names,
    arena: &'x Arena<'x>,
    /// what was presented wrongly
    wrong: RefCell<Option<String>>,
    /// requests made
    log: RefCell<String>,
    count: Cell<u64>,
    /// node at which to make an unfitting request
    target: Cell<Option<u64>>,
    unfit: Cell<bool>,
    labels: RefCell<Vec<&'static str>>,
}

impl<'x> Ctx<'x> {
    fn idx(&self, n: usize) -> usize { self.src.borrow_mut().idx(n) }
    fn chance(&self, a: u64, b: u64) -> bool { self.src.borrow_mut().chance(a, b) }
    fn note(&self, s: &str) {
        let mut l = self.log.borrow_mut();
        if l.len() < 600 { l.push_str(s); l.push(' '); }
    }
    fn bad<T, E: de::Error>(&self, m: String) -> Result<T, E> {
        let mut w = self.wrong.borrow_mut();
        if w.is_none() { *w = Some(m.clone()); }
        Err(E::custom(m))
    }
}

#[derive(Copy, Clone)]
struct Want<'x> { ctx: &'x Ctx<'x>, r: Ref, v: &'x Value }

/// A visitor that checks what it is presented.
struct Look<'x> { w: Want<'x>, map: bool }

#[derive(Clone, Debug)]
pub enum Rq {
    Scalar(ScalarType), Str(bool), Bytes(bool), Unit(bool), Option, Seq, Tuple(usize, bool), Map,
    Struct(&'static [&'static str]), Enum(&'static [&'static str]), Identifier,
}

/// Whether a request fits the schema and the data there; None when nothing is promised.
fn compatible(a: &Arena, r: Ref, v: &Value, rq: &Rq) -> Option<bool> {
    let Ref::Node(i) = r else { return None };
    let k = &a.nodes[i].kind;
    Some(match rq {
        Rq::Scalar(st) => matches!(k, Kind::Scalar(x) if x == st),
        Rq::Str(_) => matches!(k, Kind::Str),
        Rq::Bytes(_) => matches!(k, Kind::Bytes),
        Rq::Unit(_) => matches!(k, Kind::Unit),
        Rq::Option => matches!(k, Kind::Option(_)),
        Rq::Seq => match k { Kind::Seq(..) => true, Kind::Tuple(_) | Kind::Unit => return None, _ => false },
        Rq::Tuple(n, _) => match (k, v) {
            (Kind::Seq(..), Value::FixedLenSeq(x) | Value::VarLenSeq(x)) => x.len() == *n,
            (Kind::Tuple(x), _) => x.len() == *n,
            (Kind::Unit, _) => *n == 0,
            _ => false,
        },
        Rq::Map => match (k, v) {
            (Kind::Seq(None, c), Value::VarLenSeq(x)) => {
                let pair = matches!(c, Ref::Node(j) if matches!(&a.nodes[*j].kind, Kind::Tuple(p) if p.len() == 2));
                if !pair && x.is_empty() { return None; }
                pair
            }
            _ => false,
        },
        Rq::Struct(f) => match k { Kind::Struct(cs) => cs.len() == f.len() && cs.iter().zip(*f).all(|(c, n)| c.0 == *n), _ => false },
        Rq::Enum(f) => match (k, v) {
            (Kind::Enum(cs), Value::Enum(e)) => {
                if f.get(e.variant_ord) != Some(&e.variant_name.as_str()) { false }
                else if cs.len() == f.len() && cs.iter().zip(*f).all(|(c, n)| c.0 == *n) { true }
                else { return None }
            }
            _ => false,
        },
        Rq::Identifier => if matches!(k, Kind::Str | Kind::Bytes | Kind::Scalar(_)) { return None } else { false },
    })
}

pub fn request<'de, D: Deserializer<'de>, V: Visitor<'de>>(d: D, rq: &Rq, v: V) -> Result<V::Value, D::Error> {
    match rq {
        Rq::Scalar(st) => match st {
            ScalarType::U8 => d.deserialize_u8(v), ScalarType::U16 => d.deserialize_u16(v), ScalarType::U32 => d.deserialize_u32(v),
            ScalarType::U64 => d.deserialize_u64(v), ScalarType::U128 => d.deserialize_u128(v), ScalarType::I8 => d.deserialize_i8(v),
            ScalarType::I16 => d.deserialize_i16(v), ScalarType::I32 => d.deserialize_i32(v), ScalarType::I64 => d.deserialize_i64(v),
            ScalarType::I128 => d.deserialize_i128(v), ScalarType::F32 => d.deserialize_f32(v), ScalarType::F64 => d.deserialize_f64(v),
            ScalarType::Char => d.deserialize_char(v), ScalarType::Bool => d.deserialize_bool(v),
        },
        Rq::Str(x) => if *x { d.deserialize_string(v) } else { d.deserialize_str(v) },
        Rq::Bytes(x) => if *x { d.deserialize_byte_buf(v) } else { d.deserialize_bytes(v) },
        Rq::Unit(x) => if *x { d.deserialize_unit_struct("Name", v) } else { d.deserialize_unit(v) },
        Rq::Option => d.deserialize_option(v),
        Rq::Seq => d.deserialize_seq(v),
        Rq::Tuple(n, x) => if *x { d.deserialize_tuple_struct("Name", *n, v) } else { d.deserialize_tuple(*n, v) },
        Rq::Map => d.deserialize_map(v),
        Rq::Struct(f) => d.deserialize_struct("Name", f, v),
        Rq::Enum(f) => d.deserialize_enum("Name", f, v),
        Rq::Identifier => d.deserialize_identifier(v),
    }
}

impl<'x> Want<'x> {
    fn kind(&self) -> &'x Kind {
        match self.r { Ref::Node(i) => &self.ctx.arena.nodes[i].kind, Ref::Illegal => unreachable!() }
    }
    fn at(&self, r: Ref, v: &'x Value) -> Want<'x> { Want { ctx: self.ctx, r, v } }

    /// The schema's own names.
    fn names(&self) -> &'static [&'static str] {
        match self.kind() {
            Kind::Struct(f) | Kind::Enum(f) => self.ctx.names.list(f.iter().map(|x| x.0.as_str())),
            _ => &[],
        }
    }

    fn fitting(&self) -> Rq {
        let c = self.ctx;
        match (self.kind(), self.v) {
            (Kind::Scalar(st), _) => Rq::Scalar(*st),
            (Kind::Str, _) => Rq::Str(c.chance(1, 2)),
            (Kind::Bytes, _) => Rq::Bytes(c.chance(1, 2)),
            (Kind::Unit, _) => match c.idx(4) { 0 => Rq::Unit(false), 1 => Rq::Unit(true), 2 => Rq::Tuple(0, false), _ => Rq::Tuple(0, true) },
            (Kind::Option(_), _) => Rq::Option,
            (Kind::Seq(n, e), Value::FixedLenSeq(x) | Value::VarLenSeq(x)) => {
                let pair = n.is_none() && matches!(e, Ref::Node(j) if matches!(&c.arena.nodes[*j].kind, Kind::Tuple(p) if p.len() == 2));
                match c.idx(if pair { 4 } else { 3 }) { 0 => Rq::Seq, 1 => Rq::Tuple(x.len(), false), 2 => Rq::Tuple(x.len(), true), _ => Rq::Map }
            }
            (Kind::Tuple(x), _) => Rq::Tuple(x.len(), c.chance(1, 2)),
            (Kind::Struct(_), _) => Rq::Struct(self.names()),
            (Kind::Enum(_), _) => Rq::Enum(self.names()),
            _ => unreachable!(),
        }
    }

    fn altered(&self, l: &'static [&'static str]) -> &'static [&'static str] {
        let c = self.ctx;
        let mut v: Vec<String> = l.iter().map(|s| s.to_string()).collect();
        let k = c.idx(v.len().max(1));
        let k = if let Value::Enum(e) = self.v { if c.chance(2, 3) { e.variant_ord.min(v.len().saturating_sub(1)) } else { k } } else { k };
        match c.idx(6) {
            0 => if !v.is_empty() { v[k] = near_name(&mut **c.src.borrow_mut(), &v[k]) },
            1 => { v.pop(); }
            2 => v.push("extra".into()),
            3 => if v.len() > 1 { let j = (k + 1) % v.len(); v.swap(k, j) },
            4 => if !v.is_empty() { v.remove(k); },
            _ => if !v.is_empty() { v.truncate(k) },
        }
        c.names.list(v.iter().map(|s| s.as_str()))
    }

    fn unfitting(&self) -> Option<Rq> {
        let c = self.ctx;
        for _ in 0..8 {
            let rq = match c.idx(14) {
                0 => Rq::Scalar(SCALARS[c.idx(14)]),
                1 => Rq::Str(c.chance(1, 2)),
                2 => Rq::Bytes(c.chance(1, 2)),
                3 => Rq::Unit(c.chance(1, 2)),
                4 => Rq::Option,
                5 => Rq::Seq,
                6 => Rq::Tuple(c.idx(4), c.chance(1, 2)),
                7 => Rq::Map,
                8 => Rq::Struct(c.names.list(["a", "b"][..c.idx(3)].iter().copied())),
                9 => Rq::Enum(c.names.list(["a", "b"][..c.idx(3)].iter().copied())),
                10 => Rq::Identifier,
                _ => match self.fitting() {
                    Rq::Tuple(n, x) => Rq::Tuple(if c.chance(1, 2) { n + 1 } else { n.saturating_sub(1) }, x),
                    Rq::Struct(l) => Rq::Struct(self.altered(l)),
                    Rq::Enum(l) => Rq::Enum(self.altered(l)),
                    x => x,
                },
            };
            if compatible(c.arena, self.r, self.v, &rq) == Some(false) { return Some(rq); }
        }
        None
    }

    fn due_for_unfit(&self) -> bool {
        let n = self.ctx.count.get();
        self.ctx.count.set(n + 1);
        self.ctx.target.get() == Some(n)
    }
}

impl<'de, 'x> DeserializeSeed<'de> for Want<'x> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let c = self.ctx;
        if self.due_for_unfit() {
            if let Some(rq) = self.unfitting() {
                c.unfit.set(true);
                c.note(&format!("UNFIT {:?}", rq));
                return request(d, &rq, Sloppy);
            }
        }
        let mode = c.src.borrow_mut().weighted(&[6, 4, 2, 1]);
        match mode {
            0 => { let rq = self.fitting(); c.note(&clip(&format!("{:?}", rq), 40)); let map = matches!(rq, Rq::Map); request(d, &rq, Look { w: self, map }) }
            1 => { c.note("any"); d.deserialize_any(Look { w: self, map: false }) }
            2 => { c.note("ignored"); c.labels.borrow_mut().push("ignored"); IgnoredAny::deserialize(d).map(|_| ()) }
            _ => { c.note("newtype"); d.deserialize_newtype_struct("Name", Look { w: self, map: false }) }
        }
    }
}

impl<'x> Look<'x> {
    fn int<E: de::Error>(self, how: &str, n: Option<i128>, u: Option<u128>) -> Result<(), E> {
        let (i, un) = match self.w.v {
            Value::Scalar(ScalarValue::U8(x)) => (Some(*x as i128), Some(*x as u128)),
            Value::Scalar(ScalarValue::U16(x)) => (Some(*x as i128), Some(*x as u128)),
            Value::Scalar(ScalarValue::U32(x)) => (Some(*x as i128), Some(*x as u128)),
            Value::Scalar(ScalarValue::U64(x)) => (Some(*x as i128), Some(*x as u128)),
            Value::Scalar(ScalarValue::U128(x)) => (i128::try_from(*x).ok(), Some(*x)),
            Value::Scalar(ScalarValue::I8(x)) => (Some(*x as i128), u128::try_from(*x).ok()),
            Value::Scalar(ScalarValue::I16(x)) => (Some(*x as i128), u128::try_from(*x).ok()),
            Value::Scalar(ScalarValue::I32(x)) => (Some(*x as i128), u128::try_from(*x).ok()),
            Value::Scalar(ScalarValue::I64(x)) => (Some(*x as i128), u128::try_from(*x).ok()),
            Value::Scalar(ScalarValue::I128(x)) => (Some(*x), u128::try_from(*x).ok()),
            _ => return self.w.ctx.bad(format!("{} of an integer, the data are {}", how, short(self.w.v))),
        };
        if (n.is_some() && n == i) || (u.is_some() && u == un) { Ok(()) } else {
            self.w.ctx.bad(format!("{}({:?}{:?}), the data are {}", how, n, u, short(self.w.v)))
        }
    }
    fn other<T, E: de::Error>(self, what: &str) -> Result<T, E> {
        self.w.ctx.bad(format!("presented as {}, the data are {}", what, short(self.w.v)))
    }
}

macro_rules! ints { ($($f:ident $t:ty, $a:expr, $b:expr;)*) => {$(
    fn $f<E: de::Error>(self, n: $t) -> Result<(), E> { let (a, b): (fn($t) -> Option<i128>, fn($t) -> Option<u128>) = ($a, $b); self.int(stringify!($f), a(n), b(n)) }
)*} }

impl<'de, 'x> Visitor<'de> for Look<'x> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("the data of the message") }
    ints! {
        visit_u8 u8, |_| None, |n| Some(n as u128);
        visit_u16 u16, |_| None, |n| Some(n as u128);
        visit_u32 u32, |_| None, |n| Some(n as u128);
        visit_u64 u64, |_| None, |n| Some(n as u128);
        visit_u128 u128, |_| None, |n| Some(n);
        visit_i8 i8, |n| Some(n as i128), |_| None;
        visit_i16 i16, |n| Some(n as i128), |_| None;
        visit_i32 i32, |n| Some(n as i128), |_| None;
        visit_i64 i64, |n| Some(n as i128), |_| None;
        visit_i128 i128, |n| Some(n), |_| None;
    }
    fn visit_f32<E: de::Error>(self, n: f32) -> Result<(), E> {
        match self.w.v { Value::Scalar(ScalarValue::F32(x)) if x.to_bits() == n.to_bits() => Ok(()), _ => self.other(&format!("f32 {:?} {:x}", n, n.to_bits())) }
    }
    fn visit_f64<E: de::Error>(self, n: f64) -> Result<(), E> {
        match self.w.v { Value::Scalar(ScalarValue::F64(x)) if x.to_bits() == n.to_bits() => Ok(()), _ => self.other(&format!("f64 {:?} {:x}", n, n.to_bits())) }
    }
    fn visit_bool<E: de::Error>(self, n: bool) -> Result<(), E> {
        match self.w.v { Value::Scalar(ScalarValue::Bool(x)) if *x == n => Ok(()), _ => self.other(&format!("{}", n)) }
    }
    fn visit_char<E: de::Error>(self, n: char) -> Result<(), E> {
        match self.w.v { Value::Scalar(ScalarValue::Char(x)) if *x == n => Ok(()), _ => self.other(&format!("{:?}", n)) }
    }
    fn visit_str<E: de::Error>(self, n: &str) -> Result<(), E> {
        match self.w.v { Value::Str(x) if x == n => Ok(()), _ => self.other(&format!("string {:?}", n)) }
    }
    fn visit_bytes<E: de::Error>(self, n: &[u8]) -> Result<(), E> {
        match self.w.v { Value::Bytes(x) if x == n => Ok(()), _ => self.other(&format!("bytes {:?}", n)) }
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        match self.w.v { Value::Unit => Ok(()), _ => self.other("unit") }
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        match self.w.v { Value::Option(None) => Ok(()), _ => self.other("none") }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match (self.w.v, self.w.kind()) {
            (Value::Option(Some(x)), Kind::Option(c)) => self.w.at(*c, x).deserialize(d),
            _ => self.other("some"),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.w.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<(), A::Error> {
        let empty = Vec::new();
        let (xs, one, many): (&Vec<Value>, Option<Ref>, &[Ref]) = match (self.w.v, self.w.kind()) {
            (Value::FixedLenSeq(x) | Value::VarLenSeq(x), Kind::Seq(_, c)) => (x, Some(*c), &[]),
            (Value::Tuple(x), Kind::Tuple(cs)) => (x, None, cs),
            (Value::Unit, _) => (&empty, None, &[]),
            _ => return self.other("a sequence"),
        };
        let c = self.w.ctx;
        if let Some(h) = q.size_hint() {
            if h != xs.len() { return c.bad(format!("size hint {} for {} elements", h, xs.len())); }
        }
        for (i, x) in xs.iter().enumerate() {
            // the borrow of `empty` ends here: elements only come from the value
            let r = one.unwrap_or_else(|| many[i]);
            let x: &'x Value = unsafe { &*(x as *const Value) };
            if q.next_element_seed(self.w.at(r, x))?.is_none() { return c.bad(format!("element {} of {} is not presented", i, xs.len())); }
        }
        let n = c.idx(3);
        for _ in 0..n {
            if q.next_element::<IgnoredAny>()?.is_some() { return c.bad(format!("more than the {} elements are presented", xs.len())); }
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut q: A) -> Result<(), A::Error> {
        let c = self.w.ctx;
        let mut n = 0;
        match (self.w.v, self.w.kind()) {
            (Value::Struct(xs), Kind::Struct(cs)) => {
                for (x, (name, r)) in xs.iter().zip(cs) {
                    if q.next_key_seed(Name { ctx: c, name, ord: n as u64, of_enum: false })?.is_none() { return c.bad(format!("field {:?} is not presented", name)); }
                    q.next_value_seed(self.w.at(*r, &x.value))?;
                    n += 1;
                }
            }
            (Value::VarLenSeq(xs), Kind::Seq(None, e)) if self.map => {
                let Ref::Node(j) = e else { unreachable!() };
                let Kind::Tuple(p) = &c.arena.nodes[*j].kind else { unreachable!() };
                for x in xs {
                    let Value::Tuple(kv) = x else { unreachable!() };
                    if c.chance(1, 2) {
                        if q.next_entry_seed(self.w.at(p[0], &kv[0]), self.w.at(p[1], &kv[1]))?.is_none() { return c.bad(format!("entry {} is not presented", n)); }
                    } else {
                        if q.next_key_seed(self.w.at(p[0], &kv[0]))?.is_none() { return c.bad(format!("key {} is not presented", n)); }
                        q.next_value_seed(self.w.at(p[1], &kv[1]))?;
                    }
                    n += 1;
                }
            }
            _ => return self.other("a map"),
        }
        let k = c.idx(3);
        for _ in 0..k {
            if q.next_key::<IgnoredAny>()?.is_some() { return c.bad(format!("more than the {} entries are presented", n)); }
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, q: A) -> Result<(), A::Error> {
        let (Value::Enum(e), Kind::Enum(cs)) = (self.w.v, self.w.kind()) else { return self.other("an enum") };
        let c = self.w.ctx;
        let (_, va) = q.variant_seed(Name { ctx: c, name: &e.variant_name, ord: e.variant_ord as u64, of_enum: true })?;
        let inner = self.w.at(cs[e.variant_ord].1, &e.value);
        if inner.due_for_unfit() {
            // the wrong kind of variant
            let (ik, iv) = (inner.kind(), inner.v);
            let rq = match c.idx(3) {
                0 => Rq::Unit(false),
                1 => Rq::Tuple(match (iv, c.idx(2)) { (Value::Tuple(x), _) => x.len() + 1, (Value::VarLenSeq(x) | Value::FixedLenSeq(x), _) => x.len() + 1, (_, n) => n }, false),
                _ => Rq::Struct(if matches!(ik, Kind::Struct(_)) { inner.altered(inner.names()) } else { &[] }),
            };
            if compatible(c.arena, inner.r, iv, &rq) == Some(false) {
                c.unfit.set(true);
                c.note(&format!("UNFIT variant {:?}", rq));
                return match rq { Rq::Unit(_) => va.unit_variant(), Rq::Tuple(n, _) => va.tuple_variant(n, Sloppy), Rq::Struct(l) => va.struct_variant(l, Sloppy), _ => unreachable!() };
            }
        }
        let rq = inner.fitting();
        if c.chance(1, 3) { c.note("newtype_variant"); return va.newtype_variant_seed(inner); }
        match rq {
            Rq::Unit(_) => { c.note("unit_variant"); va.unit_variant() }
            Rq::Tuple(n, _) => { c.note("tuple_variant"); va.tuple_variant(n, Look { w: inner, map: false }) }
            Rq::Struct(l) => { c.note("struct_variant"); va.struct_variant(l, Look { w: inner, map: false }) }
            _ => { c.note("newtype_variant"); va.newtype_variant_seed(inner) }
        }
    }
}

/// The identifier of a field or variant.
struct Name<'x> { ctx: &'x Ctx<'x>, name: &'x str, ord: u64, of_enum: bool }

impl<'de, 'x> DeserializeSeed<'de> for Name<'x> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.ctx.idx(5) {
            0 => d.deserialize_any(self),
            1 => IgnoredAny::deserialize(d).map(|_| ()),
            _ => d.deserialize_identifier(self),
        }
    }
}

impl<'de, 'x> Visitor<'de> for Name<'x> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("an identifier") }
    fn visit_str<E: de::Error>(self, n: &str) -> Result<(), E> {
        if n == self.name { Ok(()) } else { self.ctx.bad(format!("the name {:?} is presented as {:?}", self.name, n)) }
    }
    fn visit_bytes<E: de::Error>(self, n: &[u8]) -> Result<(), E> {
        if n == self.name.as_bytes() { Ok(()) } else { self.ctx.bad(format!("the name {:?} is presented as {:?}", self.name, n)) }
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<(), E> {
        if n == self.ord && self.of_enum { Ok(()) } else { self.ctx.bad(format!("the name {:?}, number {}, is presented as {}", self.name, self.ord, n)) }
    }
}

/// A visitor that takes whatever it gets.
struct Sloppy;

impl<'de> Visitor<'de> for Sloppy {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> { Ok(()) }
    fn visit_i8<E>(self, _: i8) -> Result<(), E> { Ok(()) }
    fn visit_i16<E>(self, _: i16) -> Result<(), E> { Ok(()) }
    fn visit_i32<E>(self, _: i32) -> Result<(), E> { Ok(()) }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> { Ok(()) }
    fn visit_i128<E>(self, _: i128) -> Result<(), E> { Ok(()) }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> { Ok(()) }
    fn visit_u128<E>(self, _: u128) -> Result<(), E> { Ok(()) }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> { Ok(()) }
    fn visit_char<E>(self, _: char) -> Result<(), E> { Ok(()) }
    fn visit_str<E>(self, _: &str) -> Result<(), E> { Ok(()) }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E> { Ok(()) }
    fn visit_unit<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_none<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { IgnoredAny::deserialize(d).map(|_| ()) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { IgnoredAny::deserialize(d).map(|_| ()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<(), A::Error> { while q.next_element::<IgnoredAny>()?.is_some() {} Ok(()) }
    fn visit_map<A: MapAccess<'de>>(self, mut q: A) -> Result<(), A::Error> { while q.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {} Ok(()) }
    fn visit_enum<A: EnumAccess<'de>>(self, q: A) -> Result<(), A::Error> { let (_, v) = q.variant::<IgnoredAny>()?; v.newtype_variant::<IgnoredAny>().map(|_| ()) }
}

fn c14(c: &mut Case) -> Res {
    let cfg = schema_cfg(c.src);
    let s = gen_schema(c.src, &cfg);
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let bytes = match a.encode(&v) { Ok(b) => b, Err(e) => panic!("generated value does not conform: {:?}", e) };
    let names = Names::default();
    let mut stream = bytes.clone();
    let tail = c.src.idx(3);
    stream.extend(&[0x01u8, 0xff][..tail]);
    let target = if c.src.chance(1, 2) { Some(c.src.below(2 * count_nodes(&v))) } else { None };
    let ctx = Ctx {
        src: RefCell::new(&mut *c.src), names: &names, arena: &a, wrong: RefCell::new(None), log: RefCell::new(String::new()),
        count: Cell::new(0), target: Cell::new(target), unfit: Cell::new(false), labels: RefCell::new(vec![]),
    };
    let mut rd = &stream[..];
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut st, &mut rd);
    let human = (&mut d).is_human_readable();
    // the references inside live as long as this function
    let w: Want = Want { ctx: unsafe { &*(&ctx as *const Ctx) }, r: a.root, v: unsafe { &*(&v as *const Value) } };
    let r = w.deserialize(&mut d);
    let fin = st.is_finished();
    let used = stream.len() - rd.len();
    let unfit = ctx.unfit.get();
    let log = ctx.log.borrow().clone();
    let wrong = ctx.wrong.borrow().clone();
    let labels = ctx.labels.borrow().clone();
    drop(ctx);
    must!(!human, "the deserializer calls itself human readable");
    if let Some(m) = wrong {
        return Err(Fail::new(format!("schema {} message {} requests [{}]: {}", short(&s), hex(&bytes), log, m)));
    }
    if unfit {
        must!(r.is_err() || !fin, "schema {} message {} requests [{}]: the unfitting request is answered and the coder finishes", short(&s), hex(&bytes), log);
        c.label(if r.is_err() { "unfit_rejected" } else { "unfit_unfinished" });
    } else {
        if let Err(e) = &r { return Err(Fail::new(format!("schema {} message {} requests [{}]: {}", short(&s), hex(&bytes), log, e))); }
        must!(fin, "schema {} message {} requests [{}]: consumed, but the coder is not finished", short(&s), hex(&bytes), log);
        must!(used == bytes.len(), "schema {} message {} requests [{}]: took {} bytes of a message of {}", short(&s), hex(&bytes), log, used, bytes.len());
        c.label("consumed");
    }
    for l in labels { c.label(l); }
    if composite(&s) && bytes.len() >= 2 { c.nontrivial(mix(mix(hash_of(&s), hash_bytes(&bytes)), hash_str(&log))); }
    c.sample(|| format!("{:?} {} [{}]", s, hex(&bytes), log));
    Ok(())
}

