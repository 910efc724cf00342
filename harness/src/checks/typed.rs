//! C11: the standard types the library declares schemas for.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use crate::must;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, KnownSchema, RecurseStack, ScalarType, Schema, SeqSchema, StructSchemaField};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::borrow::Cow;
use std::collections::*;
use std::hash::Hash;
use std::ops::{Bound, Range, RangeInclusive};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C11", f: c11, quick: 5_000_000, thorough: 80_000_000,
            rule: "a case is one of the instantiated standard types (label types says how many; each is visited equally often) with a generated value of it: schema compared with the expected one, bytes with the reference encoding, round trip and consumption; non-trivial when the message has at least 2 bytes or is of an empty container; distinct by (type, message)" },
    ]
}

/// At this depth values end, as far as they can.
pub const DEEP: u32 = 7;

thread_local! { static FUEL: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }

/// Derived types pay for each of their values; when nothing is left, values end as soon as they can.
pub fn spend(b: u32) -> u32 {
    FUEL.with(|f| { let n = f.get(); f.set(n - 1); if n <= 0 { b.max(DEEP) } else { b } })
}

/// A text that is equal for equal values, whatever the order in sets and maps.
pub fn canon(v: &Value) -> String {
    match v {
        Value::VarLenSeq(v) => {
            let mut x: Vec<String> = v.iter().map(canon).collect();
            x.sort();
            format!("[{}]", x.join(","))
        }
        Value::FixedLenSeq(v) | Value::Tuple(v) => format!("({})", v.iter().map(canon).collect::<Vec<_>>().join(",")),
        Value::Struct(v) => format!("{{{}}}", v.iter().map(|f| format!("{}:{}", f.name, canon(&f.value))).collect::<Vec<_>>().join(",")),
        Value::Enum(e) => format!("{}#{}", e.variant_ord, canon(&e.value)),
        Value::Option(Some(x)) => format!("S{}", canon(x)),
        other => format!("{:?}", other),
    }
}

/// Order and hash of a derived type by its canonical text, so that it can be in sets and be a key.
#[macro_export]
macro_rules! keyed { ($t:ty) => {
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.cmp(o) == ::std::cmp::Ordering::Equal } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> ::std::option::Option<::std::cmp::Ordering> { ::std::option::Option::Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> ::std::cmp::Ordering {
        $crate::checks::typed::canon(&$crate::checks::typed::Ty::val(self)).cmp(&$crate::checks::typed::canon(&$crate::checks::typed::Ty::val(o)))
    } }
    impl ::std::hash::Hash for $t { fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {
        ::std::hash::Hash::hash(&$crate::checks::typed::canon(&$crate::checks::typed::Ty::val(self)), h)
    } }
} }

/// A standard type with an independent statement of its schema and data.
pub trait Ty: KnownSchema + Serialize + DeserializeOwned {
    fn gen(s: &mut Src, b: u32) -> Self;
    fn want() -> Schema;
    fn val(&self) -> Value;
    fn same(&self, o: &Self) -> bool;
}

fn n_of(s: &mut Src, b: u32) -> u64 {
    if b >= DEEP { return 0; }
    match s.weighted(&[3, 8, 1]) {
        0 => 0,
        1 => s.below(if b >= 3 { 2 } else { 6 - b as u64 }),
        _ => if b == 0 { s.below(300) } else { s.below(4) },
    }
}

macro_rules! scalar_ty { ($($t:ty, $k:ident, $cast:ty, $gen:expr;)*) => {$(
    impl Ty for $t {
        fn gen(s: &mut Src, _: u32) -> Self { let f: fn(&mut Src) -> $t = $gen; f(s) }
        fn want() -> Schema { Schema::Scalar(ScalarType::$k) }
        fn val(&self) -> Value { Value::Scalar(ScalarValue::$k(*self as $cast)) }
        fn same(&self, o: &Self) -> bool { seq(&ScalarValue::$k(*self as $cast), &ScalarValue::$k(*o as $cast)) }
    }
)*} }
scalar_ty! {
    u8, U8, u8, |s| gen_uint(s, 8) as u8;
    u16, U16, u16, |s| gen_uint(s, 16) as u16;
    u32, U32, u32, |s| gen_uint(s, 32) as u32;
    u64, U64, u64, |s| gen_uint(s, 64) as u64;
    u128, U128, u128, |s| gen_uint(s, 128);
    i8, I8, i8, |s| gen_sint(s, 8) as i8;
    i16, I16, i16, |s| gen_sint(s, 16) as i16;
    i32, I32, i32, |s| gen_sint(s, 32) as i32;
    i64, I64, i64, |s| gen_sint(s, 64) as i64;
    i128, I128, i128, |s| gen_sint(s, 128);
    f32, F32, f32, gen_f32;
    f64, F64, f64, gen_f64;
    char, Char, char, gen_char;
    bool, Bool, bool, |s| s.chance(1, 2);
    usize, U64, u64, |s| gen_uint(s, 64) as usize;
    isize, I64, i64, |s| gen_sint(s, 64) as isize;
}

impl Ty for String {
    fn gen(s: &mut Src, b: u32) -> Self { if b == 0 { gen_string(s) } else { text(s, 8) } }
    fn want() -> Schema { Schema::Str }
    fn val(&self) -> Value { Value::Str(self.clone()) }
    fn same(&self, o: &Self) -> bool { self == o }
}

impl Ty for () {
    fn gen(_: &mut Src, _: u32) -> Self {}
    fn want() -> Schema { Schema::Unit }
    fn val(&self) -> Value { Value::Unit }
    fn same(&self, _: &Self) -> bool { true }
}

impl<T: Ty> Ty for Option<T> {
    fn gen(s: &mut Src, b: u32) -> Self { if b < DEEP && s.chance(2, 3) { Some(T::gen(s, b + 1)) } else { None } }
    fn want() -> Schema { Schema::Option(Box::new(T::want())) }
    fn val(&self) -> Value { Value::Option(self.as_ref().map(|x| Box::new(x.val()))) }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
}

impl<T: Ty> Ty for Box<T> {
    fn gen(s: &mut Src, b: u32) -> Self { Box::new(T::gen(s, b)) }
    fn want() -> Schema { T::want() }
    fn val(&self) -> Value { (**self).val() }
    fn same(&self, o: &Self) -> bool { (**self).same(o) }
}

impl<T: Ty + Clone> Ty for Cow<'static, T> {
    fn gen(s: &mut Src, b: u32) -> Self {
        Cow::Owned(T::gen(s, b))
    }
    fn want() -> Schema { T::want() }
    fn val(&self) -> Value { (**self).val() }
    fn same(&self, o: &Self) -> bool { (**self).same(o) }
}

fn var_seq(inner: Schema) -> Schema { Schema::Seq(SeqSchema { len: None, inner: Box::new(inner) }) }

macro_rules! seq_ty { ($($c:ident, [$($b:tt)*];)*) => {$(
    impl<T: Ty $($b)*> Ty for $c<T> {
        fn gen(s: &mut Src, b: u32) -> Self { let n = n_of(s, b); (0..n).map(|_| T::gen(s, b + 1)).collect() }
        fn want() -> Schema { var_seq(T::want()) }
        fn val(&self) -> Value { Value::VarLenSeq(self.iter().map(Ty::val).collect()) }
        fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    }
)*} }
seq_ty! { Vec, []; VecDeque, []; LinkedList, []; BTreeSet, [+ Ord]; }

impl<T: Ty + Hash + Eq> Ty for HashSet<T> {
    fn gen(s: &mut Src, b: u32) -> Self { let n = n_of(s, b); (0..n).map(|_| T::gen(s, b + 1)).collect() }
    fn want() -> Schema { var_seq(T::want()) }
    fn val(&self) -> Value { Value::VarLenSeq(self.iter().map(Ty::val).collect()) }
    fn same(&self, o: &Self) -> bool { self == o }
}

impl<T: Ty + Ord + Clone> Ty for BinaryHeap<T> {
    fn gen(s: &mut Src, b: u32) -> Self { let n = n_of(s, b); (0..n).map(|_| T::gen(s, b + 1)).collect() }
    fn want() -> Schema { var_seq(T::want()) }
    fn val(&self) -> Value { Value::VarLenSeq(self.iter().map(Ty::val).collect()) }
    fn same(&self, o: &Self) -> bool { self.clone().into_sorted_vec() == o.clone().into_sorted_vec() }
}

impl<K: Ty + Ord, V: Ty> Ty for BTreeMap<K, V> {
    fn gen(s: &mut Src, b: u32) -> Self { let n = n_of(s, b); (0..n).map(|_| (K::gen(s, b + 1), V::gen(s, b + 1))).collect() }
    fn want() -> Schema { var_seq(Schema::Tuple(vec![K::want(), V::want()])) }
    fn val(&self) -> Value { Value::VarLenSeq(self.iter().map(|(k, v)| Value::Tuple(vec![k.val(), v.val()])).collect()) }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.0.same(b.0) && a.1.same(b.1)) }
}

impl<K: Ty + Hash + Eq, V: Ty> Ty for HashMap<K, V> {
    fn gen(s: &mut Src, b: u32) -> Self { let n = n_of(s, b); (0..n).map(|_| (K::gen(s, b + 1), V::gen(s, b + 1))).collect() }
    fn want() -> Schema { var_seq(Schema::Tuple(vec![K::want(), V::want()])) }
    fn val(&self) -> Value { Value::VarLenSeq(self.iter().map(|(k, v)| Value::Tuple(vec![k.val(), v.val()])).collect()) }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| v.same(w))) }
}

macro_rules! array_ty { ($($n:literal)*) => {$(
    impl<T: Ty> Ty for [T; $n] {
        fn gen(s: &mut Src, b: u32) -> Self { std::array::from_fn(|_| T::gen(s, b + 1)) }
        fn want() -> Schema { Schema::Seq(SeqSchema { len: Some($n), inner: Box::new(T::want()) }) }
        fn val(&self) -> Value { Value::FixedLenSeq(self.iter().map(Ty::val).collect()) }
        fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
    }
)*} }
array_ty! { 1 2 3 4 5 7 8 16 31 32 }

impl<T: Ty> Ty for [T; 0] {
    fn gen(_: &mut Src, _: u32) -> Self { [] }
    fn want() -> Schema { Schema::Seq(SeqSchema { len: Some(0), inner: Box::new(T::want()) }) }
    fn val(&self) -> Value { Value::FixedLenSeq(vec![]) }
    fn same(&self, _: &Self) -> bool { true }
}

macro_rules! tuple_ty { ($($($t:ident $i:tt)*;)*) => {$(
    impl<$($t: Ty),*> Ty for ($($t,)*) {
        fn gen(s: &mut Src, b: u32) -> Self { ($($t::gen(s, b + 1),)*) }
        fn want() -> Schema { Schema::Tuple(vec![$($t::want()),*]) }
        fn val(&self) -> Value { Value::Tuple(vec![$(self.$i.val()),*]) }
        fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
    }
)*} }
tuple_ty! {
    A 0;
    A 0 B 1;
    A 0 B 1 C 2;
    A 0 B 1 C 2 D 3;
    A 0 B 1 C 2 D 3 E 4;
    A 0 B 1 C 2 D 3 E 4 F 5;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10;
}

fn field(name: &str, inner: Schema) -> StructSchemaField { StructSchemaField { name: name.into(), inner } }
pub fn vfield(name: &str, value: Value) -> StructValueField { StructValueField { name: name.into(), value } }
fn variant(name: &str, inner: Schema) -> EnumSchemaVariant { EnumSchemaVariant { name: name.into(), inner } }

impl<T: Ty> Ty for Range<T> {
    fn gen(s: &mut Src, b: u32) -> Self { T::gen(s, b + 1)..T::gen(s, b + 1) }
    fn want() -> Schema { Schema::Struct(vec![field("start", T::want()), field("end", T::want())]) }
    fn val(&self) -> Value { Value::Struct(vec![vfield("start", self.start.val()), vfield("end", self.end.val())]) }
    fn same(&self, o: &Self) -> bool { self.start.same(&o.start) && self.end.same(&o.end) }
}

impl<T: Ty> Ty for RangeInclusive<T> {
    fn gen(s: &mut Src, b: u32) -> Self { T::gen(s, b + 1)..=T::gen(s, b + 1) }
    fn want() -> Schema { Schema::Struct(vec![field("start", T::want()), field("end", T::want())]) }
    fn val(&self) -> Value { Value::Struct(vec![vfield("start", self.start().val()), vfield("end", self.end().val())]) }
    fn same(&self, o: &Self) -> bool { self.start().same(o.start()) && self.end().same(o.end()) }
}

impl<T: Ty> Ty for Bound<T> {
    fn gen(s: &mut Src, b: u32) -> Self {
        match if b < DEEP { s.idx(3) } else { 0 } { 0 => Bound::Unbounded, 1 => Bound::Included(T::gen(s, b + 1)), _ => Bound::Excluded(T::gen(s, b + 1)) }
    }
    fn want() -> Schema {
        Schema::Enum(vec![variant("Unbounded", Schema::Unit), variant("Included", T::want()), variant("Excluded", T::want())])
    }
    fn val(&self) -> Value {
        let (variant_ord, n, v) = match self {
            Bound::Unbounded => (0, "Unbounded", Value::Unit),
            Bound::Included(x) => (1, "Included", x.val()),
            Bound::Excluded(x) => (2, "Excluded", x.val()),
        };
        Value::Enum(EnumValue { variant_ord, variant_name: n.into(), value: Box::new(v) })
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Bound::Unbounded, Bound::Unbounded) => true,
            (Bound::Included(a), Bound::Included(b)) | (Bound::Excluded(a), Bound::Excluded(b)) => a.same(b),
            _ => false,
        }
    }
}

impl Ty for Schema {
    fn gen(s: &mut Src, _: u32) -> Self { gen_schema(s, &SchemaCfg { illegal: true, max_nodes: 12, inhabited: false, extreme: false, ..Default::default() }) }
    fn want() -> Schema { crate::checks::meta::meta() }
    fn val(&self) -> Value { crate::checks::meta::schema_value(self) }
    fn same(&self, o: &Self) -> bool { self == o }
}

/// Serialize `v` under `schema` and check bytes and completion.
pub fn ser_check<T: Serialize + ?Sized>(what: &str, schema: &Schema, v: &T, want: &[u8]) -> Res {
    let mut out = Vec::new();
    let mut st = CoderState::new(schema, CoderStateAlloc::new(), None);
    let r = v.serialize(&mut Encoder::new(&mut st, &mut out));
    must!(r.is_ok(), "{what}: serializing under the declared schema fails: {:?}", r.err());
    must!(st.is_finished(), "{what}: serialized, but the coder is not finished");
    must!(st.is_finished_or_err().is_ok(), "{what}: is_finished and is_finished_or_err disagree");
    must!(out == want, "{what}: serialized as {} instead of {}", hex(&out), hex(want));
    Ok(())
}

/// The whole round trip of a typed value.
pub fn typed_round_trip<T: Serialize + DeserializeOwned>(
    what: &str, schema: &Schema, v: &T, val: &Value, tail: &[u8], same: impl Fn(&T, &T) -> bool,
) -> Result<Vec<u8>, Fail> {
    let a = Arena::new(schema);
    let bytes = match a.encode(val) {
        Ok(b) => b,
        Err(e) => return Err(Fail::new(format!("{what}: the value {} does not conform to the declared schema {} ({:?})", short(val), short(schema), e))),
    };
    ser_check(what, schema, v, &bytes)?;
    let mut stream = bytes.clone();
    stream.extend_from_slice(tail);
    let mut rd = &stream[..];
    let mut st = CoderState::new(schema, CoderStateAlloc::new(), None);
    let r = T::deserialize(&mut Decoder::new(&mut st, &mut rd));
    let fin = st.is_finished();
    let used = stream.len() - rd.len();
    match r {
        Err(e) => return Err(Fail::new(format!("{what}: deserializing {} fails: {}", hex(&bytes), e))),
        Ok(x) => must!(same(v, &x), "{what}: deserializing {} gives another value than {}", hex(&bytes), short(val)),
    }
    must!(fin, "{what}: deserialized from {}, but the coder is not finished", hex(&bytes));
    must!(used == bytes.len(), "{what}: took {} bytes of a message of {}", used, bytes.len());
    Ok(bytes)
}

pub fn run<T: Ty>(c: &mut Case, name: &'static str) -> Res {
    FUEL.with(|f| f.set(60));
    let v = T::gen(c.src, 0);
    let schema = T::schema(RecurseStack::new());
    let want = T::want();
    must!(schema == want, "{name}: declared schema {:?}, the natural one is {:?}", schema, want);
    // a second request in the midst of a foreign stack gives the same
    let base = RecurseStack::new();
    let l1 = base.with_none_layer();
    let l2 = l1.with_type_layer::<[u8; 6]>();
    must!(T::schema(l2) == want, "{name}: declared schema depends on unrelated enclosing layers");
    let val = v.val();
    let tail = [0xffu8, 0x00, 0x80];
    let k = c.src.idx(4);
    let bytes = typed_round_trip(name, &schema, &v, &val, &tail[..k], T::same)?;
    // the same data through references and boxes
    ser_check(name, &<&T as KnownSchema>::schema(RecurseStack::new()), &&v, &bytes)?;
    let mut v2 = v;
    ser_check(name, &<&mut T as KnownSchema>::schema(RecurseStack::new()), &&mut v2, &bytes)?;
    if bytes.len() >= 2 { c.nontrivial(mix(hash_str(name), hash_bytes(&bytes))); }
    else if matches!(&val, Value::VarLenSeq(_) | Value::FixedLenSeq(_) | Value::Tuple(_)) { c.nontrivial(hash_str(name)); }
    if bytes.len() > 200 { c.label("long_message"); }
    c.sample(|| format!("{} {} -> {}", name, short(&val), hex(&bytes)));
    Ok(())
}

/// The unsized and borrowed forms, which can only be serialized.
fn borrowed(c: &mut Case, _: &'static str) -> Res {
    let s = String::gen(c.src, 0);
    let a = Arena::new(&Schema::Str).encode(&s.val()).unwrap();
    must!(<str as KnownSchema>::schema(RecurseStack::new()) == Schema::Str, "str: schema");
    ser_check("str", &<str as KnownSchema>::schema(RecurseStack::new()), s.as_str(), &a)?;
    let v = Vec::<u16>::gen(c.src, 0);
    let want = Vec::<u16>::want();
    let sc = <[u16] as KnownSchema>::schema(RecurseStack::new());
    must!(sc == want, "[u16]: declared schema {:?}", sc);
    let b = Arena::new(&want).encode(&v.val()).unwrap();
    ser_check("[u16]", &sc, &v[..], &b)?;
    let w = Vec::<Option<String>>::gen(c.src, 0);
    let want = Vec::<Option<String>>::want();
    let sc = <[Option<String>] as KnownSchema>::schema(RecurseStack::new());
    must!(sc == want, "[Option<String>]: declared schema {:?}", sc);
    ser_check("[Option<String>]", &sc, &w[..], &Arena::new(&want).encode(&w.val()).unwrap())?;
    let x = String::gen(c.src, 0);
    ser_check("Cow::Borrowed", &<Cow<String> as KnownSchema>::schema(RecurseStack::new()), &Cow::Borrowed(&x), &Arena::new(&Schema::Str).encode(&x.val()).unwrap())?;
    if b.len() > 2 { c.nontrivial(hash_bytes(&b)); }
    Ok(())
}

/// Arrays of any length, also longer than serde knows: the schema, alone and in other types, and a sequence of that length under it.
fn big<T: Ty + Clone, const N: usize>(c: &mut Case, name: &'static str) -> Res {
    let want = || Schema::Seq(SeqSchema { len: Some(N), inner: Box::new(T::want()) });
    let root = || RecurseStack::new();
    let schema = <[T; N] as KnownSchema>::schema(root());
    must!(schema == want(), "[{name}]: declared schema {:?}, expected {:?}", schema, want());
    for (ctx, got, exp) in [
        ("&", <&[T; N] as KnownSchema>::schema(root()), want()),
        ("Box", <Box<[T; N]> as KnownSchema>::schema(root()), want()),
        ("Option", <Option<[T; N]> as KnownSchema>::schema(root()), Schema::Option(Box::new(want()))),
        ("Vec", <Vec<[T; N]> as KnownSchema>::schema(root()), var_seq(want())),
        ("array", <[[T; N]; 3] as KnownSchema>::schema(root()), Schema::Seq(SeqSchema { len: Some(3), inner: Box::new(want()) })),
        ("tuple", <(u8, [T; N]) as KnownSchema>::schema(root()), Schema::Tuple(vec![Schema::Scalar(ScalarType::U8), want()])),
    ] {
        must!(got == exp, "{ctx} of [{name}]: declared schema {:?}, expected {:?}", got, exp);
    }
    if N > 70_000 { return Ok(()); }
    FUEL.with(|f| f.set(60));
    let few: Vec<T> = (0..1 + c.src.below(8)).map(|_| T::gen(c.src, 5)).collect();
    let r = 1 + c.src.idx(13);
    let v: Vec<T> = (0..N).map(|i| few[(i / r + i) % few.len()].clone()).collect();
    let val = Value::FixedLenSeq(v.iter().map(Ty::val).collect());
    let bytes = typed_round_trip(name, &schema, &v, &val, &[0xff, 0x80], Vec::<T>::same)?;
    c.nontrivial(mix(hash_str(name), hash_bytes(&bytes)));
    Ok(())
}

pub type Runner = fn(&mut Case, &'static str) -> Res;

macro_rules! table { ($($t:ty),* $(,)?) => { &[$((run::<$t> as Runner, stringify!($t)),)* (borrowed as Runner, "borrowed")] } }

type T11<A> = (A, A, A, A, A, A, A, A, A, A, A);

static TABLE: &[(Runner, &str)] = table![
    u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char, bool, usize, isize, String, (),
    Option<u8>, Option<()>, Option<String>, Option<Option<bool>>, Option<Vec<u8>>, Option<(u8, u8)>, Option<Range<u8>>,
    Vec<u8>, Vec<u64>, Vec<()>, Vec<String>, Vec<Vec<u8>>, Vec<Option<i32>>, Vec<(u8, String)>, Vec<[u8; 3]>, Vec<Vec<Vec<Vec<bool>>>>, Vec<f64>, Vec<char>, Vec<HashMap<u8, u8>>, Vec<Bound<u8>>,
    VecDeque<u8>, VecDeque<String>, VecDeque<Vec<i16>>, VecDeque<()>, LinkedList<u8>, LinkedList<String>, LinkedList<Option<u64>>, LinkedList<LinkedList<f32>>,
    BTreeSet<u8>, BTreeSet<String>, BTreeSet<(i64, bool)>, BTreeSet<Vec<u8>>, BTreeSet<Option<u32>>, BTreeSet<()>, BTreeSet<usize>,
    HashSet<u8>, HashSet<String>, HashSet<(i64, bool)>, HashSet<Vec<u8>>, HashSet<char>, HashSet<()>, HashSet<Option<u16>>,
    BinaryHeap<u8>, BinaryHeap<String>, BinaryHeap<(i64, bool)>, BinaryHeap<Vec<u8>>, BinaryHeap<()>, BinaryHeap<i128>,
    BTreeMap<u8, u8>, BTreeMap<String, Vec<u8>>, BTreeMap<(u8, i32), Option<String>>, BTreeMap<u64, BTreeMap<u8, f32>>, BTreeMap<(), ()>, BTreeMap<String, ()>, BTreeMap<Vec<u8>, [u8; 2]>, BTreeMap<bool, Bound<i32>>, BTreeMap<Option<u8>, HashSet<u8>>,
    HashMap<u8, u8>, HashMap<String, Vec<u8>>, HashMap<(u8, i32), Option<String>>, HashMap<u64, HashMap<u8, f32>>, HashMap<(), ()>, HashMap<String, ()>, HashMap<Vec<u8>, [u8; 2]>, HashMap<char, RangeInclusive<u8>>, HashMap<i8, HashMap<(), Vec<()>>>,
    [u8; 0], [u8; 1], [u8; 2], [u8; 32], [u16; 7], [u64; 8], [String; 2], [String; 0], [(); 3], [Vec<u8>; 2], [[u8; 2]; 3], [[[bool; 1]; 2]; 0], [Option<u8>; 5], [HashMap<u8, ()>; 1], [char; 31], [(u8, String); 4], [i128; 16],
    (u8,), (String,), ((),), (Vec<u8>,), (Option<()>,), ((u8,),), (u8, u8), (u8, String), ((), ()), ((), u8), (u8, ()), (f32, f64), (Vec<u8>, Vec<String>), (bool, char, i8),
    (u8, u16, u32, u64), (i8, i16, i32, i64, i128), (u8, String, (), Option<u8>, Vec<u8>, char), (u8, u8, u8, u8, u8, u8, u8), (u8, i8, u16, i16, u32, i32, u64, i64), (bool, bool, bool, bool, bool, bool, bool, bool, bool), (u8, String, u8, String, u8, String, u8, String, u8, String), T11<u8>, T11<Option<u16>>,
    (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, String), ((u8, (u16, (u32, (u64,)))), ()), T11<T11<bool>>,
    Range<u8>, Range<i64>, Range<String>, Range<f64>, Range<Option<u8>>, Range<(u8, u8)>, Range<()>, Range<Range<u8>>, RangeInclusive<u8>, RangeInclusive<u32>, RangeInclusive<String>, RangeInclusive<char>, RangeInclusive<RangeInclusive<i8>>, RangeInclusive<Vec<u8>>,
    Bound<u8>, Bound<i64>, Bound<String>, Bound<()>, Bound<Bound<u8>>, Bound<Option<u8>>, Bound<Vec<u8>>, Bound<Range<u16>>, Bound<(u8, u8)>, (Bound<u8>, Bound<u8>), Vec<Range<Bound<i32>>>,
    Box<u8>, Box<String>, Box<Vec<Box<u8>>>, Box<(u8, Box<u16>)>, Option<Box<u8>>, Box<Option<Box<()>>>, Vec<Box<[u8; 2]>>, Box<Box<bool>>, Box<()>,
    Cow<'static, String>, Cow<'static, u8>, Cow<'static, Vec<u8>>, Vec<Cow<'static, String>>, Cow<'static, [u8; 4]>,
    Option<BTreeMap<String, Vec<(u8, Option<Range<f32>>)>>>, HashMap<String, HashMap<String, HashMap<String, Vec<Option<u8>>>>>, Vec<(HashSet<u8>, BTreeSet<u8>, LinkedList<u8>, BinaryHeap<u8>, VecDeque<u8>)>, [Vec<[Option<(u8, String)>; 2]>; 3], (Option<Vec<[u8; 1]>>, BTreeMap<u8, (Bound<()>, Box<i16>)>),
    Schema, Option<Schema>, Vec<Schema>, (Schema, u8), HashMap<String, Schema>, BTreeMap<Schema, Schema>,
];

macro_rules! bigs { ($($t:ty: [$($n:tt)*])*) => { &[$($((big::<$t, {$n}> as Runner, concat!(stringify!($t), "; ", stringify!($n))),)*)*] } }
static BIG: &[(Runner, &str)] = bigs![
    u8: [33 34 40 48 63 64 65 70 80 99 100 101 120 127 128 129 160 192 199 200 201 240 250 255 256 257 300 400 500 511 512 513 600 700 777 800 900 999 1000 1023 1024 1025 1500 2000 2048 4096 10000 65535 65536 65537 1_000_000 0x7fff_ffff 0xffff_ffff 0x1_0000_0000 0xffff_ffff_ffff]
    (): [33 64 100 128 256 257 1024 65536 0x7fff_ffff_ffff_ffff 0xffff_ffff_ffff_fffe 0xffff_ffff_ffff_ffff]
    u64: [33 64 100 128 129 255 256 257 1000 8192]
    char: [33 64 128 256 300]
    bool: [33 64 100 255 256 1024]
    String: [33 64 100 256 300]
    Vec<u8>: [33 64 128 256]
    (u8, String): [33 64 200 257]
    Option<i32>: [33 64 100 256]
    [u8; 2]: [33 64 300]
    f32: [33 100 500] f64: [40 256] i8: [50 300] i16: [33 1000] i128: [64 256] u16: [65 777] u32: [64 300] usize: [33 128]
];

fn c11(c: &mut Case) -> Res {
    let n = TABLE.len();
    let k = (c.idx as usize + c.src.idx(n)) % n;
    if c.idx == 0 { c.label_n("types", (n + BIG.len()) as u64); }
    if c.idx % 2000 < BIG.len() as u64 || c.src.chance(1, 2000) {
        let (f, name) = BIG[(c.idx as usize % 2000 + c.src.idx(BIG.len())) % BIG.len()];
        c.label("long_array");
        return f(c, name);
    }
    let (f, name) = TABLE[k];
    f(c, name)
}

/// Only the schema of a type whose values would not make sense alone.
pub fn schema_only<T: Ty>(_: &mut Case, name: &'static str) -> Res {
    let schema = T::schema(RecurseStack::new());
    let want = T::want();
    must!(schema == want, "{name}: declared schema {:?}, expected {:?}", schema, want);
    Ok(())
}

/// The types of a generated program, each in turn.
pub fn pick_and_run(c: &mut Case, tables: &[&'static [(Runner, &'static str)]]) -> Res {
    let n: usize = tables.iter().map(|t| t.len()).sum();
    if c.idx == 0 { c.label_n("types", n as u64); }
    let mut k = (c.idx as usize + c.src.idx(n)) % n;
    for t in tables {
        if k < t.len() { return (t[k].0)(c, t[k].1); }
        k -= t.len();
    }
    unreachable!()
}
