//! C15: schemas as data.

use crate::checks::core::encode_ops;
use crate::checks::typed::typed_round_trip;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use crate::must;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{CoderState, CoderStateAlloc, Decoder, EnumSchemaVariant, KnownSchema, RecurseStack, ScalarType, Schema, SeqSchema, StructSchemaField};
use serde::Deserialize;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C15", f: c15, quick: 250_000, thorough: 8_000_000,
            rule: "a case is a generated schema (recursive ones and, half of the time, ones with illegal recursion, huge levels and lengths), transported under the schema of schemas, and a value coded with the original and the copy; case 0 transports the schema of schemas itself; non-trivial when the schema has at least 3 nodes; distinct by schema" },
    ]
}

fn f(name: &str, inner: Schema) -> StructSchemaField { StructSchemaField { name: name.into(), inner } }
fn e(name: &str, inner: Schema) -> EnumSchemaVariant { EnumSchemaVariant { name: name.into(), inner } }
fn vs(inner: Schema) -> Schema { Schema::Seq(SeqSchema { len: None, inner: Box::new(inner) }) }

const SCALAR_NAMES: [&str; 14] = ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128", "F32", "F64", "Char", "Bool"];

/// The meta-schema, copied from the format document.
pub fn meta() -> Schema {
    Schema::Enum(vec![
        e("Scalar", Schema::Enum(SCALAR_NAMES.iter().map(|n| e(n, Schema::Unit)).collect())),
        e("Str", Schema::Unit),
        e("Bytes", Schema::Unit),
        e("Unit", Schema::Unit),
        e("Option", Schema::Recurse(1)),
        e("Seq", Schema::Struct(vec![
            f("len", Schema::Option(Box::new(Schema::Scalar(ScalarType::U64)))),
            f("inner", Schema::Recurse(2)),
        ])),
        e("Tuple", vs(Schema::Recurse(2))),
        e("Struct", vs(Schema::Struct(vec![f("name", Schema::Str), f("inner", Schema::Recurse(3))]))),
        e("Enum", vs(Schema::Struct(vec![f("name", Schema::Str), f("inner", Schema::Recurse(3))]))),
        e("Recurse", Schema::Scalar(ScalarType::U64)),
    ])
}

fn ev(ord: usize, name: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.into(), value: Box::new(v) })
}
fn fv(name: &str, value: Value) -> StructValueField { StructValueField { name: name.into(), value } }
fn u64v(n: usize) -> Value { Value::Scalar(ScalarValue::U64(n as u64)) }

/// A schema as a value of the meta-schema.
pub fn schema_value(s: &Schema) -> Value {
    match s {
        Schema::Scalar(st) => {
            let k = SCALARS.iter().position(|x| x == st).unwrap();
            ev(0, "Scalar", ev(k, SCALAR_NAMES[k], Value::Unit))
        }
        Schema::Str => ev(1, "Str", Value::Unit),
        Schema::Bytes => ev(2, "Bytes", Value::Unit),
        Schema::Unit => ev(3, "Unit", Value::Unit),
        Schema::Option(i) => ev(4, "Option", schema_value(i)),
        Schema::Seq(q) => ev(5, "Seq", Value::Struct(vec![
            fv("len", Value::Option(q.len.map(|n| Box::new(u64v(n))))),
            fv("inner", schema_value(&q.inner)),
        ])),
        Schema::Tuple(v) => ev(6, "Tuple", Value::VarLenSeq(v.iter().map(schema_value).collect())),
        Schema::Struct(v) => ev(7, "Struct", Value::VarLenSeq(v.iter().map(|x| Value::Struct(vec![
            fv("name", Value::Str(x.name.clone())), fv("inner", schema_value(&x.inner))])).collect())),
        Schema::Enum(v) => ev(8, "Enum", Value::VarLenSeq(v.iter().map(|x| Value::Struct(vec![
            fv("name", Value::Str(x.name.clone())), fv("inner", schema_value(&x.inner))])).collect())),
        Schema::Recurse(n) => ev(9, "Recurse", u64v(*n)),
    }
}

/// Huge lengths and levels, which only the transport sees.
fn blow_up(src: &mut Src, s: &mut Schema) {
    match s {
        Schema::Recurse(n) => if src.chance(1, 2) { *n = gen_uint(src, 64) as usize },
        Schema::Option(i) => blow_up(src, i),
        Schema::Seq(q) => {
            if q.len.is_some() && src.chance(1, 2) { q.len = Some(gen_uint(src, 64) as usize); }
            blow_up(src, &mut q.inner)
        }
        Schema::Tuple(v) => v.iter_mut().for_each(|x| blow_up(src, x)),
        Schema::Struct(v) => v.iter_mut().for_each(|x| blow_up(src, &mut x.inner)),
        Schema::Enum(v) => v.iter_mut().for_each(|x| blow_up(src, &mut x.inner)),
        _ => {}
    }
}

pub fn schema_nodes(s: &Schema) -> u64 {
    1 + match s {
        Schema::Option(i) => schema_nodes(i),
        Schema::Seq(q) => schema_nodes(&q.inner),
        Schema::Tuple(v) => v.iter().map(schema_nodes).sum(),
        Schema::Struct(v) => v.iter().map(|x| schema_nodes(&x.inner)).sum(),
        Schema::Enum(v) => v.iter().map(|x| schema_nodes(&x.inner)).sum(),
        _ => 0,
    }
}

fn c15(c: &mut Case) -> Res {
    let lib = Schema::schema(RecurseStack::new());
    let doc = meta();
    must!(lib == doc, "the library's schema of schemas is not the documented one: {:?}", lib);
    let illegal = c.src.chance(1, 3);
    let codable = c.src.chance(1, 2);
    let recursive = c.src.chance(1, 3);
    let mut s = if c.idx == 0 { doc.clone() } else {
        gen_schema(c.src, &SchemaCfg { illegal, recursive, inhabited: codable, ..Default::default() })
    };
    if !codable && c.idx > 0 { blow_up(c.src, &mut s); }
    let val = schema_value(&s);
    let tail = [0xffu8, 0x00, 0x80];
    let k = c.src.idx(4);
    let bytes = typed_round_trip("Schema", &lib, &s, &val, &tail[..k], |a, b| a == b)?;
    // as dynamic data, both ways
    let (r, fin, used) = decode(&lib, &bytes);
    match &r {
        Ok(v) => must!(veq(v, &val) && fin && used == bytes.len(), "decoded dynamically, {} is {} and not {}", hex(&bytes), short(v), short(&val)),
        Err(e) => return Err(Fail::new(format!("decoding a transported schema dynamically fails: {} for {:?}", e, s))),
    }
    let (r, fin, out) = encode(&lib, &val);
    must!(r.is_ok() && fin && out == bytes, "a schema encoded dynamically is {} and not {}", hex(&out), hex(&bytes));
    if c.idx == 0 || codable {
        // the copy codes like the original
        let copy = {
            let mut st = CoderState::new(&lib, CoderStateAlloc::new(), None);
            let mut rd = &bytes[..];
            let r = Schema::deserialize(&mut Decoder::new(&mut st, &mut rd));
            match r { Ok(x) => x, Err(e) => return Err(Fail::new(format!("deserializing a schema a second time fails: {}", e))) }
        };
        let a = if illegal { Arena::new_lenient(&s) } else { Arena::new(&s) };
        let v = if illegal { if c.src.chance(1, 2) { any_value(c.src, 3) } else { gen_value(c.src, &a) } } else { gen_value(c.src, &a) };
        let x = encode_ops(&s, &v);
        let y = encode_ops(&copy, &v);
        must!(x.2 == y.2 && x.1 == y.1 && kind_of(&x.0) == kind_of(&y.0), "the copy of {} codes {} as {} and not {}", short(&s), short(&v), hex(&y.2), hex(&x.2));
        // a value without end cannot be tried
        if RefDec::new(&x.2, Limits::default()).value(&a, a.root) == Err(RefErr::TooBig) { c.discard(); return Ok(()); }
        let x = decode(&s, &x.2);
        let y = decode(&copy, &y.2);
        must!(x.1 == y.1 && x.2 == y.2 && kind_of(&x.0) == kind_of(&y.0), "the copy of {} decodes otherwise", short(&s));
        if let (Ok(p), Ok(q)) = (&x.0, &y.0) { must!(veq(p, q), "the copy of {} decodes another value", short(&s)); }
        c.label("coded_with_copy");
    }
    if illegal { c.label("illegal_recursion_possible"); }
    if schema_nodes(&s) >= 3 { c.nontrivial(hash_bytes(&bytes)); }
    c.sample(|| format!("{:?} -> {}", s, hex(&bytes)));
    Ok(())
}
