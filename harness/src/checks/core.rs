//! C01–C06: the format, dynamic values, scalars, arbitrary bytes, I/O failures, conformance.

use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use super::serde_io::Names;
use super::ways::*;
use binschema::error::{Error, ErrorKind};
use binschema::value::{ScalarValue, Value};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema};
use std::io::ErrorKind as IoKind;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", f: c01, quick: 3_000_000, thorough: 60_000_000,
            rule: "a case is a generated legal schema with a generated conforming value, encoded through Value and through individual calls and compared with the reference encoding; non-trivial when the message has at least 2 bytes and the schema at least one composite node; distinct by (schema, message)" },
        Check { id: "C02", f: c02, quick: 1_500_000, thorough: 40_000_000,
            rule: "a case is a stream of 1 to 4 messages of generated schemas and values followed by arbitrary bytes, decoded one after another; non-trivial when the stream holds at least 3 bytes and a composite schema; distinct by stream and schemas" },
        Check { id: "C03", f: c03, quick: 2_000_000, thorough: 50_000_000,
            rule: "a case is 24 scalars, each encoded, measured and decoded, and 24 byte strings decoded as a scalar type (out of range, over-long, invalid, truncated); the first 64 cases together also cover every u16, i16 and char; non-trivial is every case with at least one rejected byte string; distinct by the bytes tried" },
        Check { id: "C04", f: c04, quick: 3_000_000, thorough: 80_000_000,
            rule: "a case is a generated schema and a byte string (corrupted message, mutated message or random bytes), decoded as a dynamic value and by the reference decoder; non-trivial when the reference decoder rejects it or took at least 3 bytes; distinct by (schema, bytes)" },
        Check { id: "C05", f: c05, quick: 30_000, thorough: 1_000_000,
            rule: "a case is a generated message, coded once for every byte offset (all offsets up to 300, else the first and last 120 and 60 drawn ones) and direction with an I/O failure injected exactly there; non-trivial when there are at least 3 offsets; distinct by (schema, message). evaluations counts injected failures too (label fault_points)" },
        Check { id: "C06", f: c06, quick: 600_000, thorough: 16_000_000,
            rule: "a case is a generated schema and a value that conforms, or one mutated in 1 to 3 places, or an unrelated one; the reference says whether it conforms; non-trivial when it does not conform, or conforms after mutation; distinct by (schema, value)" },
    ]
}

pub fn composite(s: &Schema) -> bool {
    !matches!(s, Schema::Scalar(_) | Schema::Str | Schema::Bytes | Schema::Unit | Schema::Recurse(_))
}

/// The individual calls that encode a value.
pub fn ops_of(v: &Value, out: &mut Vec<Op>) {
    match v {
        Value::Scalar(s) => out.push(Op::Put(*s)),
        Value::Str(s) => out.push(Op::PutStr(s.clone())),
        Value::Bytes(s) => out.push(Op::PutBytes(s.clone())),
        Value::Unit => out.push(Op::Unit),
        Value::Option(None) => out.push(Op::PutNone),
        Value::Option(Some(x)) => { out.push(Op::PutSome); ops_of(x, out); }
        Value::FixedLenSeq(x) | Value::VarLenSeq(x) => {
            out.push(if matches!(v, Value::FixedLenSeq(_)) { Op::FixedSeq(x.len()) } else { Op::PutVarSeq(x.len()) });
            for e in x { out.push(Op::SeqElem); ops_of(e, out); }
            out.push(Op::FinSeq);
        }
        Value::Tuple(x) => {
            out.push(Op::Tuple);
            for e in x { out.push(Op::TupleElem); ops_of(e, out); }
            out.push(Op::FinTuple);
        }
        Value::Struct(x) => {
            out.push(Op::Struct);
            for e in x { out.push(Op::Field(e.name.clone())); ops_of(&e.value, out); }
            out.push(Op::FinStruct);
        }
        Value::Enum(e) => { out.push(Op::PutEnum(e.variant_ord, e.variant_name.clone())); ops_of(&e.value, out); }
    }
}

pub fn encode_ops(s: &Schema, v: &Value) -> (Result<(), Error>, bool, Vec<u8>) {
    let mut ops = Vec::new();
    ops_of(v, &mut ops);
    let mut out = Vec::new();
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    let mut r = Ok(());
    for op in &ops {
        r = do_enc(&mut e, op);
        if r.is_err() { break; }
    }
    let f = st.is_finished();
    (r, f, out)
}

fn label_schema(c: &mut Case, a: &Arena) {
    if a.recursions > 0 { c.label("schema_recursive"); }
    if a.nodes.len() > 30 { c.label("schema_large"); }
    if a.nodes.iter().any(|n| matches!(&n.kind, Kind::Enum(v) if v.len() > 256)) { c.label("enum_over_256"); }
    if a.nodes.iter().any(|n| matches!(&n.kind, Kind::Enum(v) if v.len() > 65536)) { c.label("enum_over_65536"); }
}

pub fn c01(c: &mut Case) -> Res {
    let s = gen_schema(c.src, &SchemaCfg::default());
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let want = match a.encode(&v) { Ok(b) => b, Err(e) => panic!("harness: generated value does not conform: {:?}", e) };
    label_schema(c, &a);
    for (how, (r, fin, got)) in [("Value::encode_to", encode(&s, &v)), ("individual calls", encode_ops(&s, &v))] {
        if let Err(e) = r { fail!("{} rejects a conforming value: {}\nschema {}\nvalue {}", how, clip(&e.to_string(), 600), short(&s), short(&v)); }
        must!(fin, "{}: not finished after a complete value\nschema {}\nvalue {}", how, short(&s), short(&v));
        must!(got == want, "{} wrote {}, the format says {}\nschema {}\nvalue {}", how, hex(&got), hex(&want), short(&s), short(&v));
    }
    if composite(&s) && want.len() >= 2 {
        c.nontrivial(mix(hash_of(&s), hash_bytes(&want)));
        c.sample(|| format!("schema {} value {} bytes {}", short(&s), short(&v), hex(&want)));
    }
    Ok(())
}

pub fn c02(c: &mut Case) -> Res {
    let many = c.src.chance(1, 200);
    let n = if many { match c.src.dict(300) { Some(x) if c.src.chance(1, 2) => (x as usize).max(1), _ => 40 + c.src.idx(260) } } else { c.src.range(1, 4) as usize };
    let mut stream = Vec::new();
    let mut msgs = Vec::new();
    for _ in 0..n {
        let s = gen_schema(c.src, &SchemaCfg { extreme: n < 3, max_nodes: if many { 5 } else { 0 }, ..SchemaCfg::default() });
        let a = Arena::new(&s);
        let v = gen_value(c.src, &a);
        let (r, fin, b) = encode(&s, &v);
        must!(r.is_ok() && fin, "conforming value not encoded to completion\nschema {}\nvalue {}", short(&s), short(&v));
        stream.extend(&b);
        drop(a);
        msgs.push((s, v, stream.len(), DecWay::draw(c.src)));
    }
    let body = stream.len();
    let tail = random_bytes(c.src);
    stream.extend(&tail);
    let mut r: &[u8] = &stream;
    let mut alloc = CoderStateAlloc::new();
    for (s, v, end, way) in &msgs {
        let d = decode_by(*way, &Arena::new(s), s, &mut r, alloc);
        alloc = d.alloc;
        let got = match d.result { Ok(x) => x, Err(e) => fail!("decoding a completed encoding ({}) fails: {}\nschema {}\nvalue {}", way.name(), clip(&e.to_string(), 500), short(s), short(v)) };
        must!(got.as_ref().map_or(true, |g| veq(g, v)), "decoded ({}) {} instead of {}\nschema {}", way.name(), short(&got), short(v), short(s));
        c.label(way.name());
        must!(d.finished, "decoder not finished after the value\nschema {}\nvalue {}", short(s), short(v));
        let pos = stream.len() - r.len();
        must!(pos == *end, "decoder took {} bytes of the stream, the message ends at {}\nschema {}\nvalue {}", pos, end, short(s), short(v));
    }
    c.label_n("messages", n as u64);
    if body >= 3 && msgs.iter().any(|m| composite(&m.0)) {
        c.nontrivial(mix(hash_bytes(&stream), msgs.iter().fold(0, |h, m| mix(h, hash_of(&m.0)))));
        c.sample(|| format!("{} messages, schemas {}, stream {}", n, short(&msgs.iter().map(|m| &m.0).collect::<Vec<_>>()), hex(&stream)));
    }
    Ok(())
}

// ---------------------------------------------------------------- scalars

/// Smallest number of bytes a value can take under the format, computed from its magnitude alone.
pub fn minimal_len(v: &ScalarValue) -> usize {
    let ceil7 = |bits: u32| ((bits + 6) / 7).max(1) as usize;
    let u = |n: u128| ceil7(128 - n.leading_zeros());
    let s = |n: i128| ceil7(1 + 128 - (if n < 0 { !n } else { n } as u128).leading_zeros());
    match *v {
        ScalarValue::U8(_) | ScalarValue::I8(_) | ScalarValue::Bool(_) => 1,
        ScalarValue::U16(_) | ScalarValue::I16(_) => 2,
        ScalarValue::F32(_) => 4,
        ScalarValue::F64(_) => 8,
        ScalarValue::U32(n) => u(n as u128),
        ScalarValue::U64(n) => u(n as u128),
        ScalarValue::U128(n) => u(n),
        ScalarValue::I32(n) => s(n as i128),
        ScalarValue::I64(n) => s(n as i128),
        ScalarValue::I128(n) => s(n),
        ScalarValue::Char(ch) => u(ch as u128),
    }
}

fn scalar_round(v: &ScalarValue) -> Res {
    let st = scalar_type(v);
    let schema = Schema::Scalar(st);
    let mut out = Vec::with_capacity(24);
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let r = v.encode_to(&mut Encoder::new(&mut state, &mut out));
    must!(r.is_ok() && state.is_finished(), "{:?}: encoding fails", v);
    must!(out == scalar_bytes(v), "{:?}: encoded as {}, the format says {}", v, hex(&out), hex(&scalar_bytes(v)));
    must!(out.len() == minimal_len(v), "{:?}: takes {} bytes, minimal is {}", v, out.len(), minimal_len(v));
    let mut r: &[u8] = &out;
    let mut state = CoderState::new(&schema, state.into_alloc(), None);
    let got = ScalarValue::decode_from(&mut Decoder::new(&mut state, &mut r), st);
    match got {
        Ok(g) => {
            must!(seq(&g, v), "{:?}: decoded as {:?}", v, g);
            must!(r.is_empty() && state.is_finished(), "{:?}: not finished, or {} bytes left", v, r.len());
        }
        Err(e) => fail!("{:?}: decoding fails: {}", v, clip(&e.to_string(), 300)),
    }
    Ok(())
}

fn scalar_bytes_case(src: &mut Src, st: ScalarType) -> Vec<u8> {
    let schema = Schema::Scalar(st);
    let a = Arena::new(&schema);
    let v = Value::Scalar(gen_scalar(src, st));
    match src.weighted(&[6, 2, 1]) {
        0 => tampered(src, &a, &v).0,
        1 => { let mut b = a.encode(&v).unwrap(); mutate_bytes(src, &mut b); b }
        _ => random_bytes(src),
    }
}

pub fn decode_scalar_case(c: &mut Case, st: ScalarType, data: &[u8]) -> Result<bool, Fail> {
    let schema = Schema::Scalar(st);
    let mut d = RefDec::new(data, Limits::default());
    let want = d.scalar(st);
    let mut r = data;
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let got = guard(|| ScalarValue::decode_from(&mut Decoder::new(&mut state, &mut r), st))
        .map_err(|p| Fail(format!("{:?} from {}: {}", st, hex(data), p)))?;
    let used = data.len() - r.len();
    match (want, got) {
        (Ok(w), Ok(g)) => {
            must!(seq(&w, &g), "{:?} from {}: got {:?}, the format says {:?}", st, hex(data), g, w);
            must!(used == d.pos, "{:?} from {}: took {} bytes, must take {}", st, hex(data), used, d.pos);
            must!(state.is_finished(), "{:?} from {}: not finished", st, hex(data));
            c.label("bytes_accepted");
            Ok(false)
        }
        (Err(e), Err(g)) => {
            let kinds = fatal_kinds(e, false);
            must!(kinds.contains(&g.kind()), "{:?} from {}: fails with {:?}, must be {:?} ({})", st, hex(data), g.kind(), kinds, clip(&g.to_string(), 200));
            must!(!state.is_finished(), "{:?} from {}: failed, yet reports finished", st, hex(data));
            c.label(match e { RefErr::Eof => "bytes_truncated", _ => "bytes_malformed" });
            Ok(true)
        }
        (Ok(w), Err(g)) => fail!("{:?} from {}: fails with {}, the format says {:?}", st, hex(data), clip(&g.to_string(), 200), w),
        (Err(e), Ok(g)) => fail!("{:?} from {}: gives {:?}, must fail ({:?})", st, hex(data), g, e),
    }
}

pub fn c03(c: &mut Case) -> Res {
    if c.idx < 64 {
        let lo = c.idx as u32 * 1024;
        for n in lo..lo + 1024 {
            scalar_round(&ScalarValue::U16(n as u16))?;
            scalar_round(&ScalarValue::I16(n as u16 as i16))?;
        }
        for n in c.idx as u32 * 17408..(c.idx as u32 + 1) * 17408 {
            if let Some(ch) = char::from_u32(n) { scalar_round(&ScalarValue::Char(ch))?; }
        }
        if c.idx == 0 {
            for n in 0..=255u8 {
                scalar_round(&ScalarValue::U8(n))?;
                scalar_round(&ScalarValue::I8(n as i8))?;
                decode_scalar_case(c, ScalarType::Bool, &[n])?;
            }
            for n in (0xd7f0..0xe010).chain(0x10fff0..0x110010) { decode_scalar_case(c, ScalarType::Char, &uint_bytes(n))?; }
        }
        c.label("exhaustive_blocks");
    }
    let mut bad = 0;
    let mut h = 0;
    let mut sample = String::new();
    for _ in 0..24 {
        let st = SCALARS[c.src.idx(14)];
        let v = gen_scalar(c.src, st);
        scalar_round(&v)?;
        let st = SCALARS[c.src.idx(14)];
        let b = scalar_bytes_case(c.src, st);
        if decode_scalar_case(c, st, &b)? {
            bad += 1;
            if sample.is_empty() { sample = format!("{:?} round-trips; {:?} from {} fails", v, st, hex(&b)); }
        }
        h = mix(h, hash_bytes(&b));
    }
    c.label_n("scalars", 24);
    if bad > 0 { c.nontrivial(h); c.sample(|| sample); }
    Ok(())
}

// ---------------------------------------------------------------- arbitrary bytes

pub fn gen_case_bytes(c: &mut Case, a: &Arena) -> Vec<u8> {
    match c.src.weighted(&[6, 3, 2, 1]) {
        0 => { let v = gen_value(c.src, a); let (b, w) = tampered(c.src, a, &v); c.label(if w == "semantic" { "corrupted_message" } else { "corrupted_and_mutated" }); b }
        1 => { let v = gen_value(c.src, a); let mut b = a.encode(&v).unwrap(); mutate_bytes(c.src, &mut b); c.label("mutated_message"); b }
        2 => { c.label("random_bytes"); random_bytes(c.src) }
        _ => { let v = gen_value(c.src, a); let mut b = a.encode(&v).unwrap(); b.extend(random_bytes(c.src)); c.label("valid_message"); b }
    }
}

pub fn c04(c: &mut Case) -> Res {
    let s = gen_schema(c.src, &SchemaCfg { inhabited: true, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let mut data = gen_case_bytes(c, &a);
    data.truncate(200_000);
    let mut d = RefDec::new(&data, Limits::default());
    let want = d.value(&a, a.root);
    if want == Err(RefErr::TooBig) { c.discard(); return Ok(()); }
    // half of the time as a dynamic value, else in any way
    let way = if c.src.chance(1, 2) { DecWay::Value } else { DecWay::draw(c.src) };
    c.label(way.name());
    let (got, fin, used) = guard(|| {
        let mut r: &[u8] = &data;
        let d = decode_by(way, &a, &s, &mut r, CoderStateAlloc::new());
        (d.result, d.finished, data.len() - r.len())
    }).map_err(|p| Fail(format!("decoding {}: {} ({})\nschema {}", hex(&data), p, way.name(), short(&s))))?;
    let ctx = || format!("by {}, bytes {}\nschema {}", way.name(), hex(&data), short(&s));
    match (&want, got) {
        (Ok(w), Ok(g)) => {
            must!(g.as_ref().map_or(true, |g| veq(w, g)), "decoded {}, the format says {}\n{}", short(&g), short(w), ctx());
            must!(used == d.pos, "took {} bytes, must take {}\n{}", used, d.pos, ctx());
            must!(fin, "decoded, but not finished\n{}", ctx());
            c.label("accepted");
        }
        (Err(e), Err(g)) => {
            let kinds = fatal_kinds(*e, d.huge);
            must!(kinds.contains(&g.kind()), "fails with {:?}, must be one of {:?} ({})\n{}", g.kind(), kinds, clip(&g.to_string(), 200), ctx());
            must!(!fin, "failed, yet reports finished\n{}", ctx());
            c.label(match e { RefErr::Eof => "rejected_short", RefErr::Malformed => "rejected_malformed", _ => "rejected_limit" });
        }
        (Ok(w), Err(g)) => fail!("fails with {}, the format says {}\n{}", clip(&g.to_string(), 300), short(w), ctx()),
        (Err(e), Ok(g)) => fail!("gives {}, must fail ({:?})\n{}", short(&g), e, ctx()),
    }
    if want.is_err() || d.pos >= 3 {
        c.nontrivial(mix(hash_of(&s), hash_bytes(&data)));
        c.sample(|| format!("schema {} bytes {} -> {}", short(&s), hex(&data), short(&want)));
    }
    Ok(())
}

// ---------------------------------------------------------------- I/O failures

pub fn io_payload(e: &Error) -> Option<(IoKind, Option<u64>)> {
    let i = e.inner().downcast_ref::<std::io::Error>()?;
    Some((i.kind(), i.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0)))
}

pub fn c05(c: &mut Case) -> Res {
    let extreme = c.src.chance(1, 4);
    let s = gen_schema(c.src, &SchemaCfg { extreme, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let full = a.encode(&v).unwrap();
    let n = full.len();
    let mut offs: Vec<usize> = if n <= 300 { (0..n).collect() } else {
        let mut o: Vec<usize> = (0..120).chain(n - 120..n).collect();
        for _ in 0..60 { o.push(c.src.idx(n)); }
        o
    };
    offs.sort();
    offs.dedup();
    let ctx = |k: usize, f: FaultKind| format!("failure {:?} at byte {} of {}\nschema {}\nvalue {}", f, k, n, short(&s), short(&v));
    let base = c.src.below(1000);
    let chunk = *c.src.pick(&[usize::MAX, 1, 3]);
    let names = Names::default();
    let (ew, dw) = (EncWay::draw(c.src, &a, &v, &names), DecWay::draw(c.src));
    let ctx = |k: usize, f: FaultKind| format!("{}\nencoding by {}, decoding by {}", ctx(k, f), ew.name(), dw.name());
    c.label(dw.name());
    let mut points = 0u64;
    for (i, &k) in offs.iter().enumerate() {
        let t = (base as usize + i) % (KINDS.len() + 2);
        let fault = if t < KINDS.len() { FaultKind::Err(KINDS[t]) } else { FaultKind::Zero };
        let tag = base * 100_000 + k as u64;
        // writer
        let mut w = FailWriter::new(k, fault, tag, chunk);
        let e = encode_by(&ew, &s, &mut w, CoderStateAlloc::new());
        check_fault("encoding", e.result.map(|_| ()), e.finished, fault, tag, IoKind::WriteZero).map_err(|f| Fail(format!("{}\n{}", f.0, ctx(k, fault))))?;
        must!(w.out == full[..k], "encoding: wrote {}, not a prefix of {}\n{}", hex(&w.out), hex(&full), ctx(k, fault));
        // reader
        let mut r = FailReader { data: &full[..k], pos: 0, fault, tag, chunk };
        let d = decode_by(dw, &a, &s, &mut r, CoderStateAlloc::new());
        check_fault("decoding", d.result.map(|_| ()), d.finished, fault, tag, IoKind::UnexpectedEof).map_err(|f| Fail(format!("{}\n{}", f.0, ctx(k, fault))))?;
        points += 2;
    }
    c.stats.evaluations += points;
    c.label_n("fault_points", points);
    if offs.len() >= 3 {
        c.nontrivial(mix(hash_of(&s), hash_bytes(&full)));
        c.sample(|| format!("schema {} message {}: failures at {} offsets in both directions", short(&s), hex(&full), offs.len()));
    }
    Ok(())
}

fn check_fault(what: &str, r: Result<(), Error>, fin: bool, fault: FaultKind, tag: u64, zero: IoKind) -> Res {
    let e = match r { Ok(()) => fail!("{} succeeds although the I/O failed", what), Err(e) => e };
    must!(e.kind() == ErrorKind::Io, "{} fails with {:?}, not Io: {}", what, e.kind(), clip(&e.to_string(), 200));
    must!(!fin, "{} failed, yet reports finished", what);
    let want = match fault { FaultKind::Err(k) => (k, Some(tag)), FaultKind::Zero => (zero, None) };
    match io_payload(&e) {
        None => fail!("{}: the I/O error cannot be retrieved from {:?}", what, clip(&e.to_string(), 200)),
        Some(p) => must!(p == want, "{}: retrieved I/O error is {:?}, the original was {:?}", what, p, want),
    }
    must!(std::error::Error::source(&e).and_then(|s| s.downcast_ref::<std::io::Error>()).is_some(), "{}: source() is not the I/O error", what);
    let boxed = e.into_inner();
    must!(boxed.downcast::<std::io::Error>().map_or(false, |i| i.kind() == want.0), "{}: into_inner() is not the I/O error", what);
    Ok(())
}

// ---------------------------------------------------------------- conformance

type EncFn = fn(&Schema, &Value) -> (Result<(), Error>, bool, Vec<u8>);

pub fn c06(c: &mut Case) -> Res {
    let extreme = c.src.chance(1, 12);
    let s = gen_schema(c.src, &SchemaCfg { extreme, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let mode = c.src.weighted(&[10, 2, 1]);
    let v = match mode {
        0 => {
            let mut v = gen_value(c.src, &a);
            for _ in 0..1 + c.src.below(3) { if c.src.chance(1, 3) { mutate_by_schema(c.src, &a, &mut v) } else { mutate_value(c.src, &mut v) } }
            v
        }
        1 => gen_value(c.src, &a),
        _ => any_value(c.src, 3),
    };
    let want = a.encode(&v);
    let ctx = || format!("schema {}\nvalue {}", short(&s), short(&v));
    for (how, f) in [("Value::encode_to", encode as EncFn), ("individual calls", encode_ops as EncFn)] {
        let (r, fin, got) = guard(|| f(&s, &v)).map_err(|p| Fail(format!("{}: {}\n{}", how, p, ctx())))?;
        match (&want, r) {
            (Ok(b), Ok(())) => {
                must!(fin, "{}: conforming value encoded, but not finished\n{}", how, ctx());
                must!(*b == got, "{}: wrote {} instead of {}\n{}", how, hex(&got), hex(b), ctx());
            }
            (Ok(_), Err(e)) => fail!("{} rejects a conforming value: {}\n{}", how, clip(&e.to_string(), 300), ctx()),
            (Err(_), Ok(())) => fail!("{} accepts a value that does not conform (finished: {})\n{}", how, fin, ctx()),
            (Err(_), Err(e)) => {
                must!(REJ.contains(&e.kind()), "{}: non-conforming value fails with {:?}: {}\n{}", how, e.kind(), clip(&e.to_string(), 200), ctx());
                must!(!fin, "{}: non-conforming value rejected, yet finished\n{}", how, ctx());
            }
        }
    }
    c.label(if want.is_ok() { "conforming" } else { "non_conforming" });
    if want.is_err() || mode == 0 {
        c.nontrivial(mix(hash_of(&s), hash_str(&format!("{:?}", v))));
        c.sample(|| format!("{} value {} under schema {}", if want.is_ok() { "conforming" } else { "non-conforming" }, short(&v), short(&s)));
    }
    Ok(())
}
