//! C26: the kind of an error tells its cause, and what became of the coder.

use crate::checks::core::ops_of;
use crate::checks::history::{dec_history, enc_history, guide_for, map, Tally};
use crate::checks::serde_io::{Dg, Dyn, Names};
use crate::checks::ways::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use binschema::error::{Error, ErrorKind};
use binschema::value::ScalarValue;
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema};
use serde::de::DeserializeOwned;
use std::collections::{BTreeMap, HashMap};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C26", f: c26, quick: 150_000, thorough: 6_000_000,
            rule: "a case is a history of calls, some wrong, with the kind of each refusal compared with the one that suits it, or a whole coding that may go wrong: a fitting, changed or unrelated value, list of calls or serde tree encoded under a schema (sometimes an illegal one) into a writer that may fail; or valid, tampered, cut or unrelated bytes decoded by a way of decoding, by serde requests made for another schema, or by an ordinary Rust type; the error's kind is compared with the causes there were, the coder is probed, and one that must be usable is driven on to the end of the message; non-trivial when there was an error after at least one call had been accepted; distinct by (schema, way, data, kind)" },
    ]
}

/// Every field and variant name, and where in the arena each schema is.
struct Lay<'a, 's> { a: &'a Arena<'s>, names: Vec<String>, at: HashMap<*const Schema, usize> }

impl<'a, 's> Lay<'a, 's> {
    fn new(a: &'a Arena<'s>) -> Self {
        let mut names = Vec::new();
        let mut at = HashMap::new();
        for (i, n) in a.nodes.iter().enumerate() {
            at.insert(n.schema as *const Schema, i);
            if let Kind::Struct(f) | Kind::Enum(f) = &n.kind { names.extend(f.iter().map(|x| x.0.clone())); }
        }
        names.sort();
        names.dedup();
        Lay { a, names, at }
    }
    /// A call that leads soonest to the end.
    fn due(&self, need: &Schema, dec: bool) -> Option<Op> {
        let k = match self.at.get(&(need as *const Schema)) { Some(i) => &self.a.nodes[*i].kind, None => return None };
        let zero = |t: ScalarType| gen_scalar(&mut Src::from_tape(vec![]), t);
        Some(match (k, dec) {
            (Kind::Scalar(t), false) => Op::Put(zero(*t)),
            (Kind::Scalar(t), true) => Op::Get(*t),
            (Kind::Str, false) => Op::PutStr(String::new()),
            (Kind::Str, true) => Op::GetStr,
            (Kind::Bytes, false) => Op::PutBytes(vec![]),
            (Kind::Bytes, true) => Op::GetBytes,
            (Kind::Unit, _) => Op::Unit,
            (Kind::Option(_), false) => Op::PutNone,
            (Kind::Option(_), true) => Op::GetOption,
            (Kind::Seq(Some(n), _), _) => Op::FixedSeq(*n),
            (Kind::Seq(None, _), false) => Op::PutVarSeq(0),
            (Kind::Seq(None, _), true) => Op::GetVarSeq,
            (Kind::Tuple(_), _) => Op::Tuple,
            (Kind::Struct(_), _) => Op::Struct,
            (Kind::Enum(c), false) => {
                let o = (0..c.len()).min_by_key(|o| (self.a.min_nodes(c[*o].1), self.a.min_height(c[*o].1)))?;
                Op::PutEnum(o, c[o].0.clone())
            }
            (Kind::Enum(_), true) => Op::GetEnum,
        })
    }
}

/// What a coder can be asked for, whichever it is.
trait Coder {
    fn need_op(&self, l: &Lay) -> Result<Option<Op>, Error>;
    fn call(&mut self, op: &Op) -> Result<(), Error>;
    fn done(&self) -> bool;
    const DEC: bool;
}

impl<'a, 'b, W: std::io::Write> Coder for Encoder<'a, 'b, W> {
    fn need_op(&self, l: &Lay) -> Result<Option<Op>, Error> { Ok(l.due(self.need()?, false)) }
    fn call(&mut self, op: &Op) -> Result<(), Error> { do_enc(self, op) }
    fn done(&self) -> bool { self.coder_state().is_finished() }
    const DEC: bool = false;
}

impl<'a, 'b, R: std::io::Read> Coder for Decoder<'a, 'b, R> {
    fn need_op(&self, l: &Lay) -> Result<Option<Op>, Error> { Ok(l.due(self.need()?, true)) }
    fn call(&mut self, op: &Op) -> Result<(), Error> { do_dec(self, op).map(|_| ()) }
    fn done(&self) -> bool { self.coder_state().is_finished() }
    const DEC: bool = true;
}

fn refused(e: &Error) -> bool { matches!(e.kind(), ErrorKind::ApiUsage | ErrorKind::SchemaNonConformance) }

#[derive(PartialEq, Debug)]
enum End { Finished, Stopped(ErrorKind), Long }

/// Goes on by whatever call is legal, to the end of the message if it can be reached.
fn carry_on<C: Coder>(c: &mut C, l: &Lay, first: ErrorKind) -> Result<End, Fail> {
    let mut steps = 0;
    let between = [Op::SeqElem, Op::FinSeq, Op::TupleElem, Op::FinTuple, Op::FinStruct];
    'on: while !c.done() {
        steps += 1;
        if steps > 1500 { return Ok(End::Long); }
        if let Ok(op) = c.need_op(l) {
            let Some(op) = op else { return Ok(End::Long) };
            match c.call(&op) {
                Ok(()) => continue,
                Err(e) if refused(&e) => fail!("{:?}, but the coder then refuses {:?}, which is due, with {:?}", first, op, clip(&e.to_string(), 300)),
                Err(e) => return Ok(End::Stopped(e.kind())),
            }
        }
        let names = l.names.iter().flat_map(|n| [Some(Op::Field(n.clone())), if C::DEC { Some(Op::Variant(n.clone())) } else { None }]).flatten();
        for op in between.iter().cloned().chain(names) {
            match c.call(&op) {
                Ok(()) => continue 'on,
                Err(e) if refused(&e) => {}
                Err(e) => return Ok(End::Stopped(e.kind())),
            }
        }
        if let Err(e) = c.need_op(l) { if !refused(&e) { return Ok(End::Stopped(e.kind())); } }
        fail!("{:?}, but the coder accepts no call afterwards, and is not finished", first)
    }
    Ok(End::Finished)
}

/// Nothing may be accepted any more.
fn dead<C: Coder>(c: &mut C, l: &Lay, first: ErrorKind) -> Res {
    must!(!c.done(), "{:?}, but the coder is finished", first);
    let mut ops = vec![Op::Unit, Op::FixedSeq(0), Op::FixedSeq(2), Op::SeqElem, Op::FinSeq, Op::Tuple, Op::TupleElem, Op::FinTuple, Op::Struct, Op::FinStruct];
    if C::DEC { ops.extend([Op::Get(ScalarType::U8), Op::Get(ScalarType::U32), Op::GetStr, Op::GetBytes, Op::GetOption, Op::GetVarSeq, Op::GetEnum]); }
    else { ops.extend([Op::Put(ScalarValue::U8(0)), Op::Put(ScalarValue::U32(1)), Op::PutStr("x".into()), Op::PutBytes(vec![1]), Op::PutNone, Op::PutSome, Op::PutVarSeq(0), Op::PutEnum(0, l.names.first().cloned().unwrap_or_default())]); }
    for n in l.names.iter().take(30) {
        ops.push(Op::Field(n.clone()));
        if C::DEC { ops.push(Op::Variant(n.clone())); }
    }
    if let Ok(Some(op)) = c.need_op(l) { ops.push(op); }
    for op in ops {
        match c.call(&op) {
            Ok(()) => fail!("{:?}, but {:?} is accepted afterwards", first, op),
            Err(e) => must!(e.kind() == ErrorKind::ApiUsage || (first == ErrorKind::IllegalSchema && e.kind() == first),
                "{:?}, but {:?} gives {:?} afterwards: {}", first, op, e.kind(), clip(&e.to_string(), 300)),
        }
        must!(!c.done(), "{:?}, but the coder is finished after {:?}", first, op);
    }
    Ok(())
}

fn breaks(k: ErrorKind) -> bool { matches!(k, ErrorKind::Io | ErrorKind::MalformedData | ErrorKind::PlatformLimits | ErrorKind::IllegalSchema) }

fn c26(c: &mut Case) -> Res {
    match c.src.weighted(&[4, 4, 3]) { 0 => encoding(c), 1 => decoding(c), _ => refusals(c) }
}

/// Which of the two kinds a refused call gets.
fn refusals(c: &mut Case) -> Res {
    let (s, illegal) = schema(c);
    let a = Arena::make(&s, illegal);
    if a.nodes.len() > 200 { c.discard(); return Ok(()); }
    let dec = c.src.chance(1, 2);
    let (mut g, max) = guide_for(c.src, &a, dec);
    g.strict = true;
    let mut t = Tally::default();
    let mut h = 0;
    if dec {
        let v = gen_value(c.src, &a);
        let mut data = Vec::new();
        let _ = a.enc(a.root, &v, &mut data);
        if c.src.chance(1, 4) { mutate_bytes(c.src, &mut data); }
        h = hash_bytes(&data);
        dec_history(c.src, &s, &a, &data, &mut g, max.min(80), &mut t)?;
    } else {
        enc_history(c.src, &s, &a, &mut g, max.min(80), &mut t)?;
    }
    c.label_n("calls_refused", t.rejected);
    if t.accepted >= 2 && t.rejected >= 1 {
        c.nontrivial(mix(mix(hash_of(&s), t.hash()), h));
        c.sample(|| format!("schema {}: {}", short(&s), t.text()));
    }
    Ok(())
}

fn schema(c: &mut Case) -> (Schema, bool) {
    let illegal = c.src.chance(1, 8);
    let recursive = illegal || c.src.chance(1, 4);
    let s = gen_schema(c.src, &SchemaCfg { illegal, recursive, ..SchemaCfg::default() });
    let bad = Arena::make(&s, true).has_illegal;
    (s, bad)
}

fn change_ops(src: &mut Src, ops: &mut Vec<Op>) {
    if ops.is_empty() { return; }
    let k = src.idx(ops.len());
    match src.idx(4) {
        0 => { ops.remove(k); }
        1 => { let o = ops[k].clone(); ops.insert(k, o); }
        2 => if k > 0 { ops.swap(k - 1, k) },
        _ => match &mut ops[k] {
            Op::Put(v) => { let t = SCALARS[src.idx(14)]; *v = gen_scalar(src, t) }
            Op::FixedSeq(n) | Op::PutVarSeq(n) => *n = match src.idx(3) { 0 => *n + 1, 1 => n.saturating_sub(1), _ => usize::MAX },
            Op::Field(n) => *n = near_name(src, n),
            Op::PutEnum(o, n) => if src.chance(1, 2) { *o = match src.idx(3) { 0 => *o + 1, 1 => o.saturating_sub(1), _ => usize::MAX } } else { *n = near_name(src, n) },
            o => *o = Op::Unit,
        },
    }
}

/// Whether every length is declared, and is the one that there is.
fn honest(d: &Dyn) -> bool {
    match d {
        Dyn::Some(x) | Dyn::Newtype(x) | Dyn::NewtypeVariant(_, _, x) => honest(x),
        Dyn::Seq(n, x) => *n == Some(x.len()) && x.iter().all(honest),
        Dyn::Tuple(n, x) | Dyn::TupleStruct(n, x) | Dyn::TupleVariant(_, _, n, x) => *n == x.len() && x.iter().all(honest),
        Dyn::Map(n, x, _) => *n == Some(x.len()) && x.iter().all(|(k, v)| k.as_ref().map_or(false, honest) && v.as_ref().map_or(false, honest)),
        Dyn::Struct(_, x) | Dyn::StructVariant(_, _, _, x) => x.iter().all(|(_, v)| v.as_ref().map_or(true, honest)),
        Dyn::FailAfter(x, _) => honest(x),
        _ => true,
    }
}

fn encoding(c: &mut Case) -> Res {
    let (s, illegal) = schema(c);
    let a = Arena::make(&s, illegal);
    if a.nodes.len() > 500 { c.discard(); return Ok(()); }
    let l = Lay::new(&a);
    let mut v = gen_value(c.src, &a);
    let names = Names::default();
    let how = c.src.weighted(&[2, 5, 1]);
    let firm = c.src.chance(1, 2);
    let g = Dg { names: &names, firm };
    let way = match c.src.weighted(&[3, 2, 5]) {
        0 => {
            if how == 1 { if c.src.chance(1, 2) { mutate_value(c.src, &mut v) } else { mutate_by_schema(c.src, &a, &mut v) } }
            if how == 2 { v = any_value(c.src, 3); }
            EncWay::Value(v)
        }
        1 => {
            if how == 2 { v = any_value(c.src, 3); }
            let mut ops = Vec::new();
            ops_of(&v, &mut ops);
            if how == 1 { change_ops(c.src, &mut ops); }
            EncWay::Calls(ops)
        }
        _ => {
            let mut d = if how == 2 { g.any(c.src, 3) } else { g.fitting(c.src, &a, a.root, &v) };
            if how == 1 { let n = 1 + c.src.below(2); for _ in 0..n { g.mutate(c.src, &mut d); } }
            EncWay::Serde(d)
        }
    };
    let full = if c.src.chance(1, 5) { Some(c.src.below(40) as usize) } else { None };
    let fault = if c.src.chance(1, 2) { FaultKind::Zero } else { FaultKind::Err(KINDS[c.src.idx(KINDS.len())]) };
    let chunk = *c.src.pick(&[usize::MAX, 1, 3]);
    let mut w = FailWriter::new(full.unwrap_or(usize::MAX), fault, 7, chunk);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut kind = None;
    let mut end = End::Finished;
    let mut written = 0;
    let mut run = || -> Res {
        let mut e = Encoder::new(&mut st, &mut w);
        let r = guard(|| way.run(&mut e)).map_err(Fail)?;
        let Err(err) = r else { return Ok(()) };
        let k = err.kind();
        kind = Some(k);
        drop(e);
        written = w.out.len();
        match k {
            ErrorKind::Io => must!(w.calls_after > 0, "an IO error, though the writer reported none: {}", clip(&err.to_string(), 300)),
            ErrorKind::IllegalSchema => must!(illegal, "the schema is legal, and called illegal: {}", clip(&err.to_string(), 300)),
            ErrorKind::MalformedData | ErrorKind::PlatformLimits => fail!("encoding fails with {:?}: {}", k, clip(&err.to_string(), 300)),
            ErrorKind::Other => fail!("the error is said to be the application's, which raised none: {}", clip(&err.to_string(), 300)),
            ErrorKind::ApiUsage | ErrorKind::SchemaNonConformance => {
                must!(k == ErrorKind::SchemaNonConformance || !matches!(way, EncWay::Value(_)), "the value does not suit the schema, and the error is {:?}: {}", k, clip(&err.to_string(), 300));
                must!(w.calls_after == 0, "{:?}, though the writer had failed: {}", k, clip(&err.to_string(), 300));
                if let (ErrorKind::ApiUsage, EncWay::Serde(d)) = (k, &way) {
                    must!(!honest(d), "the data do not suit the schema, and the error is {:?}: {}", k, clip(&err.to_string(), 300));
                }
                must!(how != 0 || illegal || (!firm && matches!(way, EncWay::Serde(_))), "{:?}, though the data fit: {}", k, clip(&err.to_string(), 300));
            }
        }
        let mut e = Encoder::new(&mut st, &mut w);
        if breaks(k) { dead(&mut e, &l, k)?; return Ok(()); }
        end = carry_on(&mut e, &l, k)?;
        match end {
            End::Finished => {
                let mut rd = RefDec::new(&w.out, Limits { nodes: 200_000, depth: 3000 });
                match rd.value(&a, a.root) {
                    Ok(_) => must!(rd.pos == w.out.len(), "{:?}, and carried on to the end the encoder wrote {} bytes after the message", k, w.out.len() - rd.pos),
                    Err(RefErr::TooBig) => {}
                    Err(x) => fail!("{:?}, and carried on to the end the encoder wrote {}, no message of the schema ({:?})", k, hex(&w.out), x),
                }
            }
            End::Stopped(ErrorKind::Io) => must!(w.calls_after > 0, "{:?}, and carried on the encoder reports an IO error that the writer did not", k),
            End::Stopped(ErrorKind::IllegalSchema) => must!(illegal, "{:?}, and carried on the encoder calls the schema illegal", k),
            End::Stopped(x) => fail!("{:?}, and carried on the encoder fails with {:?}", k, x),
            End::Long => {}
        }
        Ok(())
    };
    let r = run();
    let what = || format!("encoding by {}: {}, writer {:?}\nschema {}", way.name(), clip(&format!("{:?}", way), 1500), full, short(&s));
    r.map_err(|f| Fail(format!("{}\n{}", f.0, what())))?;
    note(c, &s, kind, &end, written > 0, hash_str(&clip(&format!("{:?}", way), 400)), what);
    Ok(())
}

fn note(c: &mut Case, s: &Schema, kind: Option<ErrorKind>, end: &End, progress: bool, h: u64, what: impl Fn() -> String) {
    let Some(k) = kind else { c.label("no_error"); return };
    c.label(match k {
        ErrorKind::Io => "io", ErrorKind::MalformedData => "malformed", ErrorKind::SchemaNonConformance => "nonconformance", ErrorKind::PlatformLimits => "limits",
        ErrorKind::IllegalSchema => "illegal_schema", ErrorKind::ApiUsage => "api_usage", ErrorKind::Other => "other",
    });
    if !breaks(k) { c.label(match end { End::Finished => "carried_on_to_the_end", End::Stopped(_) => "carried_on_to_a_failure", End::Long => "carried_on_for_long" }); }
    if progress {
        c.nontrivial(mix(mix(hash_of(s), k as u64), h));
        c.sample(|| format!("{:?} {}", k, what()));
    }
}

#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Named { a: u8, b: Option<String>, #[serde(default)] c: Vec<u32> }

#[derive(serde::Deserialize)]
#[allow(dead_code)]
enum Choice { A, B(u8), C(u8, String), D { a: bool } }

#[derive(serde::Deserialize)]
#[allow(dead_code)]
#[serde(untagged)]
enum Any { N(u64), I(i64), B(bool), S(String), L(Vec<Any>), M(BTreeMap<String, Any>), U(()) }

fn typed<T: DeserializeOwned, R: std::io::Read>(d: &mut Decoder<R>) -> Result<(), Error> { T::deserialize(d).map(|_| ()) }

const TYPES: [&str; 14] = ["u8", "i64", "String", "Vec<u8>", "Option<u32>", "(u8, bool)", "[u16; 3]", "BTreeMap<String, u32>", "Named", "Choice", "()", "Any", "Vec<Named>", "Option<Choice>"];

fn by_type<R: std::io::Read>(k: usize, d: &mut Decoder<R>) -> Result<(), Error> {
    match k {
        0 => typed::<u8, R>(d), 1 => typed::<i64, R>(d), 2 => typed::<String, R>(d), 3 => typed::<Vec<u8>, R>(d),
        4 => typed::<Option<u32>, R>(d), 5 => typed::<(u8, bool), R>(d), 6 => typed::<[u16; 3], R>(d), 7 => typed::<BTreeMap<String, u32>, R>(d),
        8 => typed::<Named, R>(d), 9 => typed::<Choice, R>(d), 10 => typed::<(), R>(d), 11 => typed::<Any, R>(d),
        12 => typed::<Vec<Named>, R>(d), _ => typed::<Option<Choice>, R>(d),
    }
}

/// The schema, changed in some places.
fn sibling(src: &mut Src, s: &Schema) -> Schema {
    if src.chance(1, 8) {
        return match src.idx(8) {
            0 => Schema::Scalar(SCALARS[src.idx(14)]),
            1 => Schema::Str,
            2 => Schema::Bytes,
            3 => Schema::Unit,
            4 => Schema::Option(Box::new(s.clone())),
            5 => Schema::Tuple(vec![s.clone(), Schema::Unit]),
            6 => match s { Schema::Option(i) => (**i).clone(), Schema::Seq(q) => { let mut q = q.clone(); q.len = match q.len { Some(n) => if src.chance(1, 2) { Some(n + 1) } else { None }, None => Some(2) }; Schema::Seq(q) } s => s.clone() },
            _ => match s { Schema::Tuple(v) => { let mut v = v.clone(); if src.chance(1, 2) { v.pop(); } else { v.push(Schema::Unit); } Schema::Tuple(v) } s => s.clone() },
        };
    }
    if src.chance(1, 4) {
        match s {
            Schema::Struct(f) if !f.is_empty() => {
                let mut f = f.clone();
                let k = src.idx(f.len());
                match src.idx(3) { 0 => { f.remove(k); } 1 => f[k].name = near_name(src, &f[k].name), _ => { let x = f[k].clone(); f.insert(k, x) } }
                return Schema::Struct(f);
            }
            Schema::Enum(f) if !f.is_empty() => {
                let mut f = f.clone();
                let k = src.idx(f.len());
                match src.idx(3) { 0 => { f.remove(k); } 1 => f[k].name = near_name(src, &f[k].name), _ => if k > 0 { f.swap(k - 1, k) } }
                return Schema::Enum(f);
            }
            _ => {}
        }
    }
    map(s, &mut |x| Some(sibling(src, x))).unwrap()
}

#[derive(Debug)]
enum How { Way(DecWay), Foreign(u64), Type(&'static str, usize) }

fn decoding(c: &mut Case) -> Res {
    let (s, illegal) = schema(c);
    let a = Arena::make(&s, illegal);
    if a.nodes.len() > 500 { c.discard(); return Ok(()); }
    let l = Lay::new(&a);
    let v = gen_value(c.src, &a);
    let (data, src_of) = match a.encode(&v) {
        Ok(b) => match c.src.weighted(&[6, 3, 3, 1]) {
            0 => (b, "valid"),
            1 => (tampered(c.src, &a, &v).0, "tampered"),
            2 => { let k = c.src.idx(b.len() + 1); let mut b = b; b.truncate(k); (b, "cut") }
            _ => (random_bytes(c.src), "unrelated"),
        },
        Err(_) => { let mut b = Vec::new(); let _ = a.enc(a.root, &v, &mut b); (b, "illegal") }
    };
    let mut rd = RefDec::new(&data, Limits { nodes: 20_000, depth: 600 });
    let verdict = rd.value(&a, a.root);
    if let Err(RefErr::TooBig) = verdict { c.discard(); return Ok(()); }
    let how = match c.src.weighted(&[5, 6, 3]) {
        0 => How::Way(DecWay::draw(c.src)),
        1 => How::Foreign(c.src.below(1 << 32)),
        _ => { let k = c.src.idx(TYPES.len()); How::Type(TYPES[k], k) }
    };
    let other = match &how { How::Foreign(_) => if c.src.chance(1, 12) { gen_schema(c.src, &SchemaCfg::default()) } else { sibling(c.src, &s) }, _ => Schema::Unit };
    let b = Arena::make(&other, true);
    if b.has_illegal { c.discard(); return Ok(()); }
    let fault = if c.src.chance(1, 2) { FaultKind::Zero } else { FaultKind::Err(KINDS[c.src.idx(KINDS.len())]) };
    let chunk = *c.src.pick(&[usize::MAX, 1, 3]);
    let mut r = FailReader { data: &data, pos: 0, fault, tag: 7, chunk };
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut kind = None;
    let mut end = End::Finished;
    let mut taken = 0;
    let mut run = || -> Res {
        let mut d = Decoder::new(&mut st, &mut r);
        let res = guard(|| match &how {
            How::Way(w) => w.run(&a, &mut d).map(|_| ()),
            How::Foreign(n) => DecWay::Serde(*n).run(&b, &mut d).map(|_| ()),
            How::Type(_, k) => by_type(*k, &mut d),
        }).map_err(Fail)?;
        let Err(err) = res else { return Ok(()) };
        let k = err.kind();
        kind = Some(k);
        drop(d);
        taken = r.pos;
        // the fate of the data as a whole, met or yet to be met
        let allowed = |k: ErrorKind| match &verdict { Ok(_) => false, Err(x) => fatal_kinds(*x, rd.huge).contains(&k) };
        let verdict_text = || match &verdict { Ok(_) => "valid".to_string(), Err(x) => format!("{:?}", x) };
        if breaks(k) {
            must!(allowed(k), "{:?} from bytes that are {}: {}", k, verdict_text(), clip(&err.to_string(), 300));
        }
        match (k, &how) {
            (ErrorKind::Other, How::Way(_)) => fail!("the error is said to be the application's, which raised none: {}", clip(&err.to_string(), 300)),
            // what the visitors of this harness and of serde itself say
            (ErrorKind::Other, How::Foreign(_)) => {
                let t = err.inner().to_string();
                must!(t.contains("presented") || t.contains("no such variant") || t.contains("invalid"), "the error is said to be the application's, which raised none like it: {}", clip(&err.to_string(), 300));
            }
            (ErrorKind::ApiUsage | ErrorKind::SchemaNonConformance, How::Way(_)) => must!(illegal, "{:?} from doing what the schema says: {}", k, clip(&err.to_string(), 300)),
            _ => {}
        }
        let mut d = Decoder::new(&mut st, &mut r);
        if breaks(k) { dead(&mut d, &l, k)?; return Ok(()); }
        end = carry_on(&mut d, &l, k)?;
        match (&end, &verdict) {
            (End::Finished, Ok(_)) => must!(r.pos == rd.pos, "{:?}, and carried on to the end the decoder took {} bytes of a message of {}", k, r.pos, rd.pos),
            (End::Finished, Err(x)) => fail!("{:?}, and carried on the decoder comes to an end of bytes that are no message ({:?})", k, x),
            (End::Stopped(x), _) => must!(allowed(*x), "{:?}, and carried on the decoder gives {:?} from bytes that are {}", k, x, verdict_text()),
            (End::Long, _) => {}
        }
        Ok(())
    };
    let res = run();
    let what = || format!("decoding by {:?} {} bytes {}{}\nschema {}", how, src_of, hex(&data), if matches!(how, How::Foreign(_)) { format!("\nrequests for {}", short(&other)) } else { String::new() }, short(&s));
    res.map_err(|f| Fail(format!("{}\n{}", f.0, what())))?;
    let tag = match &how { How::Way(w) => hash_str(w.name()), How::Foreign(n) => *n, How::Type(t, _) => hash_str(t) };
    c.label(match &how { How::Way(_) => "by_way", How::Foreign(_) => "by_requests_for_another", How::Type(..) => "by_type" });
    note(c, &s, kind, &end, taken > 0, mix(hash_bytes(&data), tag), what);
    Ok(())
}
