//! C24: what errors and coder states say about themselves.

use crate::checks::history::{Cursor, Shared};
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use crate::checks::serde_io::Names;
use crate::checks::ways::*;
use binschema::error::{Error, ErrorKind};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType};
use std::cell::Cell;
use std::error::Error as _;
use std::io;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C24", f: c24, quick: 100_000, thorough: 4_000_000,
            rule: "a case is a history of encoder or decoder calls (up to 60 % of them wrong on purpose), with the text of the coder state compared with the automaton's stack after every call and the text of every error with its kind, cause and state; or a reader or writer failure, or an error made by the application, taken apart; non-trivial when an error was seen in a state with at least 2 open frames, or an error was taken apart; distinct by (schema, history) or by the error" },
    ]
}

const KINDS_OF: [ErrorKind; 7] = [
    ErrorKind::Io, ErrorKind::MalformedData, ErrorKind::SchemaNonConformance, ErrorKind::PlatformLimits,
    ErrorKind::IllegalSchema, ErrorKind::ApiUsage, ErrorKind::Other,
];

pub fn c24(c: &mut Case) -> Res {
    match c.src.weighted(&[6, 3, 1]) {
        0 => history(c),
        1 => io_cause(c),
        _ => taken_apart(c),
    }
}

/// What must hold of any error. `state`: the text of the coder state it must carry.
fn sound(e: &Error, state: Option<&str>) -> Res {
    let text = guard(|| e.to_string()).map_err(|m| Fail(format!("printing an error: {}", m)))?;
    guard(|| format!("{:?} {:#?}", e, e).len()).map_err(|m| Fail(format!("printing an error: {}", m)))?;
    let kind = e.kind().to_string();
    let inner = e.inner().to_string();
    must!(text.starts_with(&kind), "the text of a {:?} error does not begin with {:?}: {:?}", e.kind(), kind, clip(&text, 300));
    must!(text[kind.len()..].contains(&inner), "the text of an error lacks its cause {:?}: {:?}", clip(&inner, 200), clip(&text, 300));
    let source = e.source().map(|s| s.to_string());
    must!(source.as_ref() == Some(&inner), "source() is {:?}, inner() {:?}", source, clip(&inner, 200));
    if let Some(s) = state {
        // in which call the innermost frame is may show already
        let ok = text.contains(s) || match (frames(s), text[kind.len()..].find("CoderState").map(|i| frames(&text[kind.len() + i..]))) {
            (Ok(x), Some(Ok(y))) => !x.is_empty() && x.len() == y.len() && x[0].1 == y[0].1 && x[1..] == y[1..],
            _ => false,
        };
        must!(ok, "the text of an error lacks the coder state\n{}\nbut is\n{}", clip(s, 1500), clip(&text, 1500));
    }
    Ok(())
}

pub fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Scalar(t) => match t {
            ScalarType::U8 => "u8", ScalarType::U16 => "u16", ScalarType::U32 => "u32", ScalarType::U64 => "u64", ScalarType::U128 => "u128",
            ScalarType::I8 => "i8", ScalarType::I16 => "i16", ScalarType::I32 => "i32", ScalarType::I64 => "i64", ScalarType::I128 => "i128",
            ScalarType::F32 => "f32", ScalarType::F64 => "f64", ScalarType::Char => "char", ScalarType::Bool => "bool",
        },
        Kind::Str => "str",
        Kind::Bytes => "bytes",
        Kind::Unit => "unit",
        Kind::Option(_) => "option(..)",
        Kind::Seq(..) => "seq(..)(..)",
        Kind::Tuple(_) => "tuple {..}",
        Kind::Struct(_) => "struct {..}",
        Kind::Enum(_) => "enum {..}",
    }
}

/// The numbers in a line.
fn numbers(s: &str) -> Vec<u128> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

/// Number, schema and the rest of each frame.
fn frames(text: &str) -> Result<Vec<(usize, &str, String)>, Fail> {
    let mut frames: Vec<(usize, &str, String)> = Vec::new();
    for line in text.lines() {
        if let Some((n, k)) = line.trim().split_once(". schema: ") {
            match n.parse() {
                Ok(n) => frames.push((n, k, String::new())),
                Err(_) => fail!("odd frame line {:?} in the text of the state:\n{}", line, clip(text, 1500)),
            }
        } else if let Some(f) = frames.last_mut() { f.2.push_str(line); f.2.push('\n'); }
    }
    Ok(frames)
}

/// The text of a coder state must show the frames of the automaton, innermost first.
fn shows(p: &Pda, text: &str) -> Res {
    let broken = format!("broken: {}", p.broken);
    must!(text.contains(&broken), "the text of the state lacks {:?}:\n{}", broken, clip(text, 1500));
    if p.broken { return Ok(()); }
    let frames = frames(text)?;
    must!(frames.len() == p.st.len(), "the text of the state shows {} frames, {} are open:\n{}", frames.len(), p.st.len(), clip(text, 1500));
    for (i, ((n, k, rest), f)) in frames.iter().zip(p.st.iter().rev()).enumerate() {
        must!(*n == i, "frame {} of the text of the state is numbered {}:\n{}", i, n, clip(text, 1500));
        let (node, nums) = match f {
            Fr::Need(Ref::Node(x)) => (Some(*x), vec![]),
            Fr::Need(Ref::Illegal) | Fr::Auto => (None, vec![]),
            Fr::Seq { node, len, next } => (Some(*node), vec![*len, *next]),
            Fr::Tuple { node, next } | Fr::Struct { node, next } => (Some(*node), vec![*next]),
            Fr::EnumName { node, ord } => (Some(*node), vec![*ord]),
        };
        match node {
            Some(x) => must!(*k == kind_name(p.kind(x)), "frame {} of the text of the state shows {:?}, is {:?}:\n{}", i, k, kind_name(p.kind(x)), clip(text, 1500)),
            None if matches!(f, Fr::Need(_)) => must!(k.starts_with("recurse"), "frame {} of the text of the state shows {:?}, is a recursion:\n{}", i, k, clip(text, 1500)),
            None => must!(["option(..)", "enum {..}"].contains(k), "frame {} of the text of the state shows {:?}, is an option or enum:\n{}", i, k, clip(text, 1500)),
        }
        let have = numbers(rest);
        for x in nums {
            must!(have.contains(&(x as u128)), "frame {} of the text of the state does not tell {}:\n{}", i, x, clip(text, 1500));
        }
    }
    Ok(())
}

fn history(c: &mut Case) -> Res {
    let dec = c.src.chance(1, 2);
    let recursive = c.src.chance(1, 3);
    let illegal = c.src.chance(1, 6);
    let s = gen_schema(c.src, &SchemaCfg { recursive, illegal, ..SchemaCfg::default() });
    let a = Arena::make(&s, illegal);
    let mut g = Guide::draw(c.src, dec);
    g.seek_illegal = true;
    let mut max = *c.src.pick(&[30usize, 100]);
    if a.nodes.len() > 80 { g.wrong = g.wrong.min(8); max = max.min(60); }
    if a.nodes.len() > 5000 { max = max.min(12); }
    let mut data = Vec::new();
    if dec {
        let v = gen_value(c.src, &a);
        let _ = a.enc(a.root, &v, &mut data);
        if c.src.chance(1, 3) && !data.is_empty() { let k = c.src.idx(data.len()); data[k] ^= 1 << c.src.idx(8); }
        if c.src.chance(1, 3) { let k = c.src.idx(data.len() + 1); data.truncate(k); }
    }
    let mut p = Pda::new(&a);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let out = Shared::default();
    let mut w = out.clone();
    let pos = Rc::new(Cell::new(0));
    let mut r = Cursor { data: &data, pos };
    let mut rd = RefDec::new(&data, Limits::default());
    let mut log: Vec<String> = Vec::new();
    let (mut seen, mut deepest) = (0, 0);
    let mut run = || -> Res {
        let mut extra = 2;
        for _ in 0..max {
            let dbg = guard(|| format!("{:?}", st)).map_err(|m| Fail(format!("printing the coder state: {}", m)))?;
            shows(&p, &dbg)?;
            if let Err(e) = st.is_finished_or_err() { sound(&e, Some(&dbg)).map_err(|f| Fail(format!("is_finished_or_err: {}", f.0)))?; }
            if p.st.is_empty() || p.broken { if extra == 0 { break; } extra -= 1; }
            let op = g.next(c.src, &p);
            log.push(clip(&format!("{:?}", op), 80));
            let open = p.st.len();
            let (reject, fatal, got) = if dec {
                let exp = p.dec(&op, &mut rd);
                let mut d = Decoder::new(&mut st, &mut r);
                let got = guard(|| do_dec(&mut d, &op).err()).map_err(|m| Fail(format!("{:?}: {}", op, m)))?;
                (matches!(exp, Exp::Reject(_)), matches!(exp, Exp::Fatal(_)), got)
            } else {
                let exp = p.enc(&op);
                let mut e = Encoder::new(&mut st, &mut w);
                let got = guard(|| do_enc(&mut e, &op).err()).map_err(|m| Fail(format!("{:?}: {}", op, m)))?;
                (matches!(exp, Exp::Reject(_)), matches!(exp, Exp::Fatal(_)), got)
            };
            // whether it is an error is the matter of C07 and C08
            let Some(e) = got else { if reject || fatal { return Ok(()); } continue };
            if !reject && !fatal { return Ok(()); }
            seen += 1;
            deepest = deepest.max(open);
            sound(&e, if reject { Some(&dbg) } else { None }).map_err(|f| Fail(format!("{:?}: {}", op, f.0)))?;
        }
        Ok(())
    };
    run().map_err(|f| Fail(format!("{}: {}\nafter {}\nbytes {}\nschema {}", if dec { "decoder" } else { "encoder" }, f.0, log.join("; "), hex(&data), short(&s))))?;
    c.label(if dec { "decoder_history" } else { "encoder_history" });
    c.label_n("errors_seen", seen);
    if seen > 0 && deepest >= 2 {
        c.nontrivial(mix(hash_of(&s), mix(hash_bytes(&data), log.iter().fold(0, |h, s| mix(h, hash_str(s))))));
        c.sample(|| format!("{} errors with up to {} frames open: {}\nschema {}", seen, deepest, log.join("; "), short(&s)));
    }
    Ok(())
}

/// The error of a reader or writer must be found inside, whole.
fn cause(e: Error, fault: FaultKind, tag: u64) -> Res {
    must!(e.kind() == ErrorKind::Io, "the I/O error is returned as {:?}", e.kind());
    sound(&e, None)?;
    let text = e.to_string();
    match e.into_inner().downcast::<io::Error>() {
        Err(e) => fail!("the I/O error is not found inside: {:?}", e),
        Ok(x) => if let FaultKind::Err(k) = fault {
            must!(x.kind() == k, "the I/O error inside has the kind {:?}, must have {:?}", x.kind(), k);
            match x.get_ref().and_then(|x| x.downcast_ref::<Payload>()) {
                Some(p) if p.0 == tag => {}
                x => fail!("the payload {} of the I/O error comes out as {:?}", tag, x),
            }
            let t = format!("payload {}", tag);
            must!(text.contains(&t), "the text of the error lacks {:?}: {:?}", t, clip(&text, 300));
        },
    }
    Ok(())
}

fn io_cause(c: &mut Case) -> Res {
    let s = gen_schema(c.src, &SchemaCfg::default());
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let data = a.encode(&v).unwrap();
    if data.is_empty() { c.discard(); return Ok(()); }
    let at = match c.src.idx(4) { 0 => data.len() - 1, 1 => c.src.idx(data.len().min(4)), _ => c.src.idx(data.len()) };
    let t = c.src.idx(KINDS.len() + 1);
    let fault = if t < KINDS.len() { FaultKind::Err(KINDS[t]) } else { FaultKind::Zero };
    let tag = c.src.raw();
    let chunk = *c.src.pick(&[1usize, 3, 1000]);
    let (how, r) = if c.src.chance(1, 2) {
        let names = Names::default();
        let way = EncWay::draw(c.src, &a, &v, &names);
        let mut w = FailWriter::new(at, fault, tag, chunk);
        let r = guard(|| encode_by(&way, &s, &mut w, CoderStateAlloc::new()).result);
        (format!("encoding by {}", way.name()), r.map(|x| x.err()))
    } else {
        let way = DecWay::draw(c.src);
        let mut r = FailReader { data: &data[..at], pos: 0, fault, tag, chunk };
        let r = guard(|| decode_by(way, &a, &s, &mut r, CoderStateAlloc::new()).result);
        (format!("decoding by {}", way.name()), r.map(|x| x.err()))
    };
    let ctx = || format!("{}, {:?} at byte {}\nbytes {}\nschema {}", how, fault, at, hex(&data), short(&s));
    // that it is an error is the matter of C05 and C09
    let Some(e) = r.map_err(|m| Fail(format!("{}\n{}", m, ctx())))? else { c.discard(); return Ok(()); };
    cause(e, fault, tag).map_err(|f| Fail(format!("{}\n{}", f.0, ctx())))?;
    c.label("io_failure");
    c.nontrivial(mix(mix(hash_of(&s), at as u64), mix(hash_bytes(&data), mix(tag, hash_str(&how)))));
    Ok(())
}

/// Errors made by the application itself.
fn taken_apart(c: &mut Case) -> Res {
    let kind = *c.src.pick(&KINDS_OF);
    let msg = match c.src.idx(3) { 0 => String::new(), 1 => "%s {} \n".into(), _ => gen_string(c.src) };
    let s = gen_schema(c.src, &SchemaCfg::default());
    let st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let with = c.src.chance(1, 2);
    let tag = c.src.raw();
    let e = Error::new(kind, msg.clone(), if with { Some(&st) } else { None });
    must!(e.kind() == kind && e.inner().to_string() == msg, "an error made of {:?} and {:?} comes out as {:?} and {:?}", kind, clip(&msg, 100), e.kind(), clip(&e.inner().to_string(), 100));
    let dbg = format!("{:?}", st);
    sound(&e, if with { Some(&dbg) } else { None })?;
    let mut e = Error::other(Payload(tag));
    must!(e.kind() == ErrorKind::Other, "Error::other makes a {:?}", e.kind());
    sound(&e, None)?;
    must!(e.inner().downcast_ref::<Payload>().map(|p| p.0) == Some(tag), "inner() is {:?}", e.inner());
    must!(e.source().and_then(|x| x.downcast_ref::<Payload>()).map(|p| p.0) == Some(tag), "source() is {:?}", e.source());
    match e.inner_mut().downcast_mut::<Payload>() { Some(p) => p.0 = tag.wrapping_add(1), None => fail!("inner_mut() is something else") }
    sound(&e, None)?;
    must!(e.into_inner().downcast::<Payload>().ok().map(|p| p.0) == Some(tag.wrapping_add(1)), "into_inner() gives something else");
    let k = KINDS[c.src.idx(KINDS.len())];
    let e: Error = io::Error::new(k, Payload(tag)).into();
    cause(e, FaultKind::Err(k), tag)?;
    for (i, x) in KINDS_OF.iter().enumerate() {
        for y in &KINDS_OF[..i] { must!(x.to_string() != y.to_string(), "{:?} and {:?} read alike", x, y); }
    }
    c.label("made_by_application");
    c.nontrivial(mix(mix(kind as u64, hash_str(&msg)), mix(with as u64, tag)));
    Ok(())
}
