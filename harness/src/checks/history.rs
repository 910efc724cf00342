//! C07–C10: call histories of encoder and decoder, sticky failures, recursion.

use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use super::core::*;
use super::serde_io::Names;
use super::ways::*;
use binschema::error::{Error, ErrorKind};
use binschema::value::Value;
use binschema::{CoderState, CoderStateAlloc, Decoder, EnumSchemaVariant, Encoder, Schema, SeqSchema, StructSchemaField};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C07", f: c07, quick: 90_000, thorough: 4_000_000,
            rule: "a case is a history of up to 400 encoder calls under a generated legal schema (0 to 60 % of them wrong on purpose), compared call by call with the schema automaton: result, bytes written, finished, schema due next; non-trivial when at least 4 calls were accepted and at least one rejected; distinct by (schema, history)" },
        Check { id: "C08", f: c08, quick: 130_000, thorough: 5_000_000,
            rule: "a case is a history of decoder calls over a generated message (0 to 60 % of them wrong on purpose), compared call by call with the schema automaton and the reference decoder: result, bytes taken, finished, schema due next; non-trivial when at least 4 calls were accepted and at least one rejected; distinct by (schema, message, history)" },
        Check { id: "C09", f: c09, quick: 1_000_000, thorough: 25_000_000,
            rule: "a case brings a coder to a fatal failure (writer or reader failure at a chosen byte, malformed or truncated data, impossible length, illegal recursion), then makes 14 or more further calls with the writer or reader working again; non-trivial when the failure came about; distinct by (schema, data, failure point, calls)" },
        Check { id: "C10", f: c10, quick: 130_000, thorough: 4_000_000,
            rule: "a case is a schema rich in recursion, half of them with illegal levels, put through an encoder history, a decoder history, value coding and, where legal, comparison with the schema obtained by unfolding one recursion; non-trivial when at least one recursion was actually passed (or an illegal one reached); distinct by (schema, data)" },
    ]
}

#[derive(Clone, Default)]
pub struct Shared(pub Rc<RefCell<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub struct Cursor<'a> { pub data: &'a [u8], pub pos: Rc<Cell<usize>> }
impl<'a> Read for Cursor<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.get();
        let n = b.len().min(self.data.len() - p);
        b[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

#[derive(Default)]
pub struct Tally { pub accepted: u64, pub rejected: u64, pub fatal: u64, pub finished: bool, pub log: Vec<String> }

impl Tally {
    fn note(&mut self, op: &Op, r: &str) {
        let mut s = clip(&format!("{:?}", op), 80);
        s.push_str(r);
        self.log.push(s);
    }
    pub fn text(&self) -> String {
        let n = self.log.len();
        let from = n.saturating_sub(60);
        format!("{}{}", if from > 0 { "… " } else { "" }, self.log[from..].join("; "))
    }
    pub fn hash(&self) -> u64 { self.log.iter().fold(0, |h, s| mix(h, hash_str(s))) }
}

fn kind_is(e: &Error, kinds: &[ErrorKind]) -> bool { kinds.contains(&e.kind()) }

/// One call on a real encoder against the automaton.
pub fn enc_step(p: &mut Pda, e: &mut Encoder<Shared>, out: &Shared, op: &Op, t: &mut Tally) -> Res {
    let before = out.0.borrow().len();
    let exp = p.enc(op);
    let got = guard(|| do_enc(e, op)).map_err(|m| Fail(format!("{:?}: {}", op, m)))?;
    let o = out.0.borrow();
    let new = &o[before..];
    match (exp, got) {
        (Exp::Ok(b), Ok(())) => {
            t.note(op, "");
            t.accepted += 1;
            must!(new == b, "{:?} wrote {}, must write {}", op, hex(new), hex(&b));
        }
        (Exp::Ok(_), Err(e)) => fail!("legal call {:?} fails with {:?}: {}", op, e.kind(), clip(&e.to_string(), 300)),
        (Exp::Reject(_), Ok(())) => fail!("{:?} is accepted, must be rejected", op),
        (Exp::Reject(k), Err(e)) => {
            t.note(op, " ✗");
            t.rejected += 1;
            must!(kind_is(&e, k), "{:?} is rejected with {:?}, must be one of {:?}", op, e.kind(), k);
            must!(new.is_empty(), "rejected {:?} wrote {}", op, hex(new));
        }
        (Exp::Fatal(k), Ok(())) => fail!("{:?} succeeds, must fail with {:?}", op, k),
        (Exp::Fatal(k), Err(e)) => {
            t.note(op, " †");
            t.fatal += 1;
            must!(kind_is(&e, k), "{:?} fails with {:?}, must be one of {:?}: {}", op, e.kind(), k, clip(&e.to_string(), 200));
        }
    }
    Ok(())
}

pub fn dec_step(p: &mut Pda, d: &mut Decoder<Cursor>, rd: &mut RefDec, pos: &Cell<usize>, op: &Op, t: &mut Tally) -> Res {
    let before = pos.get();
    let exp = p.dec(op, rd);
    let got = guard(|| do_dec(d, op)).map_err(|m| Fail(format!("{:?}: {}", op, m)))?;
    let now = pos.get();
    match (exp, got) {
        (Exp::Ok(w), Ok(g)) => {
            t.note(op, "");
            t.accepted += 1;
            must!(out_eq(&w, &g), "{:?} gives {}, must give {}", op, short(&g), short(&w));
            must!(now == rd.pos, "{:?} took {} bytes, must take {}", op, now - before, rd.pos as i64 - before as i64);
        }
        (Exp::Ok(_), Err(e)) => fail!("legal call {:?} fails with {:?}: {}", op, e.kind(), clip(&e.to_string(), 300)),
        (Exp::Reject(_), Ok(g)) => fail!("{:?} is accepted (gives {}), must be rejected", op, short(&g)),
        (Exp::Reject(k), Err(e)) => {
            t.note(op, " ✗");
            t.rejected += 1;
            must!(kind_is(&e, k), "{:?} is rejected with {:?}, must be one of {:?}", op, e.kind(), k);
            must!(now == before, "rejected {:?} took {} bytes", op, now - before);
        }
        (Exp::Fatal(k), Ok(g)) => fail!("{:?} succeeds with {}, must fail with {:?}", op, short(&g), k),
        (Exp::Fatal(k), Err(e)) => {
            t.note(op, " †");
            t.fatal += 1;
            must!(kind_is(&e, k), "{:?} fails with {:?}, must be one of {:?}: {}", op, e.kind(), k, clip(&e.to_string(), 200));
        }
    }
    Ok(())
}

pub fn enc_history(src: &mut Src, s: &Schema, a: &Arena, g: &mut Guide, max: usize, t: &mut Tally) -> Res {
    let out = Shared::default();
    let mut w = out.clone();
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut p = Pda::new(a);
    p.strict = g.strict;
    let keep = src.chance(1, 2);
    let mut extra = 1 + src.idx(6);
    let look = src.idx(3);
    let mut run = |t: &mut Tally| -> Res {
        let mut n = 0;
        'life: loop {
            let mut e = Encoder::new(&mut st, &mut w);
            loop {
                if look > 0 { check_need(&p, e.need(), "encoder")?; }
                check_between(&p, e.coder_state(), "encoder")?;
                if n >= max || ((p.st.is_empty() || p.broken) && extra == 0) { break 'life; }
                if p.st.is_empty() || p.broken { extra -= 1; }
                n += 1;
                let op = g.next(src, &p);
                enc_step(&mut p, &mut e, &out, &op, t)?;
                if !keep { continue 'life; }
            }
        }
        t.finished = p.finished();
        must!(st.is_finished() == p.finished(), "is_finished() is {} at the end", st.is_finished());
        Ok(())
    };
    run(t).map_err(|f| Fail(format!("encoder: {}\nafter {}\nschema {}", f.0, t.text(), short(s))))
}

pub fn dec_history(src: &mut Src, s: &Schema, a: &Arena, data: &[u8], g: &mut Guide, max: usize, t: &mut Tally) -> Res {
    let pos = Rc::new(Cell::new(0));
    let mut r = Cursor { data, pos: pos.clone() };
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut p = Pda::new(a);
    p.strict = g.strict;
    let mut rd = RefDec::new(data, Limits::default());
    let keep = src.chance(1, 2);
    let mut extra = 1 + src.idx(6);
    let look = src.idx(3);
    let mut run = |t: &mut Tally| -> Res {
        let mut n = 0;
        'life: loop {
            let mut d = Decoder::new(&mut st, &mut r);
            loop {
                if look > 0 { check_need(&p, d.need(), "decoder")?; }
                check_between(&p, d.coder_state(), "decoder")?;
                if n >= max || ((p.st.is_empty() || p.broken) && extra == 0) { break 'life; }
                if p.st.is_empty() || p.broken { extra -= 1; }
                n += 1;
                let op = g.next(src, &p);
                dec_step(&mut p, &mut d, &mut rd, &pos, &op, t)?;
                if !keep { continue 'life; }
            }
        }
        t.finished = p.finished();
        must!(st.is_finished() == p.finished(), "is_finished() is {} at the end", st.is_finished());
        Ok(())
    };
    run(t).map_err(|f| Fail(format!("decoder: {}\nafter {}\nbytes {}\nschema {}", f.0, t.text(), hex(data), short(s))))
}

/// Rejections spell out the schema, which takes long when it is large.
pub fn guide_for(src: &mut Src, a: &Arena, dec: bool) -> (Guide, usize) {
    let mut g = Guide::draw(src, dec);
    let mut max = *src.pick(&[60usize, 400, 15]);
    if a.nodes.len() > 80 { g.wrong = g.wrong.min(8); max = max.min(120); }
    if a.nodes.len() > 5000 { max = max.min(12); }
    (g, max)
}

pub fn c07(c: &mut Case) -> Res {
    let inhabited = !c.src.chance(1, 8);
    let recursive = c.src.chance(1, 4);
    let s = gen_schema(c.src, &SchemaCfg { inhabited, recursive, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let (mut g, max) = guide_for(c.src, &a, false);
    let mut t = Tally::default();
    enc_history(c.src, &s, &a, &mut g, max, &mut t)?;
    tally(c, &s, &t, 0);
    Ok(())
}

fn tally(c: &mut Case, s: &Schema, t: &Tally, h: u64) {
    c.label_n("calls_accepted", t.accepted);
    c.label_n("calls_rejected", t.rejected);
    if t.fatal > 0 { c.label("ended_fatal"); }
    if t.finished { c.label("finished"); }
    if t.accepted >= 4 && t.rejected >= 1 {
        c.nontrivial(mix(mix(hash_of(s), t.hash()), h));
        c.sample(|| format!("schema {}: {}", short(s), t.text()));
    }
}

pub fn c08(c: &mut Case) -> Res {
    let recursive = c.src.chance(1, 4);
    let s = gen_schema(c.src, &SchemaCfg { recursive, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let mut data = a.encode(&v).unwrap();
    data.extend(random_bytes(c.src));
    let (mut g, max) = guide_for(c.src, &a, true);
    let mut t = Tally::default();
    dec_history(c.src, &s, &a, &data, &mut g, max, &mut t)?;
    must!(t.fatal == 0, "fatal error on a valid message");
    tally(c, &s, &t, hash_bytes(&data));
    Ok(())
}

// ---------------------------------------------------------------- sticky failures

/// Works, fails at byte `at` once or for a while, then works again; records everything.
struct Flaky { out: Vec<u8>, at: usize, failing: bool, fault: FaultKind, calls: u64 }
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        if self.failing {
            let room = self.at - self.out.len();
            if room == 0 {
                return match self.fault { FaultKind::Err(k) => Err(io::Error::new(k, Payload(1))), FaultKind::Zero => Ok(0) };
            }
            let n = room.min(b.len());
            self.out.extend_from_slice(&b[..n]);
            return Ok(n);
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { self.calls += 1; Ok(()) }
}

struct FlakyR<'a> { data: &'a [u8], pos: usize, at: usize, failing: bool, fault: FaultKind, calls: u64 }
impl<'a> Read for FlakyR<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        if self.failing {
            let n = (self.at - self.pos).min(b.len());
            if n == 0 {
                return match self.fault { FaultKind::Err(k) => Err(io::Error::new(k, Payload(1))), FaultKind::Zero => Ok(0) };
            }
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        // endless zeros and ones after the data
        for (i, x) in b.iter_mut().enumerate() { *x = self.data.get(self.pos + i).copied().unwrap_or((i & 1) as u8); }
        self.pos += b.len();
        Ok(b.len())
    }
}

fn fault_of(src: &mut Src) -> FaultKind {
    let t = src.idx(KINDS.len() + 1);
    if t < KINDS.len() { FaultKind::Err(KINDS[t]) } else { FaultKind::Zero }
}

fn offset_in(src: &mut Src, n: usize) -> usize {
    match src.idx(4) { 0 => n - 1, 1 => src.idx(n.min(4)), _ => src.idx(n) }
}

const FATAL: &[ErrorKind] = &[ErrorKind::Io, ErrorKind::MalformedData, ErrorKind::PlatformLimits, ErrorKind::IllegalSchema];

pub fn c09(c: &mut Case) -> Res {
    if c.src.chance(1, 3) { return c09_whole(c); }
    if c.src.chance(1, 2) { c09_enc(c) } else { c09_dec(c) }
}

/// The failure comes about inside a whole-value operation, dynamic or through serde.
fn c09_whole(c: &mut Case) -> Res {
    let s = gen_schema(c.src, &SchemaCfg::default());
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let full = a.encode(&v).unwrap();
    if full.is_empty() { c.discard(); return Ok(()); }
    let fault = fault_of(c.src);
    let enc = c.src.chance(1, 2);
    let mut g = Guide::draw(c.src, !enc);
    let p = Pda::new(&a);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut log = Vec::new();
    let at = offset_in(c.src, full.len());
    if enc {
        let names = Names::default();
        let way = EncWay::draw(c.src, &a, &v, &names);
        let again = EncWay::draw(c.src, &a, &v, &names);
        let mut w = Flaky { out: vec![], at, failing: true, fault, calls: 0 };
        let ctx = || format!("encoding by {}, failure at byte {}\nvalue {}\nschema {}", way.name(), at, short(&v), short(&s));
        let r = guard(|| way.run(&mut Encoder::new(&mut st, &mut w))).map_err(|m| Fail(format!("{}\n{}", m, ctx())))?;
        must!(r.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::Io), "gives {}, must give an I/O error\n{}", short(&r.map_err(|e| e.kind())), ctx());
        w.failing = false;
        let (len, calls) = (w.out.len(), w.calls);
        for k in 0..14 {
            let mut e = Encoder::new(&mut st, &mut w);
            if k == 7 {
                let r = guard(|| again.run(&mut e)).map_err(|m| Fail(format!("coding again: {}\n{}", m, ctx())))?;
                must!(r.is_err() && !st.is_finished(), "a whole value is encoded by {} after the failure\n{}", again.name(), ctx());
                continue;
            }
            let op = if k == 0 { g.legal(c.src, &p).unwrap_or(Op::Unit) } else { g.random(c.src, None) };
            log.push(format!("{:?}", op));
            let r = guard(|| do_enc(&mut e, &op)).map_err(|m| Fail(format!("after the failure {:?}: {}\n{}", op, m, ctx())))?;
            sticky(r.err(), &format!("{:?}", op), &st).map_err(|f| Fail(format!("{}\n{}", f.0, ctx())))?;
        }
        must!(w.out.len() == len && w.calls == calls, "the writer is used after the failure\n{}", ctx());
        c.label("encoder_whole_value");
    } else {
        let (way, again) = (DecWay::draw(c.src), DecWay::draw(c.src));
        let cut = c.src.chance(1, 2);
        let (data, at) = if cut { (full, at) } else {
            let mut b = tampered(c.src, &a, &v).0;
            b.truncate(200_000);
            let n = b.len();
            (b, n)
        };
        let mut rd = RefDec::new(&data[..at], Limits::default());
        let Err(want) = rd.value(&a, a.root) else { c.discard(); return Ok(()); };
        if want == RefErr::TooBig { c.discard(); return Ok(()); }
        let mut r = FlakyR { data: &data, pos: 0, at, failing: true, fault, calls: 0 };
        let ctx = || format!("decoding by {}, data end at byte {}\nbytes {}\nschema {}", way.name(), at, hex(&data), short(&s));
        let x = guard(|| way.run(&a, &mut Decoder::new(&mut st, &mut r))).map_err(|m| Fail(format!("{}\n{}", m, ctx())))?;
        let kind = match x { Ok(_) => fail!("succeeds, must fail ({:?})\n{}", want, ctx()), Err(e) => e.kind() };
        must!(fatal_kinds(want, rd.huge).contains(&kind), "fails with {:?}, must be {:?}\n{}", kind, want, ctx());
        r.failing = false;
        r.at = usize::MAX;
        let (pos, calls) = (r.pos, r.calls);
        for k in 0..14 {
            let mut d = Decoder::new(&mut st, &mut r);
            if k == 7 {
                let x = guard(|| again.run(&a, &mut d)).map_err(|m| Fail(format!("coding again: {}\n{}", m, ctx())))?;
                must!(x.is_err() && !st.is_finished(), "a whole value is decoded by {} after the failure\n{}", again.name(), ctx());
                continue;
            }
            let op = if k == 0 { g.legal(c.src, &p).unwrap_or(Op::Unit) } else { g.random(c.src, None) };
            log.push(format!("{:?}", op));
            let x = guard(|| do_dec(&mut d, &op)).map_err(|m| Fail(format!("after the failure {:?}: {}\n{}", op, m, ctx())))?;
            sticky(x.err(), &format!("{:?}", op), &st).map_err(|f| Fail(format!("{}\n{}", f.0, ctx())))?;
        }
        must!(r.pos == pos && r.calls == calls, "the reader is used after the failure\n{}", ctx());
        c.label("decoder_whole_value");
    }
    c.nontrivial(mix(mix(hash_of(&s), at as u64), mix(hash_str(&format!("{:?}", v)), hash_str(&log.concat()))));
    Ok(())
}

fn c09_enc(c: &mut Case) -> Res {
    let illegal = c.src.chance(1, 3);
    let s = gen_schema(c.src, &SchemaCfg { illegal, recursive: illegal, ..SchemaCfg::default() });
    let a = Arena::make(&s, illegal);
    let v = gen_value(c.src, &a);
    let (mut at, fault) = (usize::MAX, fault_of(c.src));
    let full = a.encode(&v);
    if let Ok(b) = &full {
        if b.is_empty() { c.discard(); return Ok(()); }
        at = offset_in(c.src, b.len());
    }
    let mut ops = Vec::new();
    ops_of(&v, &mut ops);
    let mut w = Flaky { out: vec![], at, failing: at != usize::MAX, fault, calls: 0 };
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut i = 0;
    let mut died = None;
    let mut p = Pda::new(&a);
    let ctx = |died: &Option<(Op, ErrorKind)>| format!("failure in {:?}, at byte {}\nvalue {}\nschema {}", died, at, short(&v), short(&s));
    {
        let mut e = Encoder::new(&mut st, &mut w);
        while i < ops.len() {
            let r = guard(|| do_enc(&mut e, &ops[i])).map_err(|m| Fail(format!("{:?}: {}\n{}", ops[i], m, ctx(&None))))?;
            match r {
                Ok(()) => { p.enc(&ops[i]); }
                Err(x) => { died = Some((ops[i].clone(), x.kind())); break; }
            }
            i += 1;
        }
    }
    let Some((_, kind)) = died.clone() else {
        if full.is_ok() { fail!("the encoding succeeds although the writer fails\n{}", ctx(&None)); }
        c.discard();
        return Ok(());
    };
    if !FATAL.contains(&kind) {
        if full.is_ok() { fail!("the failing call is answered with {:?}\n{}", kind, ctx(&died)); }
        // junk in the place of an illegal recursion was refused as such: nothing to see here
        c.discard();
        return Ok(());
    }
    w.failing = false;
    let (len, calls) = (w.out.len(), w.calls);
    // the state as if the failed call had been made, and as if not
    let p0 = p.clone();
    p.enc(&ops[i]);
    let mut g = Guide::draw(c.src, false);
    let mut log = Vec::new();
    for k in 0..14 {
        let op = match k {
            0 => ops[i].clone(),
            1 if i + 1 < ops.len() => ops[i + 1].clone(),
            2 => { let mut q = p0.clone(); q.broken = false; g.legal(c.src, &q).unwrap_or(Op::Unit) }
            _ => match c.src.idx(3) {
                0 => { let mut q = p.clone(); q.broken = false; g.legal(c.src, &q).unwrap_or(Op::FinSeq) }
                1 => g.random(c.src, Some(&p0)),
                _ => g.random(c.src, None),
            },
        };
        log.push(format!("{:?}", op));
        let mut e = Encoder::new(&mut st, &mut w);
        let r = guard(|| do_enc(&mut e, &op)).map_err(|m| Fail(format!("after the failure {:?}: {}\n{}", op, m, ctx(&died))))?;
        sticky(r.err(), &format!("{:?}", op), &st).map_err(|f| Fail(format!("{}\n{}", f.0, ctx(&died))))?;
        must!(w.out.len() == len, "{:?} after the failure writes {}\n{}", op, hex(&w.out[len..]), ctx(&died));
    }
    let mut e = Encoder::new(&mut st, &mut w);
    let r1 = guard(|| v.encode_to(&mut e)).map_err(|m| Fail(format!("encode_to after the failure: {}\n{}", m, ctx(&died))))?;
    let r2 = guard(|| (1u8, "x", Some(())).serialize(&mut e)).map_err(|m| Fail(format!("serialize after the failure: {}\n{}", m, ctx(&died))))?;
    let r3 = guard(|| ().serialize(&mut e)).map_err(|m| Fail(format!("serialize after the failure: {}\n{}", m, ctx(&died))))?;
    for r in [r1, r2, r3] {
        must!(r.is_err(), "a whole value is encoded after the failure\n{}", ctx(&died));
        must!(!st.is_finished(), "finished after the failure and a whole value\n{}", ctx(&died));
    }
    must!(w.out.len() == len && w.calls == calls, "the writer is used after the failure\n{}", ctx(&died));
    c.label(if kind == ErrorKind::Io { "encoder_io" } else { "encoder_illegal" });
    if i + 1 == ops.len() { c.label("failed_in_last_call"); }
    c.nontrivial(mix(mix(hash_of(&s), at as u64), mix(hash_str(&format!("{:?}", v)), hash_str(&log.concat()))));
    c.sample(|| format!("encoder {} then {}", ctx(&died), log.join("; ")));
    Ok(())
}

fn sticky(e: Option<Error>, what: &str, st: &CoderState) -> Res {
    match e {
        None => fail!("{} after the failure succeeds", what),
        Some(e) => must!(e.kind() == ErrorKind::ApiUsage, "{} after the failure gives {:?}: {}", what, e.kind(), clip(&e.to_string(), 200)),
    }
    must!(!st.is_finished() && st.is_finished_or_err().is_err(), "after the failure and {} the coder reports finished", what);
    Ok(())
}

fn c09_dec(c: &mut Case) -> Res {
    let illegal = c.src.chance(1, 4);
    let s = gen_schema(c.src, &SchemaCfg { illegal, recursive: illegal, ..SchemaCfg::default() });
    let a = Arena::make(&s, illegal);
    let v = gen_value(c.src, &a);
    let (mut data, how) = match a.encode(&v) {
        Ok(b) if c.src.chance(1, 2) => {
            if b.is_empty() { c.discard(); return Ok(()); }
            let (mut b, _) = tampered(c.src, &a, &v);
            b.truncate(300_000);
            (b, "malformed")
        }
        Ok(b) => (b, "cut"),
        Err(_) => {
            // what the reference writes before it comes to the illegal place
            let mut b = Vec::new();
            let _ = a.enc(a.root, &v, &mut b);
            (b, "illegal")
        }
    };
    let fault = fault_of(c.src);
    let mut at = data.len();
    if how == "cut" {
        if data.is_empty() { c.discard(); return Ok(()); }
        at = offset_in(c.src, data.len());
    } else if how == "malformed" {
        let k = c.src.idx(20);
        data.extend((0..k).map(|_| 1u8));
        at = data.len();
    } else if how == "illegal" {
        data.extend([0u8; 8]);
        at = data.len();
    }
    let ctx = |d: &Option<(Op, ErrorKind)>| format!("failure in {:?} ({}, data end at {})\nbytes {}\nschema {}", d, how, at, hex(&data), short(&s));
    let mut r = FlakyR { data: &data, pos: 0, at, failing: true, fault, calls: 0 };
    let mut rd = RefDec::new(&data[..at], Limits::default());
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut p = Pda::new(&a);
    let mut g = Guide::draw(c.src, true);
    g.seek_illegal = true;
    let mut died = None;
    let mut before = p.clone();
    for _ in 0..2000 {
        let mut d = Decoder::new(&mut st, &mut r);
        let Some(op) = (if p.broken { None } else { g.legal(c.src, &p) }) else { break };
        before = p.clone();
        let exp = p.dec(&op, &mut rd);
        let got = guard(|| do_dec(&mut d, &op)).map_err(|m| Fail(format!("{:?}: {}\n{}", op, m, ctx(&None))))?;
        match (exp, got) {
            (Exp::Ok(_), Ok(_)) => {}
            (Exp::Fatal(k), Err(e)) => {
                must!(kind_is(&e, k), "{:?} fails with {:?}, must be one of {:?}\n{}", op, e.kind(), k, ctx(&None));
                died = Some((op, e.kind()));
                break;
            }
            (Exp::Reject(_), Err(_)) => break,
            (e, g) => fail!("{:?} gives {}, must {}\n{}", op, short(&g.map_err(|x| x.kind())), short(&e), ctx(&None)),
        }
    }
    let Some((op0, kind)) = died.clone() else { c.discard(); return Ok(()); };
    r.failing = false;
    r.at = usize::MAX;
    let (pos, calls) = (r.pos, r.calls);
    let mut log = Vec::new();
    // as if the failed call had gone well: its frame is taken for finished
    let mut after = before.clone();
    after.st.pop();
    while after.st.last() == Some(&Fr::Auto) { after.st.pop(); }
    for k in 0..14 {
        let op = match k {
            0 => op0.clone(),
            1 => g.legal(c.src, &after).unwrap_or(Op::Unit),
            _ => match c.src.idx(3) { 0 => g.legal(c.src, &before).unwrap_or(Op::Unit), 1 => g.random(c.src, Some(&before)), _ => g.random(c.src, Some(&after)) },
        };
        log.push(format!("{:?}", op));
        let mut d = Decoder::new(&mut st, &mut r);
        let x = guard(|| do_dec(&mut d, &op)).map_err(|m| Fail(format!("after the failure {:?}: {}\n{}", op, m, ctx(&died))))?;
        sticky(x.err(), &format!("{:?}", op), &st).map_err(|f| Fail(format!("{}\n{}", f.0, ctx(&died))))?;
        must!(r.pos == pos, "{:?} after the failure takes {} bytes\n{}", op, r.pos - pos, ctx(&died));
    }
    let mut d = Decoder::new(&mut st, &mut r);
    let e1 = guard(|| Value::decode_from(&mut d).err()).map_err(|m| Fail(format!("decode_from after the failure: {}\n{}", m, ctx(&died))))?;
    let e2 = guard(|| serde::de::IgnoredAny::deserialize(&mut d).err()).map_err(|m| Fail(format!("deserialize after the failure: {}\n{}", m, ctx(&died))))?;
    let e3 = guard(|| u8::deserialize(&mut d).err()).map_err(|m| Fail(format!("deserialize after the failure: {}\n{}", m, ctx(&died))))?;
    for (e, what) in [(e1, "Value::decode_from"), (e2, "deserialize"), (e3, "deserialize")] {
        must!(e.is_some(), "{} after the failure succeeds\n{}", what, ctx(&died));
        must!(!st.is_finished(), "finished after the failure and {}\n{}", what, ctx(&died));
    }
    must!(r.pos == pos && r.calls == calls, "the reader is used after the failure\n{}", ctx(&died));
    c.label(match kind { ErrorKind::Io => "decoder_io", ErrorKind::MalformedData => "decoder_malformed", ErrorKind::PlatformLimits => "decoder_limits", _ => "decoder_illegal" });
    if after.st.is_empty() { c.label("failed_in_last_call"); }
    c.nontrivial(mix(mix(hash_of(&s), at as u64), mix(hash_bytes(&data), hash_str(&log.concat()))));
    c.sample(|| format!("decoder {} then {}", ctx(&died), log.join("; ")));
    Ok(())
}

// ---------------------------------------------------------------- recursion

/// Replaces the `k`th recurse (in preorder) by a copy of what it refers to. None if illegal.
pub fn unfold(root: &Schema, k: usize) -> Option<Schema> {
    fn go<'s>(s: &'s Schema, path: &mut Vec<&'s Schema>, k: &mut i64) -> Option<Schema> {
        if let Schema::Recurse(n) = s {
            *k -= 1;
            if *k == -1 {
                if *n == 0 || *n > path.len() { return None; }
                return Some(shift(path[path.len() - n], 0, *n));
            }
            return Some(Schema::Recurse(*n));
        }
        path.push(s);
        let r = map(s, &mut |c| go(c, path, k));
        path.pop();
        r
    }
    /// Recursions that leave the copied tree have `by` more levels to go.
    fn shift(s: &Schema, depth: usize, by: usize) -> Schema {
        if let Schema::Recurse(n) = s {
            return Schema::Recurse(if *n > depth { n.saturating_add(by) } else { *n });
        }
        map(s, &mut |c| Some(shift(c, depth + 1, by))).unwrap()
    }
    let mut k = k as i64;
    go(root, &mut Vec::new(), &mut k)
}

pub fn map<'s>(s: &'s Schema, f: &mut dyn FnMut(&'s Schema) -> Option<Schema>) -> Option<Schema> {
    Some(match s {
        Schema::Option(i) => Schema::Option(Box::new(f(i)?)),
        Schema::Seq(q) => Schema::Seq(SeqSchema { len: q.len, inner: Box::new(f(&q.inner)?) }),
        Schema::Tuple(v) => Schema::Tuple(v.iter().map(|x| f(x)).collect::<Option<_>>()?),
        Schema::Struct(v) => Schema::Struct(v.iter().map(|x| Some(StructSchemaField { name: x.name.clone(), inner: f(&x.inner)? })).collect::<Option<_>>()?),
        Schema::Enum(v) => Schema::Enum(v.iter().map(|x| Some(EnumSchemaVariant { name: x.name.clone(), inner: f(&x.inner)? })).collect::<Option<_>>()?),
        leaf => leaf.clone(),
    })
}

/// How many recursions a value passes through.
fn passes(s: &Schema, a: &Arena, r: Ref, v: &Value, tree: &Schema) -> u64 {
    // walks schema tree and value together; a child that is a Recurse counts one
    let Ref::Node(i) = r else { return 1 };
    let kids = |t: &Schema| -> Vec<Schema> {
        match t {
            Schema::Option(i) => vec![(**i).clone()],
            Schema::Seq(q) => vec![(*q.inner).clone()],
            Schema::Tuple(v) => v.clone(),
            Schema::Struct(v) => v.iter().map(|f| f.inner.clone()).collect(),
            Schema::Enum(v) => v.iter().map(|f| f.inner.clone()).collect(),
            _ => vec![],
        }
    };
    let _ = (s, tree);
    let ks = kids(a.nodes[i].schema);
    let go = |k: usize, c: Ref, x: &Value| -> u64 {
        matches!(ks.get(k), Some(Schema::Recurse(_))) as u64 + passes(s, a, c, x, tree)
    };
    match (&a.nodes[i].kind, v) {
        (Kind::Option(c), Value::Option(Some(x))) => go(0, *c, x),
        (Kind::Seq(_, c), Value::FixedLenSeq(xs)) | (Kind::Seq(_, c), Value::VarLenSeq(xs)) => xs.iter().map(|x| go(0, *c, x)).sum(),
        (Kind::Tuple(cs), Value::Tuple(xs)) => cs.iter().zip(xs).enumerate().map(|(k, (c, x))| go(k, *c, x)).sum(),
        (Kind::Struct(cs), Value::Struct(xs)) => cs.iter().zip(xs).enumerate().map(|(k, (c, x))| go(k, c.1, &x.value)).sum(),
        (Kind::Enum(cs), Value::Enum(e)) if e.variant_ord < cs.len() => go(e.variant_ord, cs[e.variant_ord].1, &e.value),
        _ => 0,
    }
}

pub fn c10(c: &mut Case) -> Res {
    let illegal = c.src.chance(1, 2);
    let extreme = c.src.chance(1, 4);
    let mut s = Schema::Unit;
    for _ in 0..4 {
        s = gen_schema(c.src, &SchemaCfg { illegal, recursive: true, extreme, max_nodes: 25, ..SchemaCfg::default() });
        if count_recurse(&s) > 0 { break; }
    }
    let a = Arena::make(&s, illegal);
    if a.recursions == 0 { c.discard(); return Ok(()); }
    let mut t = Tally::default();
    let mut h = 0;
    // histories
    let mut g = Guide::draw(c.src, false);
    g.wrong /= 3;
    g.seek_illegal = illegal;
    enc_history(c.src, &s, &a, &mut g, 150, &mut t)?;
    let v = gen_value(c.src, &a);
    let mut data = Vec::new();
    let want = a.enc(a.root, &v, &mut data).map(|_| data.clone());
    let msg_end = data.len();
    data.extend((0..4).map(|_| c.src.below(3) as u8));
    let mut g = Guide::draw(c.src, true);
    g.wrong /= 3;
    g.seek_illegal = illegal;
    dec_history(c.src, &s, &a, &data, &mut g, 150, &mut t)?;
    // dynamic values
    let ctx = || format!("value {}\nschema {}", short(&v), short(&s));
    let (r, fin, got) = guard(|| encode(&s, &v)).map_err(|m| Fail(format!("encoding: {}\n{}", m, ctx())))?;
    match (&want, &r) {
        (Ok(b), Ok(())) => must!(fin && *b == got, "encoded as {} (finished {}), must be {}\n{}", hex(&got), fin, hex(b), ctx()),
        (Err(RefErr::Illegal), Err(e)) => must!(e.kind() == ErrorKind::IllegalSchema && !fin, "illegal recursion gives {:?}\n{}", e.kind(), ctx()),
        (w, r) => fail!("encoding gives {}, must give {}\n{}", short(&r.as_ref().map_err(|e| e.kind())), short(w), ctx()),
    }
    let mut rd = RefDec::new(&data, Limits { nodes: 20_000, depth: 2000 });
    let want_dec = rd.value(&a, a.root);
    if want_dec != Err(RefErr::TooBig) {
        let (r, fin, used) = guard(|| decode(&s, &data)).map_err(|m| Fail(format!("decoding {}: {}\n{}", hex(&data), m, ctx())))?;
        let r = r.map_err(|e| e.kind());
        match (&want_dec, &r) {
            (Ok(w), Ok(g)) => must!(veq(w, g) && fin && used == rd.pos, "decoded {} of {} bytes as {}, must be {} of {}\n{}", used, hex(&data), short(g), short(w), rd.pos, ctx()),
            (Err(e), Err(k)) => must!(fatal_kinds(*e, rd.huge).contains(k) && !fin, "decoding {} gives {:?}, must be {:?}\n{}", hex(&data), k, e, ctx()),
            (w, r) => fail!("decoding {} gives {}, must give {}\n{}", hex(&data), short(r), short(w), ctx()),
        }
        // reached through serde's requests
        for way in [DecWay::draw(c.src), DecWay::draw(c.src)] {
            let mut rr: &[u8] = &data;
            let d = guard(|| decode_by(way, &a, &s, &mut rr, CoderStateAlloc::new())).map_err(|m| Fail(format!("decoding {} by {}: {}\n{}", hex(&data), way.name(), m, ctx())))?;
            let used = data.len() - rr.len();
            match (&want_dec, d.result) {
                (Ok(w), Ok(g)) => must!(g.as_ref().map_or(true, |g| veq(w, g)) && d.finished && used == rd.pos, "decoded {} of {} by {} as {}, must be {} of {}\n{}", used, hex(&data), way.name(), short(&g), short(w), rd.pos, ctx()),
                (Err(e), Err(k)) => must!(fatal_kinds(*e, rd.huge).contains(&k.kind()) && !d.finished, "decoding {} by {} gives {:?}, must be {:?}\n{}", hex(&data), way.name(), k.kind(), e, ctx()),
                (w, r) => fail!("decoding {} by {} gives {}, must give {}\n{}", hex(&data), way.name(), short(&r.map_err(|e| e.kind())), short(w), ctx()),
            }
        }
        let mut rr: &[u8] = &data;
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let r = guard(|| serde::de::IgnoredAny::deserialize(&mut Decoder::new(&mut st, &mut rr)).is_ok()).map_err(|m| Fail(format!("ignoring {}: {}\n{}", hex(&data), m, ctx())))?;
        must!(r == want_dec.is_ok() && st.is_finished() == r, "ignoring {} gives ok={} finished={}, must be {}\n{}", hex(&data), r, st.is_finished(), short(&want_dec), ctx());
    }
    if let Ok(b) = &want {
        let names = Names::default();
        let way = EncWay::draw(c.src, &a, &v, &names);
        let mut out = Vec::new();
        let e = guard(|| encode_by(&way, &s, &mut out, CoderStateAlloc::new())).map_err(|m| Fail(format!("encoding by {}: {}\n{}", way.name(), m, ctx())))?;
        must!(e.result.is_ok() && e.finished && out == *b, "encoded by {} as {} ({}, finished {}), must be {}\n{}", way.name(), hex(&out), short(&e.result.map_err(|e| e.kind())), e.finished, hex(b), ctx());
    }
    if a.root == Ref::Illegal {
        let st = CoderState::new(&s, CoderStateAlloc::new(), None);
        drop(st);
        c.label("root_illegal");
    }
    let mut n = passes(&s, &a, a.root, &v, &s);
    if want == Err(RefErr::Illegal) { c.label("illegal_reached"); n += 1; }
    if t.fatal > 0 { c.label("history_illegal_reached"); n += 1; }
    // unfolding
    let k = c.src.idx(a.recursions);
    if let (Some(u), Ok(b)) = (unfold(&s, k), &want) {
        let (r, fin, got) = guard(|| encode(&u, &v)).map_err(|m| Fail(format!("encoding under the unfolded schema: {}\n{}", m, ctx())))?;
        must!(r.is_ok() && fin && got == *b, "under the unfolded schema {} the value is encoded as {} ({}), under the original as {}\n{}", short(&u), hex(&got), short(&r.map_err(|e| e.kind())), hex(b), ctx());
        let (r, fin, used) = guard(|| decode(&u, &data)).map_err(|m| Fail(format!("decoding under the unfolded schema: {}\n{}", m, ctx())))?;
        must!(fin && used == msg_end && r.as_ref().map_or(false, |g| veq(g, &v)), "under the unfolded schema {} the message {} is decoded as {}\n{}", short(&u), hex(b), short(&r.map_err(|e| e.kind())), ctx());
        c.label("unfolded");
        h = hash_of(&u);
    }
    c.label_n("recursions_passed", n);
    if n > 0 {
        c.nontrivial(mix(mix(hash_of(&s), h), hash_bytes(&data)));
        c.sample(|| format!("schema {} value {} ({} recursions passed)", short(&s), short(&v), n));
    }
    Ok(())
}
