//! C23: errors that the application's own data or visitors raise pass through unchanged.

use crate::checks::core::ops_of;
use crate::checks::history::{dec_step, Cursor, Tally};
use crate::checks::serde_io::{Dg, Dyn, Names};
use crate::checks::ways::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use binschema::error::{Error, ErrorKind};
use binschema::value::Value;
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder};
use serde::Serialize;
use std::cell::Cell;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C23", f: c23, quick: 1_000_000, thorough: 15_000_000,
            rule: "a case is a generated value coded through serde whose own Serialize or Deserialize implementation fails at a drawn node; then the coding is taken up by individual calls exactly where it stopped; non-trivial when the failure came about below the root; distinct by (schema, value, node, message)" },
    ]
}

pub fn c23(c: &mut Case) -> Res {
    if c.src.chance(1, 2) { encoding(c) } else { decoding(c) }
}

fn message(s: &mut Src) -> String {
    match s.idx(6) {
        0 => String::new(),
        1 => "duplicate key\nIO error, malformed data".into(),
        2 => "{} {0} %s \\ \"".into(),
        3 => gen_string(s),
        _ => text(s, 12),
    }
}

/// The error must be the application's.
fn intact(e: &Error, m: &str) -> Res {
    must!(e.kind() == ErrorKind::Other, "the application's error is returned as {:?}: {}", e.kind(), clip(&e.to_string(), 200));
    let inner = e.inner().to_string();
    must!(inner == m, "the application's error {:?} is returned as {:?}", clip(m, 200), clip(&inner, 200));
    must!(e.to_string().contains(m), "the text of the error lacks {:?}: {:?}", clip(m, 200), clip(&e.to_string(), 300));
    Ok(())
}

/// How many ops precede the node's own, if the walk is to end in the node.
struct Plan { left: i64, ops: usize, msg: String, after: bool, stop: bool, at: Option<usize> }

impl Plan {
    /// Walks data and the value they fit in step; puts the failure at the node the count is used up at.
    fn node(&mut self, d: &mut Dyn, v: &Value) {
        if self.at.is_some() { return; }
        if self.left == 0 {
            let mut own = Vec::new();
            if self.after { ops_of(v, &mut own); }
            self.at = Some(self.ops + own.len());
            let m = self.msg.clone();
            *d = if self.after { Dyn::FailAfter(Box::new(std::mem::replace(d, Dyn::Unit)), m) } else { Dyn::Fail(m) };
            return;
        }
        self.left -= 1;
        match (d, v) {
            (Dyn::Newtype(x), _) => self.node(x, v),
            (Dyn::Some(x), Value::Option(Some(v))) => { self.ops += 1; self.node(x, v); }
            (Dyn::NewtypeVariant(_, _, x), Value::Enum(e)) => { self.ops += 1; self.node(x, &e.value); }
            (Dyn::UnitVariant(..), Value::Enum(_)) => self.ops += 2,
            (Dyn::TupleVariant(_, _, _, xs), Value::Enum(e)) => { self.ops += 1; self.list(xs, &e.value); }
            (Dyn::StructVariant(_, _, _, xs), Value::Enum(e)) => { self.ops += 1; self.fields(xs, &e.value); }
            (Dyn::Seq(_, xs) | Dyn::Tuple(_, xs) | Dyn::TupleStruct(_, xs), v) => self.list(xs, v),
            (Dyn::Struct(_, xs), v) => self.fields(xs, v),
            (Dyn::Map(_, xs, _), Value::VarLenSeq(vs)) => {
                self.ops += 1;
                for ((k, x), v) in xs.iter_mut().zip(vs) {
                    let Value::Tuple(kv) = v else { unreachable!() };
                    self.ops += 3;
                    self.node(k.as_mut().unwrap(), &kv[0]);
                    self.ops += 1;
                    self.node(x.as_mut().unwrap(), &kv[1]);
                    self.ops += 1;
                    if self.at.is_some() { return; }
                }
                self.ops += 1;
            }
            _ => self.ops += 1,
        }
    }
    fn list(&mut self, xs: &mut Vec<Dyn>, v: &Value) {
        self.ops += 1;
        let vs = match v { Value::FixedLenSeq(v) | Value::VarLenSeq(v) | Value::Tuple(v) => &v[..], _ => return };
        for (i, (x, v)) in xs.iter_mut().zip(vs).enumerate() {
            if self.halt(x, i) { return; }
            self.ops += 1;
            self.node(x, v);
            if self.at.is_some() { return; }
        }
        self.ops += 1;
    }
    /// Instead of the node, the failure may come before it is begun.
    fn halt(&mut self, x: &mut Dyn, i: usize) -> bool {
        if self.left != 0 || !self.stop || i == 0 { return false; }
        self.at = Some(self.ops);
        *x = Dyn::Stop(self.msg.clone());
        true
    }
    fn fields(&mut self, xs: &mut Vec<(&'static str, Option<Dyn>)>, v: &Value) {
        self.ops += 1;
        let Value::Struct(vs) = v else { unreachable!() };
        for (i, (x, v)) in xs.iter_mut().zip(vs).enumerate() {
            if let Some(x) = &mut x.1 { if self.halt(x, i) { return; } }
            self.ops += 1;
            match &mut x.1 {
                Some(x) => self.node(x, &v.value),
                None => self.ops += 1,
            }
            if self.at.is_some() { return; }
        }
        self.ops += 1;
    }
}

fn encoding(c: &mut Case) -> Res {
    let recursive = c.src.chance(1, 3);
    let s = gen_schema(c.src, &SchemaCfg { recursive, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let names = Names::default();
    let mut d = Dg { names: &names, firm: true }.fitting(c.src, &a, a.root, &v);
    let n = count_nodes(&v).min(60);
    let msg = message(c.src);
    let mut plan = Plan { left: c.src.below(n) as i64, ops: 0, msg, after: c.src.chance(1, 4), stop: c.src.chance(1, 4), at: None };
    plan.node(&mut d, &v);
    let (Some(at), msg) = (plan.at, plan.msg) else { c.discard(); return Ok(()); };
    let mut ops = Vec::new();
    ops_of(&v, &mut ops);
    let ctx = || format!("at call {} of {}, {}\nvalue {}\nschema {}", at, ops.len(), short(&d), short(&v), short(&s));
    let mut out = Vec::new();
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let r = guard(|| d.serialize(&mut Encoder::new(&mut st, &mut out))).map_err(|m| Fail(format!("{}\n{}", m, ctx())))?;
    match r {
        Ok(()) => fail!("the encoding succeeds although the data fail\n{}", ctx()),
        Err(e) => intact(&e, &msg).map_err(|f| Fail(format!("encoding: {}\n{}", f.0, ctx())))?,
    }
    let all = at == ops.len();
    must!(st.is_finished() == all && st.is_finished_or_err().is_ok() == all, "the encoder reports {}finished after the data failed\n{}", if all { "un" } else { "" }, ctx());
    // what is written is what precedes, and the rest can follow
    let mut w0 = Vec::new();
    let mut st0 = CoderState::new(&s, CoderStateAlloc::new(), None);
    {
        let mut e = Encoder::new(&mut st0, &mut w0);
        for op in &ops[..at] { do_enc(&mut e, op).map_err(|x| Fail(format!("legal call {:?} fails with {:?}\n{}", op, x.kind(), ctx())))?; }
    }
    must!(out == w0, "wrote {} before the failure, must write {}\n{}", hex(&out), hex(&w0), ctx());
    let mut e = Encoder::new(&mut st, &mut out);
    for (i, op) in ops.iter().enumerate().skip(at) {
        let r = guard(|| do_enc(&mut e, op)).map_err(|m| Fail(format!("{:?}: {}\n{}", op, m, ctx())))?;
        if let Err(x) = r { fail!("call {} {:?}, due after the failure, fails with {:?}: {}\n{}", i, op, x.kind(), clip(&x.to_string(), 300), ctx()); }
    }
    must!(st.is_finished(), "not finished after the rest was encoded\n{}", ctx());
    let full = a.encode(&v).unwrap();
    must!(out == full, "in all {} is written, must be {}\n{}", hex(&out), hex(&full), ctx());
    c.label("encoding");
    if at > 0 {
        c.nontrivial(mix(mix(hash_of(&s), at as u64), mix(hash_str(&format!("{:?}", v)), hash_str(&msg))));
        c.sample(|| format!("encoding fails with {:?} {}", clip(&msg, 60), ctx()));
    }
    Ok(())
}

fn decoding(c: &mut Case) -> Res {
    let recursive = c.src.chance(1, 3);
    let s = gen_schema(c.src, &SchemaCfg { recursive, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let mut data = a.encode(&v).unwrap();
    data.extend([0xa5; 3]);
    let msg = message(c.src);
    let n = count_nodes(&v).min(60);
    let plan = FailPlan::new(1 + c.src.below(3 * n), msg.clone());
    let way = c.src.below(1 << 32);
    let pos = Rc::new(Cell::new(0));
    let mut r = Cursor { data: &data, pos: pos.clone() };
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let res = {
        let mut d = Decoder::new(&mut st, &mut r);
        guard(|| decode_failing(way, &plan, &a, &mut d)).map_err(|m| Fail(format!("{}\nbytes {}\nschema {}", m, hex(&data), short(&s))))?
    };
    let Some(node) = plan.node() else { c.discard(); return Ok(()); };
    let ctx = || format!("failing at {}\nbytes {}\nschema {}", node, hex(&data), short(&s));
    match res {
        Ok(_) => fail!("the decoding succeeds although the visitor fails\n{}", ctx()),
        Err(e) => intact(&e, &msg).map_err(|f| Fail(format!("decoding: {}\n{}", f.0, ctx())))?,
    }
    // where it stopped
    let mut p = Pda::new(&a);
    let mut rd = RefDec::new(&data, Limits::default());
    let mut g = Guide { fuel: i64::MAX, eager: 0, seek_illegal: false, wrong: 0, dec: true, strict: false };
    let (mut seen, mut depth) = (0, 0);
    loop {
        let is_need = matches!(p.st.last(), Some(Fr::Need(_)));
        match node.place {
            Place::Next => if is_need && seen == node.begun { break; },
            Place::Within(owner, k) => {
                if is_need && seen == owner { depth = p.st.len(); }
                if seen == node.begun && p.st.len() == depth && matches!(p.st.last(), Some(Fr::Seq { next, .. } | Fr::Tuple { next, .. }) if *next == k) { break; }
            }
            Place::After(owner) => {
                if is_need && seen == owner { depth = p.st.len(); }
                if seen == node.begun && p.st.len() < depth { break; }
            }
        }
        seen += is_need as u64;
        let Some(op) = g.legal(c.src, &p) else { fail!("the reference decoder does not get there\n{}", ctx()) };
        p.dec(&op, &mut rd);
    }
    must!(pos.get() == rd.pos, "took {} bytes before the failure, must take {}\n{}", pos.get(), rd.pos, ctx());
    let all = p.finished();
    must!(st.is_finished() == all && st.is_finished_or_err().is_ok() == all, "the decoder reports {}finished after the visitor failed\n{}", if all { "un" } else { "" }, ctx());
    let mut t = Tally::default();
    let mut d = Decoder::new(&mut st, &mut r);
    check_need(&p, d.need(), "after the failure").map_err(|f| Fail(format!("{}\n{}", f.0, ctx())))?;
    let mut left = 3000;
    while !p.st.is_empty() && left > 0 {
        left -= 1;
        let op = g.legal(c.src, &p).unwrap();
        dec_step(&mut p, &mut d, &mut rd, &pos, &op, &mut t).map_err(|f| Fail(format!("taken up after the failure: {}\n{}", f.0, ctx())))?;
    }
    if p.st.is_empty() {
        must!(st.is_finished(), "not finished after the rest was decoded\n{}", ctx());
        must!(pos.get() == data.len() - 3, "in all {} bytes are taken\n{}", pos.get(), ctx());
    }
    c.label("decoding");
    if node.begun > 0 {
        c.nontrivial(mix(mix(hash_of(&s), node.begun), mix(hash_bytes(&data), mix(way, hash_str(&msg)))));
        c.sample(|| format!("decoding fails with {:?}, {}", clip(&msg, 60), ctx()));
    }
    Ok(())
}
