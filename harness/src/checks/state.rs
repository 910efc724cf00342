//! C16 to C18: reused allocations and buffers, debug logs, transfer sizes. All three compare runs
//! of the same coding job under different circumstances.

use crate::alloc;
use crate::checks::core::{composite, ops_of};
use crate::checks::serde_io::{Dg, Dyn, Names};
use crate::checks::ways::DecWay;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::must;
use binschema::error::{Error, ErrorKind};
use binschema::value::Value;
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, Schema, SeqSchema};
use serde::de::IgnoredAny;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use std::io::{self, ErrorKind as IoKind, Read, Write};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C16", f: c16, quick: 400_000, thorough: 12_000_000,
            rule: "a case is a sequence of 2 to 6 generated coding jobs (dynamic values, call histories with illegal calls, serde, I/O failing at a drawn byte, abandoned ones) run once with fresh allocations and once with allocations recovered or cloned from a drawn earlier job, every 4th case measuring allocation counts and every 4th reused string and byte buffers; non-trivial when at least one job ran on the allocation of another; distinct by jobs" },
        Check { id: "C17", f: c17, quick: 50_000, thorough: 2_000_000,
            rule: "a case is a generated coding job run without a log and with 3 logs whose writers accept, accept a byte at a time, fail always, fail sometimes, accept nothing or are interrupted; non-trivial when the job is of a composite schema; distinct by job" },
        Check { id: "C18", f: c18, quick: 1_000_000, thorough: 30_000_000,
            rule: "a case is a generated coding job run with whole transfers and with 2 drawn scripts of transfer sizes and interruptions; non-trivial when the scripts had at least 2 interruptions or split transfers; distinct by job and scripts" },
    ]
}

#[derive(Debug, Clone)]
enum Act {
    EncValue(Value),
    EncOps(Vec<Op>),
    /// the schema itself, as typed data
    EncTyped(Schema),
    DecValue(Vec<u8>),
    DecOps(Vec<u8>, Vec<Op>),
    DecIgnored(Vec<u8>),
    DecTyped(Vec<u8>),
    /// data of some shape that fits, and the names in them
    EncSerde(Dyn, #[allow(dead_code)] Rc<Names>),
    /// through serde, with requests drawn by the number
    DecSerde(Vec<u8>, u64),
}

#[derive(Debug, Clone)]
struct Job {
    schema: Schema,
    act: Act,
    /// the reader or writer fails once this many bytes went through
    fault: Option<(usize, IoKind)>,
}

#[derive(Debug, Clone, PartialEq)]
struct Ran {
    events: Vec<(Option<ErrorKind>, String)>,
    bytes: Vec<u8>,
    used: usize,
    finished: bool,
}

/// A stream in both directions that follows a script of transfer sizes (zero interrupts).
struct Stream<'a> {
    out: Vec<u8>,
    data: &'a [u8],
    pos: usize,
    fault: Option<(usize, IoKind)>,
    script: &'a [usize],
    at: usize,
    odd: u64,
}

impl<'a> Stream<'a> {
    fn new(data: &'a [u8], fault: Option<(usize, IoKind)>, script: &'a [usize]) -> Self {
        Stream { out: Vec::new(), data, pos: 0, fault, script, at: 0, odd: 0 }
    }
    fn step(&mut self, want: usize, done: usize) -> io::Result<usize> {
        let mut n = want;
        if !self.script.is_empty() {
            let s = self.script[self.at % self.script.len()];
            self.at += 1;
            if s == 0 { self.odd += 1; return Err(io::Error::new(IoKind::Interrupted, "interrupted")); }
            if s < n { n = s; self.odd += 1; }
        }
        if let Some((at, k)) = self.fault {
            if done >= at { return Err(io::Error::new(k, Payload(at as u64))); }
            n = n.min(at - done);
        }
        Ok(n)
    }
}

impl<'a> Write for Stream<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = self.step(b.len(), self.out.len())?;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl<'a> Read for Stream<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = self.step(b.len(), self.pos)?.min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn ev<T>(r: Result<T, Error>, f: impl FnOnce(T) -> String) -> (Option<ErrorKind>, String) {
    match r {
        Ok(x) => (None, f(x)),
        Err(e) => (Some(e.kind()), clip(&e.to_string(), 2000)),
    }
}

fn run_job<'a>(j: &'a Job, alloc: CoderStateAlloc, log: Option<&'a mut (dyn Write + 'a)>, script: &'a [usize], odd: &mut u64) -> (Ran, CoderStateAlloc) {
    let data: &[u8] = match &j.act { Act::DecValue(d) | Act::DecOps(d, _) | Act::DecIgnored(d) | Act::DecTyped(d) | Act::DecSerde(d, _) => d, _ => &[] };
    let mut io = Stream::new(data, j.fault, script);
    let mut st = CoderState::new(&j.schema, alloc, log);
    let mut events = Vec::new();
    match &j.act {
        Act::EncValue(v) => events.push(ev(v.encode_to(&mut Encoder::new(&mut st, &mut io)), |_| String::new())),
        Act::EncTyped(v) => events.push(ev(v.serialize(&mut Encoder::new(&mut st, &mut io)), |_| String::new())),
        Act::EncOps(ops) => {
            let mut e = Encoder::new(&mut st, &mut io);
            for op in ops {
                events.push(ev(do_enc(&mut e, op), |_| String::new()));
                events.push(ev(e.need().map(|s| s as *const Schema as usize), |p| p.to_string()));
            }
        }
        Act::DecValue(_) => events.push(ev(Value::decode_from(&mut Decoder::new(&mut st, &mut io)), |v| format!("{:?}", v))),
        Act::DecIgnored(_) => events.push(ev(IgnoredAny::deserialize(&mut Decoder::new(&mut st, &mut io)), |_| String::new())),
        Act::EncSerde(d, _) => events.push(ev(d.serialize(&mut Encoder::new(&mut st, &mut io)), |_| String::new())),
        Act::DecSerde(_, n) => {
            let a = Arena::make(&j.schema, true);
            events.push(ev(DecWay::Serde(*n).run(&a, &mut Decoder::new(&mut st, &mut io)), |v| format!("{:?}", v)));
        }
        Act::DecTyped(_) => events.push(ev(Schema::deserialize(&mut Decoder::new(&mut st, &mut io)), |v| format!("{:?}", v))),
        Act::DecOps(_, ops) => {
            let mut d = Decoder::new(&mut st, &mut io);
            for op in ops {
                events.push(ev(do_dec(&mut d, op), |o| format!("{:?}", o)));
                events.push(ev(d.need().map(|s| s as *const Schema as usize), |p| p.to_string()));
            }
        }
    }
    let finished = st.is_finished();
    events.push(ev(st.is_finished_or_err(), |_| String::new()));
    *odd += io.odd;
    (Ran { events, bytes: io.out, used: io.pos, finished }, st.into_alloc())
}

fn differ(a: &Ran, b: &Ran) -> Option<String> {
    if a == b { return None; }
    for (i, (x, y)) in a.events.iter().zip(&b.events).enumerate() {
        if x != y { return Some(format!("event {}: {} instead of {}", i, short(y), short(x))); }
    }
    Some(format!("finished {} instead of {}, bytes {} instead of {}, {} taken instead of {}", b.finished, a.finished, hex(&b.bytes), hex(&a.bytes), b.used, a.used))
}

/// A job; long messages are mostly avoided, since each job is run several times.
fn gen_job(src: &mut Src) -> Job {
    let mut j = gen_one(src);
    for _ in 0..3 {
        let big = match &j.act {
            Act::DecValue(d) | Act::DecOps(d, _) | Act::DecIgnored(d) | Act::DecTyped(d) | Act::DecSerde(d, _) => d.len(),
            Act::EncOps(o) => o.iter().map(|o| match o { Op::PutStr(s) => s.len(), Op::PutBytes(b) => b.len(), _ => 3 }).sum(),
            Act::EncValue(v) => value_size(v),
            Act::EncTyped(_) => 0,
            Act::EncSerde(..) => 40,
        };
        // messages of errors take time quadratic in the depth
        let slow = schema_depth(&j.schema) > 70 && matches!(&j.act, Act::EncOps(_) | Act::DecOps(..));
        if !slow && (big < 400 || src.chance(1, 20)) { break; }
        j = gen_one(src);
    }
    j
}

fn value_size(v: &Value) -> usize {
    match v {
        Value::Str(s) => s.len(),
        Value::Bytes(b) => b.len(),
        Value::Option(Some(v)) => 3 + value_size(v),
        Value::FixedLenSeq(v) | Value::VarLenSeq(v) | Value::Tuple(v) => 3 + v.iter().map(value_size).sum::<usize>(),
        Value::Struct(v) => 3 + v.iter().map(|f| value_size(&f.value)).sum::<usize>(),
        Value::Enum(e) => 3 + value_size(&e.value),
        _ => 3,
    }
}

fn gen_one(src: &mut Src) -> Job {
    let cfg = SchemaCfg { illegal: src.chance(1, 8), recursive: src.chance(1, 3), extreme: src.chance(1, 10), max_nodes: if src.chance(1, 10) { 0 } else { 14 }, ..Default::default() };
    if src.chance(1, 8) {
        let s = gen_schema(src, &SchemaCfg { max_nodes: 20, ..cfg });
        let meta = crate::checks::meta::meta();
        let act = if src.chance(1, 2) { Act::EncTyped(s) } else {
            let v = crate::checks::meta::schema_value(&s);
            let mut b = Arena::new(&meta).encode(&v).unwrap();
            if src.chance(1, 3) { mutate_bytes(src, &mut b); }
            Act::DecTyped(b)
        };
        let act = match act {
            Act::DecTyped(b) => {
                // recursion as deep as the data say is a matter of the stack
                let a = Arena::new(&meta);
                if RefDec::new(&b, Limits::default()).value(&a, a.root) == Err(RefErr::TooBig) { Act::DecTyped(vec![]) } else { Act::DecTyped(b) }
            }
            a => a,
        };
        let fault = gen_fault(src, 40);
        return Job { schema: meta, act, fault };
    }
    let schema = gen_schema(src, &cfg);
    let a = Arena::make(&schema, cfg.illegal);
    let v = gen_value(src, &a);
    let bytes = a.encode(&v).unwrap_or_else(|_| random_bytes(src));
    let n = bytes.len();
    let act = match src.idx(8) {
        7 if !a.has_illegal => {
            let names = Rc::new(Names::default());
            let mut d = Dg { names: &names, firm: true }.fitting(src, &a, a.root, &v);
            if src.chance(1, 4) { Dg { names: &names, firm: true }.mutate(src, &mut d); }
            Act::EncSerde(d, names)
        }
        0 | 7 => { let mut v = v; if src.chance(1, 3) { mutate_value(src, &mut v); } Act::EncValue(v) }
        1 => {
            let mut ops = Vec::new();
            if src.chance(1, 2) {
                ops_of(&v, &mut ops);
                let k = src.idx(ops.len() + 1);
                match src.idx(3) { 0 => ops.truncate(k), 1 => ops.insert(k, Op::FinSeq), _ => {} }
            } else {
                let mut g = Guide::draw(src, false);
                let mut p = Pda::new(&a);
                let max = 5 + src.idx(60);
                for _ in 0..max {
                    let op = g.next(src, &p);
                    p.enc(&op);
                    ops.push(op);
                    if p.finished() && src.chance(1, 2) { break; }
                }
            }
            Act::EncOps(ops)
        }
        k => {
            let mut d = bytes;
            if src.chance(1, 4) { mutate_bytes(src, &mut d); }
            if src.chance(1, 2) { d.extend([3u8, 0, 0xff, 1].iter().take(src.idx(5))); }
            // a value without end cannot be tried
            if RefDec::new(&d, Limits::default()).value(&a, a.root) == Err(RefErr::TooBig) { d.clear(); }
            if RefDec::new(&d, Limits::default()).value(&a, a.root) == Err(RefErr::TooBig) { return Job { schema: Schema::Unit, act: Act::EncValue(Value::Unit), fault: None }; }
            match k {
                2 | 3 => Act::DecValue(d),
                4 => Act::DecIgnored(d),
                5 => Act::DecSerde(d, src.below(1 << 32)),
                _ => {
                    let mut g = Guide::draw(src, true);
                    let mut p = Pda::new(&a);
                    let mut ops = Vec::new();
                    let max = 5 + src.idx(60);
                    let mut rd = RefDec::new(&d, Limits::default());
                    for _ in 0..max {
                        let op = g.next(src, &p);
                        p.dec(&op, &mut rd);
                        ops.push(op);
                        if p.finished() && src.chance(1, 2) { break; }
                    }
                    Act::DecOps(d, ops)
                }
            }
        }
    };
    Job { schema, act, fault: gen_fault(src, n + 2) }
}

fn gen_fault(src: &mut Src, n: usize) -> Option<(usize, IoKind)> {
    if src.chance(1, 4) { Some((src.idx(n + 1), KINDS[src.idx(KINDS.len())])) } else { None }
}

fn brief(j: &Job) -> String { clip(&format!("{:?}", j), 1200) }

fn job_hash(j: &Job) -> u64 {
    let h = match &j.act {
        Act::EncOps(o) => mix(1, o.len() as u64),
        Act::DecOps(d, o) => mix(hash_bytes(d), o.len() as u64),
        Act::DecValue(d) => mix(2, hash_bytes(d)),
        Act::DecIgnored(d) => mix(3, hash_bytes(d)),
        Act::DecTyped(d) => mix(4, hash_bytes(d)),
        Act::EncValue(v) => mix(5, count_nodes(v)),
        Act::EncTyped(v) => mix(6, hash_of(v)),
        Act::EncSerde(v, _) => mix(7, hash_str(&format!("{:?}", v))),
        Act::DecSerde(d, n) => mix(*n, hash_bytes(d)),
    };
    mix(mix(h, hash_of(&j.schema)), j.fault.map_or(0, |x| x.0 as u64 + 1))
}

// ---------------------------------------------------------------- C16

fn c16(c: &mut Case) -> Res {
    match c.idx % 4 {
        0 => if c.idx % 8 == 0 { counts(c) } else { steady(c) },
        1 => buffers(c),
        _ => reuse(c),
    }
}

fn reuse(c: &mut Case) -> Res {
    let n = match c.src.maybe_dict(1, 400, 300) { Some(x) => (x as usize).max(2), None => 2 + c.src.idx(5) };
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(c.src)).collect();
    // where each job's allocation comes from: 0 fresh, k the one of an earlier job, and how
    let plan: Vec<(usize, usize)> = (0..n).map(|i| (c.src.idx(i + 2), c.src.idx(4))).collect();
    let live0 = alloc::live();
    let mut shared = 0;
    {
        let fresh: Vec<Ran> = jobs.iter().map(|j| run_job(j, CoderStateAlloc::new(), None, &[], &mut 0).0).collect();
        let mut pool: Vec<Option<CoderStateAlloc>> = Vec::new();
        for (i, j) in jobs.iter().enumerate() {
            let (from, how) = plan[i];
            let al = if from == 0 || from > pool.len() { if how == 0 { CoderStateAlloc::default() } else { CoderStateAlloc::new() } } else {
                let k = pool.len() - from;
                match (how, pool[k].take()) {
                    (_, None) => CoderStateAlloc::new(),
                    (0, Some(a)) => { let b = a.clone(); pool[k] = Some(a); shared += 1; b }
                    (_, Some(a)) => { shared += 1; a }
                }
            };
            if how == 3 && i % 2 == 1 {
                // abandoned without recovering anything, in the midst of the job
                let mut st = CoderState::new(&j.schema, al, None);
                if let Act::EncOps(ops) = &j.act {
                    let mut sink = io::sink();
                    let mut e = Encoder::new(&mut st, &mut sink);
                    for op in ops.iter().take(ops.len() / 2) { let _ = do_enc(&mut e, op); }
                }
                drop(st);
                pool.push(None);
                continue;
            }
            let (r, al) = run_job(j, al, None, &[], &mut 0);
            if let Some(d) = differ(&fresh[i], &r) {
                return Err(Fail::new(format!("job {} of {} goes otherwise on a reused allocation: {}; {}", i + 1, n, d, brief(j))));
            }
            pool.push(Some(al));
        }
    }
    let live1 = alloc::live();
    must!(live1 == live0, "{} bytes are not freed after {} jobs and dropping everything: {}", live1 - live0, n, brief(&jobs[0]));
    if shared > 0 { c.nontrivial(jobs.iter().fold(7, |h, j| mix(h, job_hash(j)))); }
    c.label_n("jobs", n as u64);
    c.label_n("on_reused_allocation", shared);
    c.sample(|| format!("{} jobs, plan {:?}, first {}", n, plan, brief(&jobs[0])));
    Ok(())
}

/// Heap allocations made while running encoder calls.
fn counted(s: &Schema, ops: &[Op], fault: usize, al: CoderStateAlloc) -> (u64, CoderStateAlloc) {
    let data = [0u8; 0];
    let mut io = Stream::new(&data, Some((fault, IoKind::Other)), &[]);
    io.out.reserve(1 << 12);
    let n0 = alloc::count();
    let mut st = CoderState::new(s, al, None);
    {
        let mut e = Encoder::new(&mut st, &mut io);
        for op in ops {
            if do_enc(&mut e, op).is_err() { break; }
        }
    }
    let al = st.into_alloc();
    (alloc::count() - n0, al)
}

fn counts(c: &mut Case) -> Res {
    let depth = 1 + c.src.idx(200);
    let cfg = SchemaCfg { recursive: c.src.chance(1, 3), extreme: c.src.chance(1, 8), ..Default::default() };
    let mut s = gen_schema(c.src, &cfg);
    let mut v = { let a = Arena::new(&s); gen_value(c.src, &a) };
    if c.src.chance(1, 2) {
        // legal recursion keeps pointing where it did
        for _ in 0..depth { s = Schema::Option(Box::new(s)); v = Value::Option(Some(Box::new(v))); }
    }
    let mut ops = Vec::new();
    ops_of(&v, &mut ops);
    let cut = c.src.chance(1, 2);
    if cut { let k = 1 + c.src.idx(ops.len()); ops.truncate(k); }
    let size = Arena::new(&s).encode(&v).map(|b| b.len()).unwrap_or(0);
    if size > 3000 { c.discard(); return Ok(()); }
    let fault = if c.src.chance(1, 4) { c.src.idx(size + 1) } else { usize::MAX };
    let mut deep = Schema::Unit;
    for _ in 0..1000 { deep = Schema::Option(Box::new(deep)); }
    let deep_ops: Vec<Op> = (0..1000).map(|_| Op::PutSome).collect();
    let (_, big) = counted(&deep, &deep_ops, usize::MAX, CoderStateAlloc::new());
    let (cold, used) = counted(&s, &ops, fault, CoderStateAlloc::new());
    let (warm, used) = counted(&s, &ops, fault, used);
    let (warm2, _) = counted(&s, &ops, fault, used);
    let (ample, _) = counted(&s, &ops, fault, big);
    must!(warm < cold, "a job costs {} allocations on a fresh allocation and {} on a recovered one: {:?} {}", cold, warm, s, short(&ops));
    must!(warm <= ample && warm2 <= ample, "a job costs {} and {} allocations on the recovered one of the same depth, {} on an ample one: {:?} {}", warm, warm2, ample, s, short(&ops));
    c.label("allocations_counted");
    if cut { c.label("counted_abandoned"); }
    c.nontrivial(mix(hash_of(&s), ops.len() as u64));
    Ok(())
}

/// A message made of `times` repetitions of a pattern of layers, coded three times in a row: after the
/// first time, the coder needs the heap for no more than the calls themselves do.
fn steady(c: &mut Case) -> Res {
    let kinds: Vec<usize> = (0..1 + c.src.idx(4)).map(|_| c.src.idx(6)).collect();
    let times = match c.src.idx(4) { 0 => match c.src.maybe_dict(1, 4, 500) { Some(n) => n.max(1) as usize, None => 1 + c.src.idx(8) }, 1 => 1 + c.src.idx(60), 2 => 60 + c.src.idx(100), _ => 1 + c.src.idx(300) } as usize;
    let dec = c.src.chance(1, 2);
    let recurse = c.src.chance(1, 4);
    // what it costs to go `times` patterns deep with a recovered allocation
    let cost = |times: usize| -> (Vec<u64>, usize) {
        let layers: Vec<usize> = (0..times).flat_map(|_| kinds.iter().copied()).collect();
        let wrap = |k: usize, s: Schema| match k {
            0 => Schema::Option(Box::new(s)),
            1 => Schema::Tuple(vec![s]),
            2 => Schema::Struct(vec![("f".to_string(), s).into()]),
            3 => Schema::Seq(SeqSchema { len: None, inner: Box::new(s) }),
            4 => Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(s) }),
            _ => Schema::Enum(vec![("V".to_string(), s).into()]),
        };
        let mut s = Schema::Unit;
        if recurse {
            // one pattern that refers to itself; it is left by not going on
            s = Schema::Recurse(kinds.len());
            for k in kinds.iter().rev() { s = wrap(*k, s); }
        } else {
            for k in layers.iter().rev() { s = wrap(*k, s); }
        }
        let mut ops = Vec::new();
        let mut data = Vec::new();
        for k in &layers {
            match k {
                0 => { ops.push(if dec { Op::GetOption } else { Op::PutSome }); data.push(1) }
                1 => { ops.push(Op::Tuple); ops.push(Op::TupleElem) }
                2 => { ops.push(Op::Struct); ops.push(Op::Field("f".into())) }
                3 => { ops.push(if dec { Op::GetVarSeq } else { Op::PutVarSeq(1) }); data.push(1); ops.push(Op::SeqElem) }
                4 => { ops.push(Op::FixedSeq(1)); ops.push(Op::SeqElem) }
                _ => if dec { ops.push(Op::GetEnum); ops.push(Op::Variant("V".into())) } else { ops.push(Op::PutEnum(0, "V".into())) },
            }
        }
        if !recurse {
            ops.push(Op::Unit);
            for k in layers.iter().rev() { match k { 1 => ops.push(Op::FinTuple), 2 => ops.push(Op::FinStruct), 3 | 4 => ops.push(Op::FinSeq), _ => {} } }
        }
        let mut al = CoderStateAlloc::new();
        let mut res = Vec::new();
        let mut wrong = 0;
        for _ in 0..3 {
            let mut io = Stream::new(&data, None, &[]);
            io.out.reserve(1 << 12);
            let n0 = alloc::count();
            let mut st = CoderState::new(&s, al, None);
            if dec {
                let mut d = Decoder::new(&mut st, &mut io);
                for op in &ops { if do_dec(&mut d, op).is_err() { wrong += 1; break; } }
            } else {
                let mut e = Encoder::new(&mut st, &mut io);
                for op in &ops { if do_enc(&mut e, op).is_err() { wrong += 1; break; } }
            }
            if st.is_finished() == recurse { wrong += 1; }
            al = st.into_alloc();
            res.push(alloc::count() - n0);
        }
        (res, wrong)
    };
    let (one, w1) = cost(1);
    let (many, w2) = cost(times);
    must!(w1 + w2 == 0, "{} times {:?} cannot be {}", times, kinds, if dec { "decoded" } else { "encoded" });
    let per = one[1].min(one[2]);
    for k in 1..3 {
        must!(many[k] <= per * times as u64, "{} {} layers (kinds {:?}) takes {} heap allocations the first time and {} on the recovered allocation, where {} layers take {}",
            if dec { "decoding" } else { "encoding" }, times * kinds.len(), kinds, many[0], many[k], kinds.len(), per);
    }
    must!(many[0] > many[1], "{} {} layers takes {} heap allocations on a new allocation and {} on the recovered one", if dec { "decoding" } else { "encoding" }, times * kinds.len(), many[0], many[1]);
    c.label("steady_state");
    c.nontrivial(mix(kinds.iter().fold(times as u64, |h, k| mix(h, *k as u64)), dec as u64 * 2 + recurse as u64));
    Ok(())
}

fn buffers(c: &mut Case) -> Res {
    let is_str = c.src.chance(1, 2);
    let n = 1 + c.src.idx(4);
    let mut sbuf = String::new();
    let mut bbuf = Vec::new();
    if c.src.chance(1, 2) { sbuf = gen_string(c.src); bbuf = gen_bytes(c.src); }
    let mut hash = 0;
    for round in 0..n {
        let schema = match c.src.idx(8) { 0 => Schema::Unit, 1 => if is_str { Schema::Bytes } else { Schema::Str }, _ => if is_str { Schema::Str } else { Schema::Bytes } };
        let mut d = Vec::new();
        let body = if c.src.chance(1, 2) { gen_string(c.src).into_bytes() } else { gen_bytes(c.src) };
        d.extend(uint_bytes(body.len() as u128));
        d.extend(&body);
        match c.src.idx(6) {
            0 => { let k = c.src.idx(d.len() + 1); d.truncate(k) }
            1 => if d.len() <= 60 { mutate_bytes(c.src, &mut d) },
            _ => {}
        }
        hash = mix(hash, hash_bytes(&d));
        let fault = gen_fault(c.src, d.len());
        if c.src.chance(1, 4) { sbuf.push_str("left over"); bbuf.extend(b"left over"); }
        if c.src.chance(1, 8) { sbuf.shrink_to_fit(); bbuf.shrink_to_fit(); }
        let script: &[usize] = if c.src.chance(1, 3) { &[1, 0, 3] } else { &[] };
        fn go<T>(s: &Schema, d: &[u8], fault: Option<(usize, IoKind)>, script: &[usize], f: impl FnOnce(&mut Decoder<Stream>) -> Result<T, Error>) -> ((Option<ErrorKind>, String), bool, usize) {
            let mut io = Stream::new(d, fault, script);
            let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
            let r = f(&mut Decoder::new(&mut st, &mut io));
            (ev(r, |_| String::new()), st.is_finished(), io.pos)
        }
        let prev = if is_str { sbuf.clone() } else { hex(&bbuf) };
        if is_str {
            let mut fresh = String::new();
            let a = go(&schema, &d, fault, script, |x| x.decode_str_into(&mut fresh));
            let b = go(&schema, &d, fault, script, |x| x.decode_str_into(&mut sbuf));
            let mut own = String::new();
            let o = go(&schema, &d, fault, script, |x| { own = x.decode_str()?; Ok(()) });
            must!(a == b && fresh == sbuf, "round {}: decoding {} into a buffer that held {:?} gives {:?} {:?}, into a new one {:?} {:?}", round, hex(&d), clip(&prev, 100), b, clip(&sbuf, 200), a, clip(&fresh, 200));
            must!(a == o && own == fresh, "round {}: decode_str and decode_str_into differ on {}: {:?} {:?} and {:?} {:?}", round, hex(&d), o, clip(&own, 200), a, clip(&fresh, 200));
            must!(std::str::from_utf8(sbuf.as_bytes()).is_ok(), "round {}: the string buffer holds bytes that are not UTF-8", round);
        } else {
            let mut fresh = Vec::new();
            let a = go(&schema, &d, fault, script, |x| x.decode_bytes_into(&mut fresh));
            let b = go(&schema, &d, fault, script, |x| x.decode_bytes_into(&mut bbuf));
            let mut own = Vec::new();
            let o = go(&schema, &d, fault, script, |x| { own = x.decode_bytes()?; Ok(()) });
            must!(a == b && fresh == bbuf, "round {}: decoding {} into a buffer that held {} gives {:?} {}, into a new one {:?} {}", round, hex(&d), clip(&prev, 100), b, hex(&bbuf), a, hex(&fresh));
            must!(a == o && (own == fresh || a.0.0.is_some()), "round {}: decode_bytes and decode_bytes_into differ on {}", round, hex(&d));
        }
        if fault.is_none() && (is_str && schema == Schema::Str || !is_str && schema == Schema::Bytes) {
            let a = Arena::new(&schema);
            let want = RefDec::new(&d, Limits::default()).value(&a, a.root).ok();
            let got = if is_str { Value::Str(sbuf.clone()) } else { Value::Bytes(bbuf.clone()) };
            if let Some(w) = want { must!(veq(&w, &got), "round {}: decoding {} into a used buffer leaves {}", round, hex(&d), short(&got)); }
        }
    }
    c.label_n("buffer_rounds", n as u64);
    c.nontrivial(hash);
    Ok(())
}

// ---------------------------------------------------------------- C17

struct LogW { mode: usize, n: u64, got: u64, calls: u64 }

impl Write for LogW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        let fail = || Err(io::Error::new(KINDS[self.n as usize % KINDS.len()], "log"));
        let k = match self.mode {
            0 => b.len(),
            1 => 1,
            2 => return fail(),
            3 => if self.calls % (2 + self.n % 7) == 0 { return fail() } else { b.len() },
            4 => return Ok(0),
            5 => if self.calls % 2 == 0 { return Err(io::Error::new(IoKind::Interrupted, "log")) } else { b.len() },
            // full after some bytes
            _ => if self.got >= self.n { return fail() } else { b.len().min((self.n - self.got) as usize) },
        };
        self.got += k as u64;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { if self.mode == 2 { Err(io::Error::new(IoKind::Other, "flush")) } else { Ok(()) } }
}

const LOG_MODES: [&str; 7] = ["accepting", "byte by byte", "failing", "failing at times", "accepting nothing", "interrupted", "full"];

fn c17(c: &mut Case) -> Res {
    let j = gen_job(c.src);
    let (plain, _) = run_job(&j, CoderStateAlloc::new(), None, &[], &mut 0);
    for _ in 0..3 {
        let mode = c.src.idx(7);
        let n = match c.src.maybe_dict(1, 6, 10_000) { Some(x) => x as u64, None => c.src.below(400) };
        let mut w = LogW { mode, n, got: 0, calls: 0 };
        let (logged, _) = run_job(&j, CoderStateAlloc::new(), Some(&mut w), &[], &mut 0);
        if let Some(d) = differ(&plain, &logged) {
            return Err(Fail::new(format!("with a log that is {} the same job goes otherwise: {}; {}", LOG_MODES[mode], d, brief(&j))));
        }
        c.label(LOG_MODES[mode]);
        if w.got > 0 { c.label("something_logged"); }
    }
    if composite(&j.schema) { c.nontrivial(job_hash(&j)); }
    c.label(if plain.finished { "finished" } else { "not_finished" });
    c.sample(|| brief(&j));
    Ok(())
}

// ---------------------------------------------------------------- C18

fn c18(c: &mut Case) -> Res {
    let j = gen_job(c.src);
    let (plain, _) = run_job(&j, CoderStateAlloc::new(), None, &[], &mut 0);
    // nothing beyond the message
    if let (Act::DecValue(d) | Act::DecIgnored(d), true) = (&j.act, plain.finished) {
        let a = Arena::new(&j.schema);
        let mut rd = RefDec::new(d, Limits::default());
        if rd.value(&a, a.root).is_ok() {
            must!(plain.used == rd.pos, "took {} bytes where the message has {}: {}", plain.used, rd.pos, brief(&j));
            if d.len() > rd.pos { c.label("more_was_there"); }
        }
    }
    let mut odd = 0;
    let mut h = job_hash(&j);
    for _ in 0..2 {
        let script: Vec<usize> = match c.src.idx(5) {
            0 => vec![1],
            1 => vec![0, 1],
            2 => vec![0, 0, 2, 0],
            _ => {
                let n = 1 + c.src.idx(8);
                let mut v: Vec<usize> = (0..n).map(|_| match c.src.idx(4) { 0 => 0, 1 => 1, 2 => match c.src.maybe_dict(1, 4, 20_000) { Some(x) => x as usize, None => 1 + c.src.idx(9) }, _ => *c.src.pick(&[31, 32, 33, 127, 128, 4096, 8192, usize::MAX]) }).collect();
                if v.iter().all(|x| *x == 0) { v.push(3); }
                v
            }
        };
        for x in &script { h = mix(h, *x as u64); }
        let (ragged, _) = run_job(&j, CoderStateAlloc::new(), None, &script, &mut odd);
        if let Some(d) = differ(&plain, &ragged) {
            return Err(Fail::new(format!("with transfers {:?} (0 is an interruption) the same job goes otherwise: {}; {}", script, d, brief(&j))));
        }
    }
    c.label_n("interruptions_and_splits", odd);
    c.label(if plain.finished { "finished" } else { "not_finished" });
    if odd >= 2 { c.nontrivial(h); }
    c.sample(|| brief(&j));
    Ok(())
}
