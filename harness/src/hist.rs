//! Call histories of the encoder and the decoder, and the automaton that says what each call
//! must do. The automaton works on the resolved schema tree of the reference model.

use crate::engine::{Res, Src};
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use binschema::error::{Error, ErrorKind};
use binschema::value::ScalarValue;
use binschema::{CoderState, Decoder, Encoder, ScalarType};
use std::io::{Read, Write};

#[derive(Debug, Clone, PartialEq)]
pub enum Fr {
    Need(Ref),
    Auto,
    Seq { node: usize, len: usize, next: usize },
    Tuple { node: usize, next: usize },
    Struct { node: usize, next: usize },
    EnumName { node: usize, ord: usize },
}

/// What a call must do.
#[derive(Debug, Clone, PartialEq)]
pub enum Exp<T> {
    Ok(T),
    /// rejected with one of these kinds, nothing changed
    Reject(&'static [ErrorKind]),
    /// fails with one of these kinds, the coder is unusable afterwards
    Fatal(&'static [ErrorKind]),
}

pub const REJ: &[ErrorKind] = &[ErrorKind::SchemaNonConformance, ErrorKind::ApiUsage];
pub const REJ_BROKEN: &[ErrorKind] = &[ErrorKind::ApiUsage];
pub const ILLEGAL: &[ErrorKind] = &[ErrorKind::IllegalSchema];

pub fn fatal_kinds(e: RefErr, huge: bool) -> &'static [ErrorKind] {
    match e {
        RefErr::Eof => if huge { &[ErrorKind::Io, ErrorKind::PlatformLimits] } else { &[ErrorKind::Io] },
        RefErr::Malformed => &[ErrorKind::MalformedData],
        RefErr::Limit => &[ErrorKind::PlatformLimits, ErrorKind::MalformedData],
        RefErr::Illegal => ILLEGAL,
        RefErr::Mismatch | RefErr::TooBig => &[],
    }
}

/// Calls that do the same to either kind of coder.
#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    // encoder
    Put(ScalarValue),
    PutStr(String),
    PutBytes(Vec<u8>),
    PutNone,
    PutSome,
    PutVarSeq(usize),
    PutEnum(usize, String),
    // decoder
    Get(ScalarType),
    GetStr,
    GetStrInto(String),
    GetBytes,
    GetBytesInto(Vec<u8>),
    GetOption,
    GetVarSeq,
    GetEnum,
    Variant(String),
    // either
    Unit,
    FixedSeq(usize),
    SeqElem,
    FinSeq,
    Tuple,
    TupleElem,
    FinTuple,
    Struct,
    Field(String),
    FinStruct,
}

#[derive(Debug, Clone)]
pub enum Out {
    Nothing,
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Some(bool),
    Len(usize),
    Ord(usize),
}

pub fn out_eq(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Nothing, Out::Nothing) => true,
        (Out::Scalar(x), Out::Scalar(y)) => seq(x, y),
        (Out::Str(x), Out::Str(y)) => x == y,
        (Out::Bytes(x), Out::Bytes(y)) => x == y,
        (Out::Some(x), Out::Some(y)) => x == y,
        (Out::Len(x), Out::Len(y)) | (Out::Ord(x), Out::Ord(y)) => x == y,
        _ => false,
    }
}

#[derive(Clone)]
pub struct Pda<'a, 's> {
    pub a: &'a Arena<'s>,
    pub st: Vec<Fr>,
    pub broken: bool,
    /// hold rejections to the one kind that suits them
    pub strict: bool,
}

impl<'a, 's> Pda<'a, 's> {
    pub fn new(a: &'a Arena<'s>) -> Self {
        Pda { a, st: vec![Fr::Need(a.root)], broken: false, strict: false }
    }
    pub fn finished(&self) -> bool { self.st.is_empty() && !self.broken }
    pub fn kind(&self, i: usize) -> &'a Kind { &self.a.nodes[i].kind }

    fn pop(&mut self) {
        self.st.pop();
        while self.st.last() == Some(&Fr::Auto) { self.st.pop(); }
    }
    fn set(&mut self, f: Fr) { *self.st.last_mut().unwrap() = f; }
    /// Goes down to a child; false if that is an illegal recurse.
    fn push(&mut self, r: Ref) -> bool {
        if r == Ref::Illegal { self.broken = true; return false; }
        self.st.push(Fr::Need(r));
        true
    }
    fn pushed<T>(&mut self, r: Ref, t: T) -> Exp<T> {
        if self.push(r) { Exp::Ok(t) } else { Exp::Fatal(ILLEGAL) }
    }
    fn die<T>(&mut self, e: RefErr, huge: bool) -> Exp<T> {
        self.broken = true;
        Exp::Fatal(fatal_kinds(e, huge))
    }

    fn top_need(&self) -> Option<&'a Kind> {
        match self.st.last() {
            Some(Fr::Need(Ref::Node(i))) => Some(self.kind(*i)),
            _ => None,
        }
    }
    fn top_node(&self) -> usize {
        match self.st.last() { Some(Fr::Need(Ref::Node(i))) => *i, _ => unreachable!() }
    }

    /// The kinds with which a call may be refused here. It is a matter of the schema if another schema
    /// would have taken the call after the same calls so far, and of the calls if none would.
    fn rej(&self, op: &Op) -> &'static [ErrorKind] {
        if !self.strict { return REJ; }
        let by_schema = match (self.st.last(), op) {
            // what is no beginning of a value is wrong here under any schema, and said either way
            (Some(Fr::Need(_)), Op::SeqElem | Op::FinSeq | Op::TupleElem | Op::FinTuple | Op::Field(_) | Op::FinStruct | Op::Variant(_)) => return REJ,
            (Some(Fr::Need(_)), _) => true,
            (Some(Fr::Tuple { .. }), Op::TupleElem | Op::FinTuple) => true,
            (Some(Fr::Struct { .. }), Op::Field(_) | Op::FinStruct) => true,
            (Some(Fr::EnumName { .. }), Op::Variant(_)) => true,
            _ => false,
        };
        if by_schema { &[ErrorKind::SchemaNonConformance] } else { REJ_BROKEN }
    }

    fn common<T: Clone>(&mut self, op: &Op, nothing: T) -> Exp<T> {
        let rej = Exp::Reject(self.rej(op));
        match (op, self.st.last().cloned()) {
            (Op::Unit, _) if matches!(self.top_need(), Some(Kind::Unit)) => { self.pop(); Exp::Ok(nothing) }
            (Op::FixedSeq(n), _) => match self.top_need() {
                Some(Kind::Seq(Some(k), _)) if k == n => {
                    let node = self.top_node();
                    self.set(Fr::Seq { node, len: *n, next: 0 });
                    Exp::Ok(nothing)
                }
                _ => rej,
            },
            (Op::SeqElem, Some(Fr::Seq { node, len, next })) => {
                if next >= len { return rej; }
                self.set(Fr::Seq { node, len, next: next + 1 });
                let Kind::Seq(_, c) = self.kind(node) else { unreachable!() };
                self.pushed(*c, nothing)
            }
            (Op::FinSeq, Some(Fr::Seq { len, next, .. })) => {
                if next != len { return rej; }
                self.pop();
                Exp::Ok(nothing)
            }
            (Op::Tuple, _) if matches!(self.top_need(), Some(Kind::Tuple(_))) => {
                let node = self.top_node();
                self.set(Fr::Tuple { node, next: 0 });
                Exp::Ok(nothing)
            }
            (Op::TupleElem, Some(Fr::Tuple { node, next })) => {
                let Kind::Tuple(cs) = self.kind(node) else { unreachable!() };
                if next >= cs.len() { return rej; }
                self.set(Fr::Tuple { node, next: next + 1 });
                self.pushed(cs[next], nothing)
            }
            (Op::FinTuple, Some(Fr::Tuple { node, next })) => {
                let Kind::Tuple(cs) = self.kind(node) else { unreachable!() };
                if next != cs.len() { return rej; }
                self.pop();
                Exp::Ok(nothing)
            }
            (Op::Struct, _) if matches!(self.top_need(), Some(Kind::Struct(_))) => {
                let node = self.top_node();
                self.set(Fr::Struct { node, next: 0 });
                Exp::Ok(nothing)
            }
            (Op::Field(name), Some(Fr::Struct { node, next })) => {
                let Kind::Struct(cs) = self.kind(node) else { unreachable!() };
                if next >= cs.len() || cs[next].0 != *name { return rej; }
                self.set(Fr::Struct { node, next: next + 1 });
                self.pushed(cs[next].1, nothing)
            }
            (Op::FinStruct, Some(Fr::Struct { node, next })) => {
                let Kind::Struct(cs) = self.kind(node) else { unreachable!() };
                if next != cs.len() { return rej; }
                self.pop();
                Exp::Ok(nothing)
            }
            _ => rej,
        }
    }

    fn gate<T>(&mut self) -> Option<Exp<T>> {
        if self.broken { return Some(Exp::Reject(REJ_BROKEN)); }
        if self.st.is_empty() { return Some(Exp::Reject(if self.strict { REJ_BROKEN } else { REJ })); }
        if self.st.last() == Some(&Fr::Need(Ref::Illegal)) {
            self.broken = true;
            return Some(Exp::Fatal(ILLEGAL));
        }
        None
    }

    /// The bytes an encoder call must write.
    pub fn enc(&mut self, op: &Op) -> Exp<Vec<u8>> {
        if let Some(x) = self.gate() { return x; }
        let rej = Exp::Reject(self.rej(op));
        match op {
            Op::Put(v) => match self.top_need() {
                Some(Kind::Scalar(st)) if *st == scalar_type(v) => { self.pop(); Exp::Ok(scalar_bytes(v)) }
                _ => rej,
            },
            Op::PutStr(s) => match self.top_need() {
                Some(Kind::Str) => { self.pop(); let mut b = uint_bytes(s.len() as u128); b.extend(s.as_bytes()); Exp::Ok(b) }
                _ => rej,
            },
            Op::PutBytes(s) => match self.top_need() {
                Some(Kind::Bytes) => { self.pop(); let mut b = uint_bytes(s.len() as u128); b.extend(s); Exp::Ok(b) }
                _ => rej,
            },
            Op::PutNone => match self.top_need() {
                Some(Kind::Option(_)) => { self.pop(); Exp::Ok(vec![0]) }
                _ => rej,
            },
            Op::PutSome => match self.top_need() {
                Some(Kind::Option(c)) => { self.set(Fr::Auto); self.pushed(*c, vec![1]) }
                _ => rej,
            },
            Op::PutVarSeq(n) => match self.top_need() {
                Some(Kind::Seq(None, _)) => {
                    let node = self.top_node();
                    self.set(Fr::Seq { node, len: *n, next: 0 });
                    Exp::Ok(uint_bytes(*n as u128))
                }
                _ => rej,
            },
            Op::PutEnum(ord, name) => match self.top_need() {
                Some(Kind::Enum(cs)) => {
                    if *ord >= cs.len() || cs[*ord].0 != *name { return rej; }
                    self.set(Fr::Auto);
                    self.pushed(cs[*ord].1, ord_bytes(*ord, cs.len()))
                }
                _ => rej,
            },
            _ => self.common(op, vec![]),
        }
    }

    /// What a decoder call must return; advances `d` over the bytes it must take.
    pub fn dec(&mut self, op: &Op, d: &mut RefDec) -> Exp<Out> {
        if let Some(x) = self.gate() { return x; }
        let rej = Exp::Reject(self.rej(op));
        macro_rules! leaf {
            ($e:expr, $out:expr) => {
                match $e {
                    Ok(v) => { self.pop(); Exp::Ok($out(v)) }
                    Err(e) => { let h = d.huge; self.die(e, h) }
                }
            };
        }
        match op {
            Op::Get(t) => match self.top_need() {
                Some(Kind::Scalar(st)) if st == t => leaf!(d.scalar(*t), Out::Scalar),
                _ => rej,
            },
            Op::GetStr | Op::GetStrInto(_) => match self.top_need() {
                Some(Kind::Str) => leaf!(d.str(), Out::Str),
                _ => rej,
            },
            Op::GetBytes | Op::GetBytesInto(_) => match self.top_need() {
                Some(Kind::Bytes) => leaf!(d.bytestr(), Out::Bytes),
                _ => rej,
            },
            Op::GetOption => match self.top_need() {
                Some(Kind::Option(c)) => match d.someness() {
                    Ok(false) => { self.pop(); Exp::Ok(Out::Some(false)) }
                    Ok(true) => { self.set(Fr::Auto); self.pushed(*c, Out::Some(true)) }
                    Err(e) => self.die(e, false),
                },
                _ => rej,
            },
            Op::GetVarSeq => match self.top_need() {
                Some(Kind::Seq(None, _)) => {
                    let node = self.top_node();
                    match d.len() {
                        Ok(len) => { self.set(Fr::Seq { node, len, next: 0 }); Exp::Ok(Out::Len(len)) }
                        Err(e) => self.die(e, false),
                    }
                }
                _ => rej,
            },
            Op::GetEnum => match self.top_need() {
                Some(Kind::Enum(cs)) => {
                    let node = self.top_node();
                    match d.ord(cs.len()) {
                        Ok(ord) => { self.set(Fr::EnumName { node, ord }); Exp::Ok(Out::Ord(ord)) }
                        Err(e) => self.die(e, false),
                    }
                }
                _ => rej,
            },
            Op::Variant(name) => match self.st.last() {
                Some(Fr::EnumName { node, ord }) => {
                    let Kind::Enum(cs) = self.kind(*node) else { unreachable!() };
                    if cs[*ord].0 != *name { return rej; }
                    let r = cs[*ord].1;
                    self.set(Fr::Auto);
                    self.pushed(r, Out::Nothing)
                }
                _ => rej,
            },
            _ => self.common(op, Out::Nothing),
        }
    }
}

// ---------------------------------------------------------------- doing it for real

pub fn do_enc<W: Write>(e: &mut Encoder<W>, op: &Op) -> Result<(), Error> {
    match op {
        Op::Put(v) => v.encode_to(e),
        Op::PutStr(s) => e.encode_str(s),
        Op::PutBytes(b) => e.encode_bytes(b),
        Op::PutNone => e.encode_none(),
        Op::PutSome => e.begin_some(),
        Op::PutVarSeq(n) => e.begin_var_len_seq(*n),
        Op::PutEnum(o, n) => e.begin_enum(*o, n),
        Op::Unit => e.encode_unit(),
        Op::FixedSeq(n) => e.begin_fixed_len_seq(*n),
        Op::SeqElem => e.begin_seq_elem(),
        Op::FinSeq => e.finish_seq(),
        Op::Tuple => e.begin_tuple(),
        Op::TupleElem => e.begin_tuple_elem(),
        Op::FinTuple => e.finish_tuple(),
        Op::Struct => e.begin_struct(),
        Op::Field(n) => e.begin_struct_field(n),
        Op::FinStruct => e.finish_struct(),
        _ => unreachable!("decoder call on an encoder"),
    }
}

pub fn do_dec<R: Read>(d: &mut Decoder<R>, op: &Op) -> Result<Out, Error> {
    Ok(match op {
        Op::Get(t) => Out::Scalar(ScalarValue::decode_from(d, *t)?),
        Op::GetStr => Out::Str(d.decode_str()?),
        Op::GetStrInto(b) => { let mut b = b.clone(); d.decode_str_into(&mut b)?; Out::Str(b) }
        Op::GetBytes => Out::Bytes(d.decode_bytes()?),
        Op::GetBytesInto(b) => { let mut b = b.clone(); d.decode_bytes_into(&mut b)?; Out::Bytes(b) }
        Op::GetOption => Out::Some(d.begin_option()?),
        Op::GetVarSeq => Out::Len(d.begin_var_len_seq()?),
        Op::GetEnum => Out::Ord(d.begin_enum()?),
        Op::Variant(n) => { d.begin_enum_variant(n)?; Out::Nothing }
        Op::Unit => { d.decode_unit()?; Out::Nothing }
        Op::FixedSeq(n) => { d.begin_fixed_len_seq(*n)?; Out::Nothing }
        Op::SeqElem => { d.begin_seq_elem()?; Out::Nothing }
        Op::FinSeq => { d.finish_seq()?; Out::Nothing }
        Op::Tuple => { d.begin_tuple()?; Out::Nothing }
        Op::TupleElem => { d.begin_tuple_elem()?; Out::Nothing }
        Op::FinTuple => { d.finish_tuple()?; Out::Nothing }
        Op::Struct => { d.begin_struct()?; Out::Nothing }
        Op::Field(n) => { d.begin_struct_field(n)?; Out::Nothing }
        Op::FinStruct => { d.finish_struct()?; Out::Nothing }
        _ => unreachable!("encoder call on a decoder"),
    })
}

/// Compares what must hold between calls: finished, and the schema due next.
pub fn check_between(p: &Pda, state: &CoderState, what: &str) -> Res {
    must!(state.is_finished() == p.finished(), "{}: is_finished() is {}, must be {}", what, state.is_finished(), p.finished());
    must!(state.is_finished_or_err().is_ok() == p.finished(), "{}: is_finished_or_err() disagrees with is_finished()", what);
    if let (true, Err(e)) = (p.strict, state.is_finished_or_err()) { must!(e.kind() == ErrorKind::ApiUsage, "{}: is_finished_or_err() fails with {:?}", what, e.kind()); }
    Ok(())
}

pub fn check_need(p: &Pda, need: Result<&binschema::Schema, Error>, what: &str) -> Res {
    if p.broken { return Ok(()); }
    match (p.st.last(), need) {
        (Some(Fr::Need(Ref::Node(i))), Ok(s)) => {
            let want = p.a.nodes[*i].schema;
            must!(std::ptr::eq(s, want) || s == want, "{}: need() gives {}, must be {}", what, short(&s), short(&want));
            Ok(())
        }
        (Some(Fr::Need(Ref::Node(i))), Err(e)) => fail!("{}: need() fails with {:?}, must give {}", what, e.kind(), short(&p.a.nodes[*i].schema)),
        (_, Ok(s)) => fail!("{}: need() gives {} although no value is due", what, short(&s)),
        (_, Err(e)) => {
            must!(!p.strict || e.kind() == ErrorKind::ApiUsage || p.st.last() == Some(&Fr::Need(Ref::Illegal)), "{}: need() where no value is due fails with {:?}", what, e.kind());
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- generating calls

pub struct Guide {
    pub fuel: i64,
    pub eager: u64,
    /// prefer children that are illegal recurses
    pub seek_illegal: bool,
    /// of 100 calls this many are wrong on purpose
    pub wrong: u64,
    pub dec: bool,
    pub strict: bool,
}

impl Guide {
    pub fn draw(src: &mut Src, dec: bool) -> Guide {
        Guide {
            fuel: *src.pick(&[15, 50, 150, 400]),
            eager: *src.pick(&[4, 6, 8, 10]),
            seek_illegal: false,
            wrong: *src.pick(&[15, 5, 30, 60, 0]),
            dec,
            strict: false,
        }
    }

    fn takeable(&self, p: &Pda, r: Ref) -> bool {
        match r { Ref::Illegal => self.seek_illegal, Ref::Node(_) => p.a.inhabited(r) }
    }

    /// A call that is a legal next step (or leads into an illegal recurse); None if there is none.
    pub fn legal(&mut self, src: &mut Src, p: &Pda) -> Option<Op> {
        self.fuel -= 1;
        Some(match p.st.last()? {
            Fr::Auto => self.random(src, None),
            Fr::Need(Ref::Illegal) => self.random(src, None),
            Fr::Need(Ref::Node(i)) => match p.kind(*i) {
                Kind::Scalar(st) => if self.dec { Op::Get(*st) } else { Op::Put(gen_scalar(src, *st)) },
                Kind::Str => if !self.dec { Op::PutStr(gen_string(src)) } else if src.chance(1, 2) { Op::GetStrInto(if src.chance(1, 20) { gen_string(src) } else { text(src, 9) }) } else { Op::GetStr },
                Kind::Bytes => if !self.dec { Op::PutBytes(gen_bytes(src)) } else if src.chance(1, 2) { Op::GetBytesInto(vec![7; match src.maybe_dict(1, 20, 70_000) { Some(n) => n as usize, None => src.idx(20) }]) } else { Op::GetBytes },
                Kind::Unit => Op::Unit,
                Kind::Option(_) if self.dec => Op::GetOption,
                Kind::Option(c) => if self.takeable(p, *c) && self.fuel > 0 && src.chance(self.eager, 11) { Op::PutSome } else { Op::PutNone },
                Kind::Seq(Some(n), _) => Op::FixedSeq(*n),
                Kind::Seq(None, _) if self.dec => Op::GetVarSeq,
                Kind::Seq(None, c) => Op::PutVarSeq(if self.fuel <= 0 || !self.takeable(p, *c) { 0 } else {
                    match src.weighted(&[12, 24, 12, 4, 1]) {
                        4 => src.dict(usize::MAX as u128).unwrap_or(1) as usize,
                        0 => 0,
                        1 => src.range(1, 2) as usize,
                        2 => src.range(2, 6) as usize,
                        _ => *src.pick(&[127usize, 128, 16383, 16384, u32::MAX as usize, usize::MAX]),
                    }
                }),
                Kind::Tuple(_) => Op::Tuple,
                Kind::Struct(_) => Op::Struct,
                Kind::Enum(_) if self.dec => Op::GetEnum,
                Kind::Enum(cs) => {
                    if cs.is_empty() { return Some(self.random(src, None)); }
                    let o = if self.fuel > 0 {
                        let mut o = src.idx(cs.len());
                        let mut t = 0;
                        while !self.takeable(p, cs[o].1) && t < cs.len() { o = (o + 1) % cs.len(); t += 1; }
                        o
                    } else {
                        (0..cs.len()).min_by_key(|o| (p.a.min_height(cs[*o].1), cs[*o].1 == Ref::Illegal && !self.seek_illegal)).unwrap()
                    };
                    Op::PutEnum(o, cs[o].0.clone())
                }
            },
            Fr::Seq { len, next, .. } => if next < len { Op::SeqElem } else { Op::FinSeq },
            Fr::Tuple { node, next } => match p.kind(*node) { Kind::Tuple(cs) if *next < cs.len() => Op::TupleElem, _ => Op::FinTuple },
            Fr::Struct { node, next } => match p.kind(*node) { Kind::Struct(cs) if *next < cs.len() => Op::Field(cs[*next].0.clone()), _ => Op::FinStruct },
            Fr::EnumName { node, ord } => match p.kind(*node) { Kind::Enum(cs) => Op::Variant(cs[*ord].0.clone()), _ => unreachable!() },
        })
    }

    /// Any call at all; most take their arguments from what is on the stack.
    pub fn random(&mut self, src: &mut Src, p: Option<&Pda>) -> Op {
        let (mut names, mut nums): (Vec<String>, Vec<usize>) = (vec!["a".into()], vec![0, 1, 2]);
        if let Some(p) = p {
            for f in p.st.iter().rev().take(3) {
                let i = match f {
                    Fr::Need(Ref::Node(i)) => *i,
                    Fr::Seq { node, len, next } => { nums.extend([*len, *next]); *node }
                    Fr::Tuple { node, next } => { nums.push(*next); *node }
                    Fr::Struct { node, next } => { nums.push(*next); *node }
                    Fr::EnumName { node, ord } => { nums.push(*ord); *node }
                    _ => continue,
                };
                match p.kind(i) {
                    Kind::Struct(cs) | Kind::Enum(cs) => {
                        nums.push(cs.len());
                        for _ in 0..3 { if !cs.is_empty() { names.push(cs[src.idx(cs.len())].0.clone()); } }
                    }
                    Kind::Seq(Some(n), _) => nums.push(*n),
                    _ => {}
                }
            }
        }
        let nm = |src: &mut Src| names[src.idx(names.len())].clone();
        let num = |src: &mut Src| {
            let n = nums[src.idx(nums.len())];
            match src.idx(24) { 0..=5 => n.wrapping_add(1), 6..=11 => n.wrapping_sub(1), 12 => src.dict(usize::MAX as u128).unwrap_or(0) as usize, _ => n }
        };
        match src.idx(17) {
            0 => Op::Unit,
            1 => Op::FixedSeq(num(src)),
            2 => Op::SeqElem,
            3 => Op::FinSeq,
            4 => Op::Tuple,
            5 => Op::TupleElem,
            6 => Op::FinTuple,
            7 => Op::Struct,
            8 => Op::Field(nm(src)),
            9 => Op::FinStruct,
            10 => { let st = SCALARS[src.idx(14)]; if self.dec { Op::Get(st) } else { Op::Put(gen_scalar(src, st)) } }
            11 => if self.dec { if src.chance(1, 2) { Op::GetStrInto("old".into()) } else { Op::GetStr } } else { Op::PutStr(text(src, 3)) },
            12 => if self.dec { if src.chance(1, 2) { Op::GetBytesInto(vec![1, 2]) } else { Op::GetBytes } } else { Op::PutBytes(vec![1, 2, 3]) },
            13 => if self.dec { Op::GetOption } else { Op::PutNone },
            14 => if self.dec { Op::GetOption } else { Op::PutSome },
            15 => if self.dec { Op::GetVarSeq } else { Op::PutVarSeq(num(src)) },
            _ => if self.dec {
                if src.chance(1, 2) { Op::GetEnum } else { Op::Variant(nm(src)) }
            } else { Op::PutEnum(num(src), nm(src)) },
        }
    }

    /// A call close to the legal one, but wrong in one respect if possible.
    pub fn near(&mut self, src: &mut Src, p: &Pda) -> Op {
        let legal = match self.legal(src, p) { Some(x) => x, None => return self.random(src, Some(p)) };
        let near_num = |src: &mut Src, n: usize| match src.idx(9) { 0 | 4 => n.wrapping_add(1), 1 | 5 => n.wrapping_sub(1), 2 | 6 => n ^ 256, 8 => n.wrapping_add(src.dict(usize::MAX as u128).unwrap_or(2) as usize), _ => usize::MAX };
        let other_name = |src: &mut Src, p: &Pda| -> Option<String> {
            let i = match p.st.last()? { Fr::Need(Ref::Node(i)) => *i, Fr::Struct { node, .. } | Fr::EnumName { node, .. } => *node, _ => return None };
            match p.kind(i) { Kind::Struct(cs) | Kind::Enum(cs) if !cs.is_empty() => Some(cs[src.idx(cs.len())].0.clone()), _ => None }
        };
        match legal {
            Op::FixedSeq(n) => match src.idx(3) { 0 if !self.dec => Op::PutVarSeq(n), 0 => Op::GetVarSeq, 1 => Op::Tuple, _ => Op::FixedSeq(near_num(src, n)) },
            Op::PutVarSeq(n) => if src.chance(1, 2) { Op::FixedSeq(n) } else { Op::Tuple },
            Op::GetVarSeq => Op::FixedSeq(src.idx(3)),
            Op::SeqElem => match src.idx(3) { 0 => Op::FinSeq, 1 => Op::TupleElem, _ => Op::Unit },
            Op::FinSeq => match src.idx(3) { 0 => Op::SeqElem, 1 => Op::FinTuple, _ => Op::TupleElem },
            Op::TupleElem => match src.idx(3) { 0 => Op::FinTuple, 1 => Op::SeqElem, _ => Op::Field("a".into()) },
            Op::FinTuple => match src.idx(3) { 0 => Op::TupleElem, 1 => Op::FinStruct, _ => Op::FinSeq },
            Op::Tuple => match src.idx(3) { 0 => Op::Struct, 1 => Op::TupleElem, _ => Op::FixedSeq(2) },
            Op::Struct => match src.idx(3) { 0 => Op::Tuple, 1 => Op::FinStruct, _ => Op::Unit },
            Op::Field(n) => match src.idx(4) {
                0 => Op::FinStruct,
                1 => Op::Field(other_name(src, p).unwrap_or_default()),
                2 => Op::TupleElem,
                _ => Op::Field(near_name(src, &n)),
            },
            Op::FinStruct => match src.idx(3) { 0 => Op::Field(other_name(src, p).unwrap_or_default()), 1 => Op::FinTuple, _ => Op::FinSeq },
            Op::PutEnum(o, n) => match src.idx(4) {
                0 => Op::PutEnum(near_num(src, o), n),
                1 => Op::PutEnum(o, near_name(src, &n)),
                2 => Op::PutEnum(o, other_name(src, p).unwrap_or_default()),
                _ => Op::PutSome,
            },
            Op::GetEnum => if src.chance(1, 2) { Op::Variant(other_name(src, p).unwrap_or_default()) } else { Op::GetOption },
            Op::Variant(n) => match src.idx(4) {
                0 => Op::GetEnum,
                1 => Op::Variant(other_name(src, p).unwrap_or_default()),
                2 => Op::Unit,
                _ => Op::Variant(near_name(src, &n)),
            },
            Op::PutStr(s) => Op::PutBytes(s.into_bytes()),
            Op::PutBytes(b) => Op::PutStr(String::from_utf8_lossy(&b).into_owned()),
            Op::GetStr | Op::GetStrInto(_) => Op::GetBytesInto(vec![3; 3]),
            Op::GetBytes | Op::GetBytesInto(_) => Op::GetStrInto("zz".into()),
            Op::Put(v) => { let i = SCALARS.iter().position(|s| *s == scalar_type(&v)).unwrap(); let st = SCALARS[(i + if src.chance(1, 2) { 5 } else { 1 }) % 14]; Op::Put(gen_scalar(src, st)) }
            Op::Get(st) => { let i = SCALARS.iter().position(|s| *s == st).unwrap(); Op::Get(SCALARS[(i + if src.chance(1, 2) { 5 } else { 1 }) % 14]) }
            _ => self.random(src, Some(p)),
        }
    }

    pub fn next(&mut self, src: &mut Src, p: &Pda) -> Op {
        let x = src.below(100);
        if x >= 100 - self.wrong {
            if src.chance(1, 2) { self.near(src, p) } else { self.random(src, Some(p)) }
        } else {
            match self.legal(src, p) { Some(o) => o, None => self.random(src, Some(p)) }
        }
    }
}
