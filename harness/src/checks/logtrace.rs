//! C25: the debug log traces what was coded.

use crate::checks::core::ops_of;
use crate::checks::history::{Cursor, Shared};
use crate::checks::serde_io::Names;
use crate::checks::ways::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use crate::util::*;
use crate::{fail, must};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder};
use std::cell::Cell;
use std::io::{self, Write};
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C25", f: c25, quick: 120_000, thorough: 5_000_000,
            rule: "a case is a history of encoder or decoder calls (up to 60 % of them wrong on purpose) with a log, whose text is parsed after every call and compared with the automaton's stack; or a message put through one way of encoding and two of decoding, whose three logs must be the same, and be the trace of the value; non-trivial when the log reached a depth of 2; distinct by (schema, log)" },
    ]
}

/// Takes what it is given in pieces, and interrupted at times.
struct Pieces { out: Shared, chunk: usize, interrupt: u32, n: u32 }
impl Write for Pieces {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.interrupt > 0 && self.n % self.interrupt == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(self.chunk);
        self.out.0.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl Pieces {
    fn draw(src: &mut Src) -> Pieces {
        Pieces { out: Shared::default(), chunk: *src.pick(&[usize::MAX, 1, 3]), interrupt: *src.pick(&[0u32, 0, 2, 5]), n: 0 }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Line { Open, Close, One }

/// Indentation, form and text of each line.
fn lines(text: &str) -> Result<Vec<(usize, Line, &str)>, Fail> {
    let mut v = Vec::new();
    must!(text.is_empty() || text.ends_with('\n'), "the log does not end with a whole line: {:?}", clip(&text[text.len() - text.len().min(1)..], 20));
    for l in text.lines() {
        let t = l.trim_start_matches(' ');
        let Some(t) = t.strip_prefix('<').and_then(|t| t.strip_suffix('>')) else { fail!("odd line {:?} in the log", clip(l, 300)) };
        let at = l.len() - t.len() - 2;
        if let Some(t) = t.strip_prefix('/') { v.push((at, Line::Close, t)) }
        else if let Some(t) = t.strip_suffix('/') { v.push((at, Line::One, t)) }
        else { v.push((at, Line::Open, t)) }
    }
    Ok(v)
}

/// What must be said in the line of a step.
enum Says { Word(&'static str), Num(u64), Name(String) }

fn says(t: &str, s: &Says) -> bool {
    match s {
        Says::Word(w) => t.to_ascii_lowercase().contains(w),
        Says::Num(n) => t.split(|c: char| !c.is_ascii_digit()).any(|x| x.parse() == Ok(*n)),
        Says::Name(n) => t.contains(&format!("{:?}", n)),
    }
}

/// The lines that an accepted call adds, apart from the ends of what is finished by it.
fn expected(op: &Op, out: Option<&Out>) -> Vec<(Line, Vec<Says>)> {
    use Line::*;
    let word = |w| vec![(One, vec![Says::Word(w)])];
    let seq = |n: usize| vec![(Open, vec![Says::Word("seq"), Says::Num(n as u64)])];
    match op {
        Op::Put(v) => word(scalar_word(scalar_type(v))),
        Op::Get(t) => word(scalar_word(*t)),
        Op::PutStr(_) | Op::GetStr | Op::GetStrInto(_) => word("str"),
        Op::PutBytes(_) | Op::GetBytes | Op::GetBytesInto(_) => word("bytes"),
        Op::Unit => word("unit"),
        Op::PutNone => word("none"),
        Op::PutSome => vec![(Open, vec![Says::Word("some")])],
        Op::GetOption => match out { Some(Out::Some(true)) => vec![(Open, vec![Says::Word("some")])], _ => word("none") },
        Op::FixedSeq(n) | Op::PutVarSeq(n) => seq(*n),
        Op::GetVarSeq => match out { Some(Out::Len(n)) => seq(*n), _ => vec![] },
        Op::Tuple => vec![(Open, vec![Says::Word("tuple")])],
        Op::Struct => vec![(Open, vec![Says::Word("struct")])],
        Op::Field(n) => vec![(One, vec![Says::Name(n.clone())])],
        Op::PutEnum(o, n) => vec![(Open, vec![Says::Word("enum")]), (One, vec![Says::Num(*o as u64)]), (One, vec![Says::Name(n.clone())])],
        Op::GetEnum => match out { Some(Out::Ord(o)) => vec![(Open, vec![Says::Word("enum")]), (One, vec![Says::Num(*o as u64)])], _ => vec![] },
        Op::Variant(n) => vec![(One, vec![Says::Name(n.clone())])],
        Op::SeqElem | Op::TupleElem | Op::FinSeq | Op::FinTuple | Op::FinStruct => vec![],
    }
}

fn scalar_word(t: binschema::ScalarType) -> &'static str {
    crate::checks::diag::kind_name(&Kind::Scalar(t))
}

/// Values that have been begun and not finished.
fn depth(p: &Pda) -> usize { p.st.iter().filter(|f| !matches!(f, Fr::Need(_))).count() }

/// What a call added to the log. `accepted`: what it returned. Gives the depth afterwards.
fn step(new: &str, op: &Op, accepted: Option<Option<&Out>>, before: usize, after: usize) -> Res {
    let got = lines(new)?;
    // inside of how much the next line is
    let mut d = before;
    for (at, form, t) in &got {
        match form {
            Line::Close => {
                must!(d > 0, "the log ends more than was begun, with {:?}", t);
                must!(*at == 2 * d || *at + 2 == 2 * d, "the end {:?} of what is in {} others is indented by {}", t, d - 1, at);
                d -= 1;
            }
            _ => {
                must!(*at == 2 * d, "{:?} is in {} others, and indented by {}", clip(t, 100), d, at);
                if *form == Line::Open { d += 1; }
            }
        }
    }
    must!(d == after, "the log has {} values begun and not finished, the coder {}", d, after);
    let Some(out) = accepted else { return Ok(()) };
    let want = expected(op, out);
    must!(got.len() >= want.len(), "the log has {} lines for it, must have {}", got.len(), want.len());
    for ((form, s), (_, f, t)) in want.iter().zip(&got) {
        must!(form == f, "the log's line {:?} is a {:?}, must be a {:?}", clip(t, 100), f, form);
        for s in s { must!(says(t, s), "the log's line {:?} does not tell {}", clip(t, 200), match s { Says::Word(w) => w.to_string(), Says::Num(n) => n.to_string(), Says::Name(n) => format!("{:?}", clip(n, 100)) }); }
    }
    for (_, f, t) in &got[want.len()..] { must!(*f == Line::Close, "the log has a line {:?} too many", clip(t, 200)); }
    Ok(())
}

fn c25(c: &mut Case) -> Res {
    if c.src.chance(2, 3) { history(c) } else { same(c) }
}

fn history(c: &mut Case) -> Res {
    let dec = c.src.chance(1, 2);
    let recursive = c.src.chance(1, 3);
    let s = gen_schema(c.src, &SchemaCfg { recursive, ..SchemaCfg::default() });
    let a = Arena::make(&s, false);
    let mut g = Guide::draw(c.src, dec);
    let mut max = *c.src.pick(&[30usize, 200]);
    if a.nodes.len() > 80 { g.wrong = g.wrong.min(8); max = max.min(60); }
    if a.nodes.len() > 5000 { max = max.min(12); }
    let mut data = Vec::new();
    if dec {
        let v = gen_value(c.src, &a);
        let _ = a.enc(a.root, &v, &mut data);
        if c.src.chance(1, 4) { let k = c.src.idx(data.len() + 1); data.truncate(k); }
    }
    let mut p = Pda::new(&a);
    let mut pieces = Pieces::draw(c.src);
    let text = pieces.out.clone();
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut pieces));
    let out = Shared::default();
    let mut w = out.clone();
    let mut r = Cursor { data: &data, pos: Rc::new(Cell::new(0)) };
    let mut rd = RefDec::new(&data, Limits::default());
    let mut log: Vec<String> = Vec::new();
    let mut deepest = 0;
    let mut refused = 0;
    let mut run = || -> Res {
        let mut extra = 2;
        for _ in 0..max {
            if p.st.is_empty() { if extra == 0 { break; } extra -= 1; }
            let op = g.next(c.src, &p);
            log.push(clip(&format!("{:?}", op), 80));
            let before = depth(&p);
            let from = text.0.borrow().len();
            let (exp, got) = if dec {
                let exp = p.dec(&op, &mut rd);
                let mut d = Decoder::new(&mut st, &mut r);
                (exp, guard(|| do_dec(&mut d, &op)).map_err(|m| Fail(format!("{:?}: {}", op, m)))?)
            } else {
                let exp = match p.enc(&op) { Exp::Ok(_) => Exp::Ok(Out::Nothing), Exp::Reject(k) => Exp::Reject(k), Exp::Fatal(k) => Exp::Fatal(k) };
                let mut e = Encoder::new(&mut st, &mut w);
                (exp, guard(|| do_enc(&mut e, &op).map(|()| Out::Nothing)).map_err(|m| Fail(format!("{:?}: {}", op, m)))?)
            };
            let accepted = match (exp, &got) {
                (Exp::Ok(_), Ok(o)) => Some(Some(o)),
                (Exp::Reject(_), Err(_)) => { refused += 1; None }
                // whether it must succeed is the matter of C07 and C08
                _ => return Ok(()),
            };
            let new = String::from_utf8(text.0.borrow()[from..].to_vec()).map_err(|_| Fail("the log is not UTF-8".into()))?;
            let after = depth(&p);
            deepest = deepest.max(after);
            step(&new, &op, accepted, before, after).map_err(|f| Fail(format!("{:?}: {}; the call logged\n{}", op, f.0, clip(&new, 1500))))?;
        }
        Ok(())
    };
    run().map_err(|f| Fail(format!("{}: {}\nafter {}\nbytes {}\nschema {}", if dec { "decoder" } else { "encoder" }, f.0, log.join("; "), hex(&data), short(&s))))?;
    c.label(if dec { "decoder_history" } else { "encoder_history" });
    c.label_n("refused_calls", refused);
    if deepest >= 2 {
        c.nontrivial(mix(hash_of(&s), hash_bytes(&text.0.borrow())));
        c.sample(|| format!("depth {}: {}\nlog\n{}", deepest, log.join("; "), clip(&String::from_utf8_lossy(&text.0.borrow()), 600)));
    }
    Ok(())
}

/// The log depends on the message alone.
fn same(c: &mut Case) -> Res {
    let recursive = c.src.chance(1, 3);
    let s = gen_schema(c.src, &SchemaCfg { recursive, ..SchemaCfg::default() });
    let a = Arena::new(&s);
    let v = gen_value(c.src, &a);
    let data = a.encode(&v).unwrap();
    let mut ops = Vec::new();
    ops_of(&v, &mut ops);
    // the trace of the calls
    let mut pieces = Pieces::draw(c.src);
    let text = pieces.out.clone();
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut pieces));
    let mut sink = Vec::new();
    let mut p = Pda::new(&a);
    let mut deepest = 0;
    {
        let mut e = Encoder::new(&mut st, &mut sink);
        for op in &ops {
            let before = depth(&p);
            let from = text.0.borrow().len();
            if !matches!(p.enc(op), Exp::Ok(_)) { fail!("the model rejects its own calls"); }
            if guard(|| do_enc(&mut e, op)).map_err(Fail)?.is_err() { c.discard(); return Ok(()); }
            let new = String::from_utf8_lossy(&text.0.borrow()[from..]).into_owned();
            deepest = deepest.max(depth(&p));
            step(&new, op, Some(None), before, depth(&p)).map_err(|f| Fail(format!("{:?}: {}; the call logged\n{}\nschema {}", op, f.0, clip(&new, 1500), short(&s))))?;
        }
    }
    drop(st);
    let want = text.0.borrow().clone();
    let differ = |how: &str, got: &[u8]| -> Res {
        if got == want { return Ok(()); }
        let (g, w) = (String::from_utf8_lossy(got), String::from_utf8_lossy(&want));
        let i = g.lines().zip(w.lines()).position(|(x, y)| x != y).unwrap_or(g.lines().count().min(w.lines().count()));
        fail!("the log of {} differs from the one of encoding by individual calls in line {}: {:?} instead of {:?}\nbytes {}\nschema {}",
            how, i, clip(g.lines().nth(i).unwrap_or("(none)"), 200), clip(w.lines().nth(i).unwrap_or("(none)"), 200), hex(&data), short(&s))
    };
    let names = Names::default();
    let way = EncWay::draw(c.src, &a, &v, &names);
    let mut log = Pieces::draw(c.src);
    let text = log.out.clone();
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let ok = guard(|| way.run(&mut Encoder::new(&mut st, &mut Vec::new()))).map_err(Fail)?.is_ok();
    if ok { differ(&format!("encoding by {}", way.name()), &text.0.borrow())?; }
    for _ in 0..2 {
        let way = DecWay::draw(c.src);
        let mut log = Pieces::draw(c.src);
        let text = log.out.clone();
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
        let r = guard(|| way.run(&a, &mut Decoder::new(&mut st, &mut data.as_slice()))).map_err(Fail)?;
        if r.is_ok() { differ(&format!("decoding by {}", way.name()), &text.0.borrow())?; }
    }
    c.label("logs_of_ways");
    if deepest >= 2 { c.nontrivial(mix(hash_of(&s), hash_bytes(&want))); }
    Ok(())
}
