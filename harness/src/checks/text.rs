//! C19: pretty-printing.

use crate::engine::*;
use crate::gen::*;
use crate::must;
use crate::util::*;
use binschema::{ScalarType, Schema, SeqSchema};

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C19", f: c19, quick: 3_000_000, thorough: 100_000_000,
        rule: "a case is a generated schema, legal or not, with arbitrary or with plain names; every line of the text is compared with the one spelled independently, and each recursion's line is followed; non-trivial when the schema has a recurse or at least 3 nodes; distinct by schema" }]
}

fn scalar_name(s: ScalarType) -> &'static str {
    use ScalarType::*;
    match s {
        U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", U128 => "u128", I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", I128 => "i128",
        F32 => "f32", F64 => "f64", Char => "char", Bool => "bool",
    }
}

enum Link { None, Beyond, To(usize) }

/// The lines expected, without the drawing to their right, and where each recursion goes.
fn spell(s: &Schema, depth: usize, up: &mut Vec<usize>, out: &mut Vec<(String, Link)>) {
    let pad = "    ".repeat(depth);
    let here = out.len();
    let kind = match s {
        Schema::Scalar(x) => scalar_name(*x).to_string(),
        Schema::Str => "str".into(),
        Schema::Bytes => "bytes".into(),
        Schema::Unit => "unit".into(),
        Schema::Option(_) => "option:".into(),
        Schema::Seq(SeqSchema { len: Some(n), .. }) => format!("seq (length = {}):", n),
        Schema::Seq(SeqSchema { len: None, .. }) => "seq (variable length):".into(),
        Schema::Tuple(_) => "tuple".into(),
        Schema::Struct(_) => "struct".into(),
        Schema::Enum(_) => "enum".into(),
        Schema::Recurse(n) => format!("recurse (level = {})", n),
    };
    let link = match s {
        Schema::Recurse(0) => Link::None,
        Schema::Recurse(n) if *n > up.len() => Link::Beyond,
        Schema::Recurse(n) => Link::To(up[up.len() - n]),
        _ => Link::None,
    };
    out.push((format!("{}- {}", pad, kind), link));
    up.push(here);
    match s {
        Schema::Option(i) => spell(i, depth + 1, up, out),
        Schema::Seq(q) => spell(&q.inner, depth + 1, up, out),
        Schema::Tuple(v) => for (i, x) in v.iter().enumerate() {
            out.push((format!("{}  element {}:", pad, i), Link::None));
            spell(x, depth + 1, up, out);
        },
        Schema::Struct(v) => for (i, x) in v.iter().enumerate() {
            out.push((format!("{}  field {} (name = {:?}):", pad, i, x.name), Link::None));
            spell(&x.inner, depth + 1, up, out);
        },
        Schema::Enum(v) => for (i, x) in v.iter().enumerate() {
            out.push((format!("{}  variant {} (name = {:?}):", pad, i, x.name), Link::None));
            spell(&x.inner, depth + 1, up, out);
        },
        _ => {}
    }
    up.pop();
}

fn c19(c: &mut Case) -> Res {
    let plain = c.src.chance(2, 3);
    let cfg = SchemaCfg {
        illegal: c.src.chance(1, 2),
        plain_names: plain,
        recursive: c.src.chance(2, 3),
        extreme: c.src.chance(1, 8),
        inhabited: c.src.chance(1, 2),
        max_nodes: match c.src.weighted(&[8, 1]) { 0 => 16, _ => 90 },
    };
    let s = gen_schema(c.src, &cfg);
    let text = s.pretty_fmt();
    let mut want = Vec::new();
    spell(&s, 0, &mut Vec::new(), &mut want);
    // wide enums cost too much to draw in numbers
    let lines: Vec<&str> = text.split('\n').collect();
    must!(lines.len() == want.len(), "the text has {} lines where {} were expected, for {:?}:\n{}", lines.len(), want.len(), s, clip(&text, 3000));
    let show = |l: usize| format!("line {} of\n{}\nfor {:?}", l + 1, clip(&text, 3000), s);
    // what follows the label: at least the drawing of lines
    let mut rec = 0;
    for (l, (w, link)) in want.iter().enumerate() {
        let line = lines[l];
        must!(line.starts_with(w.as_str()), "expected {:?}, found {:?}: {}", w, line, show(l));
        let mut rest = &line[w.len()..];
        if let Link::Beyond = link {
            must!(rest.starts_with(" --> [beyond root]"), "a recursion beyond the root is not marked: {}", show(l));
            rest = &rest[18..];
            c.label("beyond_root");
        }
        must!(rest.chars().all(|ch| " -|\\/<".contains(ch)), "{:?} stands behind {:?}: {}", rest, w, show(l));
        if let Link::To(dst) = link {
            rec += 1;
            // out to the right, then up, then to the schema
            let b = rest.as_bytes();
            let turn = b.iter().position(|x| *x == b'/');
            must!(turn.is_some(), "no line starts here: {}", show(l));
            let turn = turn.unwrap();
            must!(b[0] == b' ' && turn >= 2 && b[1..turn].iter().all(|x| *x == b'-'), "the line that starts here is broken: {}", show(l));
            if plain {
                let col = w.len() + turn;
                for k in dst + 1..l {
                    must!(lines[k].as_bytes().get(col) == Some(&b'|'), "the line that starts in line {} is broken in {}", l + 1, show(k));
                }
                let d = lines[*dst].as_bytes();
                must!(d.get(col) == Some(&b'\\'), "the line that starts in line {} does not end in {}", l + 1, show(*dst));
                must!(matches!(d[col - 1], b'-' | b'<'), "the line that starts in line {} does not point to the schema in {}", l + 1, show(*dst));
                c.label("followed");
            }
        } else if !matches!(link, Link::Beyond) {
            must!(!rest.contains('/'), "a line starts at a schema that is no recursion: {}", show(l));
        } else {
            must!(!rest.contains('/'), "a line starts at a recursion beyond the root: {}", show(l));
        }
    }
    // as many ends as there are starts
    let ends: usize = want.iter().zip(&lines).map(|((w, _), l)| l[w.len()..].matches('\\').count()).sum();
    must!(ends == rec, "{} lines end somewhere and {} start: {}", ends, rec, show(0));
    let nodes = want.iter().filter(|w| w.0.trim_start().starts_with("- ")).count();
    c.label_n("nodes", nodes as u64);
    if rec > 0 { c.label("recursive"); }
    if nodes >= 3 || rec > 0 { c.nontrivial(hash_of(&s)); }
    if nodes > 2 && nodes < 12 { c.sample(|| text.clone()); }
    Ok(())
}
