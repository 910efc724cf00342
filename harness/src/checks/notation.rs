//! C20: the expressions of a generated program, against what they spell.

use crate::engine::*;
use crate::gen::*;
use crate::must;
use crate::util::*;
use binschema::Schema;

pub type Expr = fn(&[usize], &[Schema]) -> Schema;

pub fn compare(c: &mut Case, tables: &[&'static [(Expr, &'static str)]]) -> Res {
    let n: usize = tables.iter().map(|t| t.len()).sum();
    if c.idx == 0 { c.label_n("expressions", n as u64); }
    let mut k = (c.idx as usize + c.src.idx(n)) % n;
    let number = k;
    let mut it = tables.iter();
    let mut t = it.next().unwrap();
    while k >= t.len() { k -= t.len(); t = it.next().unwrap(); }
    let (f, text) = t[k];
    let p: Vec<usize> = (0..6).map(|_| gen_uint(c.src, 64) as usize).collect();
    let cfg = SchemaCfg { illegal: true, inhabited: false, extreme: false, max_nodes: 4, ..Default::default() };
    let s: Vec<Schema> = (0..4).map(|_| gen_schema(c.src, &cfg)).collect();
    let want = parse_schema(text, &p, &s);
    let got = f(&p, &s);
    must!(got == want, "expression {} gives {:?} and not {:?} ({}), with parameters {:?} {:?}", number, got, want, text, p, s);
    must!(f(&p, &s) == got, "expression {} gives something else the second time", number);
    c.label(if text.contains('p') && p.iter().any(|x| *x > 9) { "computed_numbers" } else { "constant_numbers" });
    if text.contains('%') { c.label("embedded_schemas"); }
    if want.pretty_fmt().contains('\n') || text.contains(' ') { c.nontrivial(mix(hash_str(text), mix(hash_of(&p), hash_of(&s)))); }
    c.sample(|| clip(text, 500));
    Ok(())
}
