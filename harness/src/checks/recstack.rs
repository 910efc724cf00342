//! C22: the stack of enclosing layers that hand-written schema implementations use.

use crate::engine::*;
use crate::model::*;
use crate::util::*;
use crate::must;
use binschema::{EnumSchemaVariant, KnownSchema, RecurseStack, ScalarType, Schema, SeqSchema, StructSchemaField};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;
use std::marker::PhantomData;
use std::ops::Range;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C22", f: c22, quick: 1_000_000, thorough: 20_000_000,
        rule: "a case is either a tree of pushes of type layers, layers of types without one in the schema, and anonymous layers, every stack handed out being asked for every one of 46 types before and after deeper layers were added, or one stack of up to 2000 layers, or a program of up to 8 mutually recursive hand-written schema implementations whose schema is compared with the one found by the model; non-trivial when some query found a type under at least one other layer; distinct by layers" }]
}

type Push = fn(&RecurseStack, &mut dyn FnMut(&RecurseStack));

/// A layer: none, of a type, or of a type that has no layer of its own in the schema.
#[derive(Clone, Copy, PartialEq)]
enum Layer { None, Type(usize), Clear(usize) }

struct Entry {
    name: &'static str,
    full: fn() -> &'static str,
    push: Push,
    clear: Push,
    find: Option<fn(&RecurseStack) -> Option<usize>>,
    offer: Option<fn(&RecurseStack) -> Option<Schema>>,
}

fn push_of<T: KnownSchema + ?Sized>(s: &RecurseStack, f: &mut dyn FnMut(&RecurseStack)) {
    let t = s.with_type_layer::<T>();
    f(&t)
}

fn clear_of<T: KnownSchema + ?Sized>(s: &RecurseStack, f: &mut dyn FnMut(&RecurseStack)) {
    let t = s.with_transparent_type_layer::<T>();
    f(&t)
}

macro_rules! sized { ($($t:ty),* $(,)?) => { vec![$(Entry {
    name: stringify!($t),
    full: std::any::type_name::<$t>,
    push: push_of::<$t>,
    clear: clear_of::<$t>,
    find: Some(|s| s.find_type::<$t>()),
    offer: Some(|s| s.parent_recurse::<$t>()),
}),*] } }

// ---- hand-written types, all with the same body

macro_rules! same_body { ($($t:ident)*) => {$(
    pub struct $t;
    impl KnownSchema for $t {
        fn schema(_: RecurseStack) -> Schema { Schema::Unit }
    }
)*} }
same_body!(A0 A1 A2 A3 A4 A5);

pub struct Life<'a>(PhantomData<&'a u8>);
impl<'a> KnownSchema for Life<'a> {
    fn schema(_: RecurseStack) -> Schema { Schema::Unit }
}
pub struct Gen<T>(PhantomData<T>);
impl<T> KnownSchema for Gen<T> {
    fn schema(_: RecurseStack) -> Schema { Schema::Unit }
}
pub struct Arr<const N: usize>;
impl<const N: usize> KnownSchema for Arr<N> {
    fn schema(_: RecurseStack) -> Schema { Schema::Unit }
}
mod other {
    use super::*;
    // of the same name as the ones outside
    same_body!(A0 A1);
}
fn push_short<'x>(s: &RecurseStack, _: &'x u8, f: &mut dyn FnMut(&RecurseStack)) {
    let t = s.with_type_layer::<Life<'x>>();
    f(&t)
}

fn clear_short<'x>(s: &RecurseStack, _: &'x u8, f: &mut dyn FnMut(&RecurseStack)) {
    let t = s.with_transparent_type_layer::<Life<'x>>();
    f(&t)
}

/// Different types that nothing but their identity tells apart.
fn locals() -> Vec<Entry> {
    let mut v = { same_body!(Local); sized![Local] };
    v.extend({ same_body!(Local); sized![Local, Gen<Local>] });
    v.extend({ same_body!(Local); sized![Gen<Local>] });
    v
}

fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = sized![
        A0, A1, A2, A3, A4, A5, other::A0, other::A1, Gen<u8>, Gen<i8>, Gen<A0>, Gen<Gen<u8>>, Arr<1>, Arr<2>,
        u64, usize, i64, isize, u8, bool, String, (), Option<u8>, Option<Option<u8>>, Vec<u8>, VecDeque<u8>, LinkedList<u8>, BTreeSet<u8>,
        Box<A0>, Box<Box<A0>>, Cow<'static, String>, (A0, A1), (A1, A0), [u8; 3], [u8; 4], Range<u8>, BTreeMap<u8, u8>, HashMap<u8, u8>,
        T<0>, T<1>,
    ];
    v.extend(locals());
    v.push(Entry { name: "str", full: std::any::type_name::<str>, push: push_of::<str>, clear: clear_of::<str>, find: None, offer: None });
    v.push(Entry {
        name: "Life",
        full: std::any::type_name::<Life<'static>>,
        clear: |s, f| { let x = 3u8; clear_short(s, &x, f) },
        push: |s, f| { let x = 3u8; push_short(s, &x, f) },
        find: Some(|s| s.find_type::<Life<'static>>()),
        offer: Some(|s| s.parent_recurse::<Life<'static>>()),
    });
    v
}

thread_local! { static ENTRIES: Vec<Entry> = entries(); }

// ---------------------------------------------------------------- layers

struct Walk<'a> {
    e: &'a [Entry],
    model: Vec<Layer>,
    budget: i64,
    hash: u64,
    deep_found: bool,
    queries: u64,
    maxdepth: usize,
}

impl<'a> Walk<'a> {
    fn ask(&mut self, s: &RecurseStack, when: &str) -> Res {
        for (i, e) in self.e.iter().enumerate() {
            let Some(find) = e.find else { continue };
            // layers that lie between, the one looked for not counted
            let mut between = 0;
            let mut want = None;
            let mut undefined = false;
            for x in self.model.iter().rev() {
                match *x {
                    Layer::Type(j) if i == j => { want = Some(between); break }
                    // it starts with the layer added next, of which there is none yet
                    Layer::Clear(j) if i == j && between == 0 => { undefined = true; break }
                    Layer::Clear(j) if i == j => { want = Some(between - 1); break }
                    Layer::Clear(_) => {}
                    _ => between += 1,
                }
            }
            let got = find(s);
            self.queries += 1;
            let names = || self.model.iter().map(|x| match x { Layer::None => "-".into(), Layer::Type(i) => self.e[*i].name.to_string(), Layer::Clear(i) => format!("({})", self.e[*i].name) }).collect::<Vec<_>>().join(" / ");
            if undefined {
                must!(got.is_some(), "{}, {} is not found in {}", when, e.name, names());
                continue;
            }
            must!(got == want, "{}, {} is found at {:?} instead of {:?} in {}", when, e.name, got, want, names());
            if let Some(offer) = e.offer {
                let o = offer(s);
                must!(o == want.map(|n| Schema::Recurse(n + 1)), "{}, {} is offered {:?} where {:?} layers lie between in {}", when, e.name, o, want, names());
            }
            if want.map_or(false, |n| n > 0) { self.deep_found = true; }
        }
        Ok(())
    }

    /// The text of a stack names the types, innermost first.
    fn told(&self, s: &RecurseStack) -> Res {
        let text = guard(|| format!("{:?}", s)).map_err(|m| Fail(format!("printing a stack: {}", m)))?;
        let mut rest = text.as_str();
        for x in self.model.iter().rev() {
            let i = match x { Layer::Type(i) | Layer::Clear(i) => *i, Layer::None => continue };
            let name = format!("\"{}\"", (self.e[i].full)());
            match rest.find(&name) {
                Some(at) => rest = &rest[at + name.len()..],
                None => crate::fail!("the text of a stack of {} layers lacks {} at its place: {}", self.model.len(), name, clip(&text, 1500)),
            }
        }
        Ok(())
    }

    fn draw(&mut self, src: &mut Src, few: &[usize], none: (u64, u64)) -> Layer {
        let x = if src.chance(none.0, none.1) { Layer::None } else {
            let i = if src.chance(1, 4) { src.idx(self.e.len()) } else { few[src.idx(few.len())] };
            if src.chance(1, 5) { Layer::Clear(i) } else { Layer::Type(i) }
        };
        self.hash = mix(self.hash, match x { Layer::None => 999, Layer::Type(i) => i as u64, Layer::Clear(i) => 2000 + i as u64 });
        self.model.push(x);
        x
    }

    fn go(&mut self, src: &mut Src, s: &RecurseStack, few: &[usize], keep_on: u64) -> Res {
        self.maxdepth = self.maxdepth.max(self.model.len());
        self.ask(s, "before adding layers")?;
        if src.chance(1, 6) { self.told(s)?; }
        while self.budget > 0 && src.chance(keep_on, keep_on + 1) {
            self.budget -= 1;
            let mut res = Ok(());
            match self.draw(src, few, (1, 4)) {
                Layer::None => { let t = s.with_none_layer(); res = self.go(src, &t, few, keep_on); }
                Layer::Type(i) => (self.e[i].push)(s, &mut |t| { res = self.go(src, t, few, keep_on); }),
                Layer::Clear(i) => (self.e[i].clear)(s, &mut |t| { res = self.go(src, t, few, keep_on); }),
            }
            res?;
            self.model.pop();
            self.hash = mix(self.hash, 777);
            self.ask(s, "after adding layers")?;
            if src.chance(1, 4) {
                let copy = *s;
                self.ask(&copy, "in a copy")?;
            }
        }
        Ok(())
    }
}

/// One stack of many layers.
fn deep(c: &mut Case) -> Res {
    fn down(w: &mut Walk, src: &mut Src, s: &RecurseStack, few: &[usize], left: usize, none: u64) -> Res {
        if left == 0 { w.told(s)?; return w.ask(s, "in a deep stack"); }
        if src.chance(1, 200) { w.ask(s, "on the way down")?; }
        let mut res = Ok(());
        match w.draw(src, few, (none, none + 1)) {
            Layer::None => { let t = s.with_none_layer(); res = down(w, src, &t, few, left - 1, none); }
            Layer::Type(i) => (w.e[i].push)(s, &mut |t| { res = down(w, src, t, few, left - 1, none); }),
            Layer::Clear(i) => (w.e[i].clear)(s, &mut |t| { res = down(w, src, t, few, left - 1, none); }),
        }
        w.model.pop();
        res
    }
    ENTRIES.with(|e| {
        let few: Vec<usize> = (0..1 + c.src.idx(3)).map(|_| c.src.idx(e.len())).collect();
        let none = *c.src.pick(&[1u64, 10, 300]);
        let n = match c.src.idx(3) { 0 => 30 + c.src.idx(100), 1 => 240 + c.src.idx(40), _ => c.src.idx(2000) } as usize;
        let mut w = Walk { e, model: Vec::new(), budget: 0, hash: 2, deep_found: false, queries: 0, maxdepth: 0 };
        down(&mut w, c.src, &RecurseStack::new(), &few, n, none)?;
        c.label("deep_stacks");
        c.label_n("queries", w.queries);
        if w.deep_found { c.nontrivial(w.hash); }
        Ok(())
    })
}

fn layers(c: &mut Case) -> Res {
    ENTRIES.with(|e| {
        let few: Vec<usize> = (0..1 + c.src.idx(4)).map(|_| c.src.idx(e.len())).collect();
        let keep_on = *c.src.pick(&[2u64, 5, 20, 100]);
        let budget = *c.src.pick(&[4i64, 8, 15, 30]);
        let mut w = Walk { e, model: Vec::new(), budget, hash: 1, deep_found: false, queries: 0, maxdepth: 0 };
        let root = if c.src.chance(1, 2) { RecurseStack::new() } else { RecurseStack::default() };
        w.go(c.src, &root, &few, keep_on)?;
        let text = format!("{:?}", root);
        must!(text.len() < 10, "an empty stack prints as {}", text);
        c.label("layer_trees");
        c.label_n("queries", w.queries);
        if w.maxdepth > 8 { c.label("deeper_than_8"); }
        if w.deep_found { c.nontrivial(w.hash); }
        let (hash, q, d) = (w.hash, w.queries, w.maxdepth);
        c.sample(|| format!("layer tree {:x}: {} queries, depth {}", hash, q, d));
        Ok(())
    })
}

// ---------------------------------------------------------------- programs

/// What the schema of a type is made of.
#[derive(Debug, Clone)]
enum Body {
    Unit,
    U8,
    /// another of the types
    Of(usize),
    Option(Box<Body>),
    Seq(Option<usize>, Box<Body>),
    Tuple(Vec<Body>),
    Struct(Vec<Body>),
    Enum(Vec<Body>),
    /// through a library type
    Vec(usize),
    Opt(usize),
    Map(usize, usize),
    Pair(usize, usize),
    Boxed(usize),
}

thread_local! { static PROGRAM: RefCell<Vec<Body>> = const { RefCell::new(Vec::new()) }; }

/// A hand-written implementation, in the manner the documentation shows.
pub struct T<const N: usize>;

impl<const N: usize> KnownSchema for T<N> {
    fn schema(parents: RecurseStack) -> Schema {
        if let Some(s) = parents.parent_recurse::<Self>() { return s; }
        let body = PROGRAM.with(|p| p.borrow()[N].clone());
        let stack = parents.with_type_layer::<Self>();
        top(&body, &stack)
    }
}

/// The layer of `b` is on the stack already.
fn top(b: &Body, s: &RecurseStack) -> Schema {
    match b {
        Body::Unit => Schema::Unit,
        Body::U8 => Schema::Scalar(ScalarType::U8),
        Body::Option(i) => Schema::Option(Box::new(part(i, s))),
        Body::Seq(n, i) => Schema::Seq(SeqSchema { len: *n, inner: Box::new(part(i, s)) }),
        Body::Tuple(v) => Schema::Tuple(v.iter().map(|i| part(i, s)).collect()),
        Body::Struct(v) => Schema::Struct(v.iter().map(|i| StructSchemaField { name: "f".into(), inner: part(i, s) }).collect()),
        Body::Enum(v) => Schema::Enum(v.iter().map(|i| EnumSchemaVariant { name: "v".into(), inner: part(i, s) }).collect()),
        _ => Schema::Tuple(vec![part(b, s)]),
    }
}

/// `b` as the child of the layer on top of the stack.
fn part(b: &Body, s: &RecurseStack) -> Schema {
    match b {
        Body::Of(i) => of(*i, *s),
        Body::Unit | Body::U8 => top(b, s),
        Body::Vec(i) => each(*i, &Via::Vec, *s),
        Body::Opt(i) => each(*i, &Via::Opt, *s),
        Body::Boxed(i) => each(*i, &Via::Boxed, *s),
        Body::Map(i, j) => pair(*i, *j, true, *s),
        Body::Pair(i, j) => pair(*i, *j, false, *s),
        _ => top(b, &s.with_none_layer()),
    }
}

enum Via { Vec, Opt, Boxed }

macro_rules! by_index { ($i:expr, $t:ident => $e:expr) => { match $i {
    0 => { type $t = T<0>; $e } 1 => { type $t = T<1>; $e } 2 => { type $t = T<2>; $e } 3 => { type $t = T<3>; $e }
    4 => { type $t = T<4>; $e } 5 => { type $t = T<5>; $e } 6 => { type $t = T<6>; $e } _ => { type $t = T<7>; $e }
} } }

fn of(i: usize, s: RecurseStack) -> Schema { by_index!(i, X => X::schema(s)) }

fn each(i: usize, via: &Via, s: RecurseStack) -> Schema {
    by_index!(i, X => match via {
        Via::Vec => Vec::<X>::schema(s),
        Via::Opt => Option::<X>::schema(s),
        Via::Boxed => Box::<X>::schema(s),
    })
}

fn pair(i: usize, j: usize, map: bool, s: RecurseStack) -> Schema {
    by_index!(i, X => by_index!(j, Y => if map { BTreeMap::<X, Y>::schema(s) } else { <(X, Y)>::schema(s) }))
}

fn gen_body(src: &mut Src, n: usize, fuel: &mut i64, depth: u32) -> Body {
    *fuel -= 1;
    if *fuel <= 0 || depth > 4 { return if src.chance(2, 3) { Body::Of(src.idx(n)) } else { Body::U8 }; }
    match src.weighted(&[1, 1, 5, 2, 2, 3, 2, 3, 1, 1, 1, 1, 1]) {
        0 => Body::Unit,
        1 => Body::U8,
        2 => Body::Of(src.idx(n)),
        3 => Body::Option(Box::new(gen_body(src, n, fuel, depth + 1))),
        4 => Body::Seq(if src.chance(1, 2) { None } else { Some(src.idx(4)) }, Box::new(gen_body(src, n, fuel, depth + 1))),
        k @ 5..=7 => {
            let m = src.idx(4);
            let v = (0..m).map(|_| gen_body(src, n, fuel, depth + 1)).collect();
            match k { 5 => Body::Tuple(v), 6 => Body::Struct(v), _ => Body::Enum(v) }
        }
        8 => Body::Vec(src.idx(n)),
        9 => Body::Opt(src.idx(n)),
        10 => Body::Map(src.idx(n), src.idx(n)),
        11 => Body::Pair(src.idx(n), src.idx(n)),
        _ => Body::Boxed(src.idx(n)),
    }
}

/// The schema expected: `path` holds what type, if any, starts at each layer.
struct Spell<'a> { p: &'a [Body], path: Vec<Option<usize>>, size: u64 }

impl<'a> Spell<'a> {
    fn of(&mut self, i: usize) -> Schema {
        if let Some(n) = self.path.iter().rev().position(|x| *x == Some(i)) { return Schema::Recurse(n + 1); }
        let p = self.p;
        self.node(&p[i], Some(i))
    }
    fn node(&mut self, b: &Body, me: Option<usize>) -> Schema {
        self.size += 1;
        if self.size > 20_000 { return Schema::Unit; }
        if let (Body::Of(i), None) = (b, me) { return self.of(*i); }
        if let (Body::Boxed(i), None) = (b, me) { return self.of(*i); }
        self.path.push(me);
        let s = match b {
            Body::Unit => Schema::Unit,
            Body::U8 => Schema::Scalar(ScalarType::U8),
            Body::Option(i) => Schema::Option(Box::new(self.node(i, None))),
            Body::Seq(n, i) => Schema::Seq(SeqSchema { len: *n, inner: Box::new(self.node(i, None)) }),
            Body::Tuple(v) => Schema::Tuple(v.iter().map(|i| self.node(i, None)).collect()),
            Body::Struct(v) => Schema::Struct(v.iter().map(|i| StructSchemaField { name: "f".into(), inner: self.node(i, None) }).collect()),
            Body::Enum(v) => Schema::Enum(v.iter().map(|i| EnumSchemaVariant { name: "v".into(), inner: self.node(i, None) }).collect()),
            other if me.is_some() => Schema::Tuple(vec![self.node(other, None)]),
            Body::Vec(i) => Schema::Seq(SeqSchema { len: None, inner: Box::new(self.of(*i)) }),
            Body::Opt(i) => Schema::Option(Box::new(self.of(*i))),
            Body::Map(i, j) => {
                self.path.push(None);
                let t = Schema::Tuple(vec![self.of(*i), self.of(*j)]);
                self.path.pop();
                Schema::Seq(SeqSchema { len: None, inner: Box::new(t) })
            }
            Body::Pair(i, j) => Schema::Tuple(vec![self.of(*i), self.of(*j)]),
            Body::Of(_) | Body::Boxed(_) => unreachable!(),
        };
        self.path.pop();
        s
    }
}

fn programs(c: &mut Case) -> Res {
    let n = 1 + c.src.idx(8);
    let p: Vec<Body> = (0..n).map(|_| { let mut fuel = *c.src.pick(&[2i64, 4, 8]); gen_body(c.src, n, &mut fuel, 0) }).collect();
    let mut sp = Spell { p: &p, path: Vec::new(), size: 0 };
    let want = sp.of(0);
    if sp.size > 1500 { c.discard(); return Ok(()); }
    PROGRAM.with(|x| *x.borrow_mut() = p.clone());
    let got = T::<0>::schema(RecurseStack::new());
    must!(got == want, "the types {:?}\nhave the schema\n{}\ninstead of\n{}", p, got.pretty_fmt(), want.pretty_fmt());
    // and all of its recursion is legal
    let a = Arena::new_lenient(&got);
    must!(!a.has_illegal, "illegal recursion in the schema {:?} of {:?}", got, p);
    c.label("programs");
    let recs = crate::gen::count_recurse(&got);
    if recs > 0 { c.label("recursive_programs"); c.nontrivial(hash_of(&got)); }
    c.label_n("recursions", recs as u64);
    c.sample(|| clip(&format!("{:?}", p), 600));
    Ok(())
}

fn c22(c: &mut Case) -> Res {
    if c.idx % 64 == 0 { return deep(c); }
    if c.idx % 2 == 0 { layers(c) } else { programs(c) }
}
