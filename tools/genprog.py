"""Programs for C12 (derived schemas) and C20 (schema notation): generated Rust source, compiled against
/repo's working tree and driven by the same engine as the other checks. What is expected is computed
here, from the definitions, and carried in the program as text."""
import os, random, re, shutil
import srcdict

SCALARS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "bool"]
KIND = {s: s.upper() if s[0] in "uif" else s.capitalize() for s in SCALARS}

FIELD_NAMES = ["a", "b", "left", "right", "value", "stack", "parent_stack", "schema", "recurse", "seq", "tuple", "option", "unit", "bytes", "str",
               "varlen", "u8", "len", "inner", "_x", "x1", "r#type", "r#match", "r#fn", "r#struct", "r#enum", "r#async", "größe", "名前", "t_", "self_", "r#true", "r#ref",
               "a_rather_long_field_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_0123456789"]
VARIANT_NAMES = ["A", "B", "C", "Leaf", "Branch", "Some", "None", "Ok", "Err", "Option", "Vec", "Box", "Schema", "Scalar", "Recurse", "unit", "option", "r#enum", "r#struct",
                 "r#type", "lower", "UPPER", "X1", "_Y", "Größe", "String", "u8", "seq", "tuple", "varlen", "str", "schema"]
TYPE_NAMES = ["Node", "Tree", "Foo", "Schema", "RecurseStack", "Result", "Error", "Data", "r#loop", "lower_case", "Größe", "Encoder", "T", "Value", "CoderState", "Kind", "Struct", "Seq", "Default_"]


SIZES = []  # numbers of the library's sources
KEYWORDS = set("""as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static
    struct super trait true type unsafe use where while async await abstract become box do final macro override priv try typeof unsized virtual yield gen""".split())


def unraw(n):
    return n[2:] if n.startswith("r#") else n


# ------------------------------------------------------------------ C12: definitions
#
# A type is ("p", primitive), ("a", container, [types], extra) or ("d", index of a definition, by what path).
# A definition is {name, shape, fields | variants}; a field is (name, type, explicit level or None).

ONE = ["Option", "Vec", "VecDeque", "LinkedList", "BTreeSet", "HashSet", "BinaryHeap", "Box", "Range", "RangeInclusive", "Bound", "Array", "Cow"]
INDIRECT = ["OptionBox", "Vec", "VecDeque", "LinkedList", "BTreeSet", "HashSet", "BinaryHeap", "MapK", "MapV", "HMapK", "HMapV"]
ENDS = {"Option", "Vec", "VecDeque", "LinkedList", "BTreeSet", "HashSet", "BinaryHeap", "BTreeMap", "HashMap", "Bound"}


def prim(r):
    return ("p", r.choice(SCALARS + ["String", "String", "()", "usize", "isize", "u8", "u8"]))


def wrap_indirect(r, kind, t):
    """t behind an indirection, and with an end."""
    if kind == "OptionBox": return ("a", "Option", [("a", "Box", [t], None)], None)
    if kind == "MapK": return ("a", "BTreeMap", [t, prim(r)], None)
    if kind == "MapV": return ("a", "BTreeMap", [("p", r.choice(["u8", "String"])), t], None)
    if kind == "HMapK": return ("a", "HashMap", [t, prim(r)], None)
    if kind == "HMapV": return ("a", "HashMap", [("p", r.choice(["u8", "String"])), t], None)
    return ("a", kind, [t], None)


def rtype(r, depth, defs):
    """A type of library containers; defs: indices that may be held by value."""
    k = r.random()
    if depth >= 3 or k < 0.4:
        if defs and r.random() < 0.5: return ("d", r.choice(defs))
        return prim(r)
    c = r.choice(ONE + ["Tuple", "Tuple", "BTreeMap", "HashMap"])
    if c == "Tuple":
        n = r.choice([1, 2, 2, 3, 3, 4, 11])
        return ("a", "Tuple", [rtype(r, depth + 1, defs) for _ in range(n)], None)
    if c in ("BTreeMap", "HashMap"):
        return ("a", c, [keytype(r, depth + 1, defs), rtype(r, depth + 1, defs)], None)
    if c in ("BTreeSet", "HashSet", "BinaryHeap"):
        return ("a", c, [keytype(r, depth + 1, defs)], None)
    return ("a", c, [rtype(r, depth + 1, defs)], size(r) if c == "Array" else None)


def size(r):
    few = [n for n in SIZES if n <= 40]
    return r.choice(few) if few and r.random() < 0.1 else r.choice([0, 1, 2, 3, 5])


def keytype(r, depth, defs):
    """Something with an order and a hash."""
    if defs and r.random() < 0.4: return ("d", r.choice(defs))
    if depth < 3 and r.random() < 0.3: return ("a", r.choice(["Option", "Vec", "Box"]), [keytype(r, depth + 1, defs)], None)
    return ("p", r.choice(["u8", "i64", "String", "char", "bool", "()"]))


def rust_type(t, defs):
    if t[0] == "p": return t[1]
    if t[0] == "d":
        return "Self" if len(t) > 2 and t[2] == "Self" else defs[t[1]]["name"]
    _, c, a, x = t
    p = [rust_type(i, defs) for i in a]
    if c == "Tuple": return "(" + "".join(i + ", " for i in p) + ")"
    if c == "Array": return "[%s; %d]" % (p[0], x)
    path = {"Option": "::std::option::Option", "Vec": "::std::vec::Vec", "Box": "::std::boxed::Box", "Cow": "::std::borrow::Cow"}.get(c, c)
    if c == "Cow": return "%s<'static, %s>" % (path, p[0])
    return "%s<%s>" % (path, ", ".join(p))


class Spell:
    """The schema a definition should have: a list of words. path: for each layer the set of types it starts."""

    def __init__(self, defs):
        self.defs = defs
        self.path = []
        self.pending = []  # newtypes that the next layer starts
        self.n = 0

    def layer(self, me, f):
        self.n += 1
        if self.n > 800: raise Toobig()
        self.path.append(set(self.pending) | ({me} if me is not None else set()))
        saved, self.pending = self.pending, []
        w = f()
        self.pending = saved
        self.path.pop()
        return w

    def leaf(self, w):
        return self.layer(None, lambda: [w])

    def type(self, t):
        if t[0] == "p":
            n = t[1]
            return self.leaf({"String": "str", "()": "unit", "usize": "U64", "isize": "I64"}.get(n) or KIND[n])
        if t[0] == "d": return self.definition(t[1])
        _, c, a, x = t
        if c in ("Box", "Cow"): return self.type(a[0])
        if c == "Option": return self.layer(None, lambda: ["opt"] + self.type(a[0]))
        if c == "Array": return self.layer(None, lambda: ["seq", str(x)] + self.type(a[0]))
        if c == "Tuple": return self.layer(None, lambda: ["tup", str(len(a))] + sum([self.type(i) for i in a], []))
        if c in ("BTreeMap", "HashMap"):
            return self.layer(None, lambda: ["seq", "-"] + self.layer(None, lambda: ["tup", "2"] + self.type(a[0]) + self.type(a[1])))
        if c in ("Range", "RangeInclusive"):
            return self.layer(None, lambda: ["st", "2", "start"] + self.type(a[0]) + ["end"] + self.type(a[0]))
        if c == "Bound":
            return self.layer(None, lambda: ["en", "3", "Unbounded"] + self.leaf("unit") + ["Included"] + self.type(a[0]) + ["Excluded"] + self.type(a[0]))
        return self.layer(None, lambda: ["seq", "-"] + self.type(a[0]))

    def definition(self, i):
        for n, types in enumerate(reversed(self.path)):
            if i in types: return ["rec", str(n + 1)]
        if i in self.pending: raise Toobig()  # a newtype of itself
        d = self.defs[i]
        if d["shape"] == "enum":
            return self.layer(i, lambda: ["en", str(len(d["variants"]))] + sum([[unraw(v["name"])] + self.fields(v["shape"], v["fields"], None) for v in d["variants"]], []))
        return self.fields(d["shape"], d["fields"], i)

    def field(self, f):
        if f[2] is not None: return self.leaf("rec") + [str(int(f[2].replace("_", "").removesuffix("usize"), 0))]
        return self.type(f[1])

    def fields(self, shape, fields, me):
        if shape == "named":
            return self.layer(me, lambda: ["st", str(len(fields))] + sum([[unraw(f[0])] + self.field(f) for f in fields], []))
        if shape == "unit" or not fields:
            return self.layer(me, lambda: ["unit"])
        if len(fields) == 1:
            # transparent
            if me is None: return self.field(fields[0])
            self.pending.append(me)
            w = self.field(fields[0])
            if self.pending and self.pending[-1] == me: self.pending.pop()
            return w
        return self.layer(me, lambda: ["tup", str(len(fields))] + sum([self.field(f) for f in fields], []))


class Toobig(Exception):
    pass


def heights(defs):
    """Lowest height of each definition (and which variant has it); INF if it has no value."""
    INF = 10 ** 6
    h = [INF] * len(defs)
    base = [0] * len(defs)

    def th(t):
        if t[0] == "p": return 1
        if t[0] == "d": return h[t[1]]
        _, c, a, x = t
        if c in ENDS or (c == "Array" and x == 0): return 1
        return min(INF, 1 + max([th(i) for i in a], default=0))

    def fh(fs):
        return max([th(f[1]) for f in fs], default=0)
    for _ in range(len(defs) * 12 + 12):
        for i, d in enumerate(defs):
            if d["shape"] == "enum":
                best = min([(fh(v["fields"]), k) for k, v in enumerate(d["variants"])], default=(INF, 0))
                h[i], base[i] = min(INF, 1 + best[0]), best[1]
            else:
                h[i] = min(INF, 1 + fh(d["fields"]))
    return h, base, INF


def pick_names(r, pool, n):
    names = r.sample(pool, min(n, len(pool)))
    # same name with and without r# is the same identifier
    out, seen = [], set()
    for x in names + ["n%d" % i for i in range(n)]:
        if unraw(x) not in seen and len(out) < n:
            seen.add(unraw(x))
            out.append(x)
    return out


def named(r, shape, types):
    if shape == "named":
        return list(zip(pick_names(r, FIELD_NAMES, len(types)), types, [None] * len(types)))
    return [(None, t, None) for t in types]


SHAPES = ["newtype", "tuple", "named"]


def shaped(r, how, t, others, base_first):
    """A definition that has the type t at the position `how` says; `others` are surrounding types."""
    if how == "newtype": return {"shape": "tuple", "fields": [(None, t, None)]}
    if how in ("tuple", "named"):
        types = others[:]
        types.insert(r.randrange(len(types) + 1), t)
        if len(types) == 1 and how == "tuple": types.append(prim(r))
        return {"shape": how, "fields": named(r, how, types)}
    sub = how[1:]
    inner = shaped(r, sub, t, others, base_first)
    names = pick_names(r, VARIANT_NAMES, 2 + r.randrange(3))
    variants = [{"name": names[0], "shape": inner["shape"], "fields": inner["fields"]}]
    rest = []
    for n in names[1:]:
        k = r.randrange(5)
        if not rest: k = r.choice([0, 3, 4])  # one without recursion
        rest.append([
            {"name": n, "shape": "unit", "fields": []},
            {"name": n, "shape": "tuple", "fields": [(None, prim(r), None)]},
            {"name": n, "shape": "named", "fields": named(r, "named", [prim(r), prim(r)])},
            {"name": n, "shape": "tuple", "fields": []},
            {"name": n, "shape": "named", "fields": []},
        ][k])
    variants += rest
    r.shuffle(variants)
    return {"shape": "enum", "variants": variants}


HOWS = ["newtype", "tuple", "named", "vnewtype", "vtuple", "vnamed"]


def self_ref(r, kind, i, within=0):
    t = ("d", i, "Self") if i == within and r.random() < 0.2 else ("d", i)
    if kind in INDIRECT: return wrap_indirect(r, kind, t)
    box = ("a", "Box", [t], None)
    vec = ("a", "Vec", [t], None)
    opt = ("a", "Option", [box], None)
    return {
        "ArrayOpt": ("a", "Array", [opt], 2),
        "Array0": ("a", "Array", [box], 0),
        "TupleOpt": ("a", "Tuple", [prim(r), opt], None),
        "Tuple3": ("a", "Tuple", [vec, prim(r), opt], None),
        "RangeVec": ("a", "Range", [vec], None),
        "RangeInclusiveVec": ("a", "RangeInclusive", [vec], None),
        "BoundBox": ("a", "Bound", [box], None),
        "OptOpt": ("a", "Option", [opt], None),
        "VecVec": ("a", "Vec", [vec], None),
        "VecTuple": ("a", "Vec", [("a", "Tuple", [prim(r), t], None)], None),
        "VecArray": ("a", "Vec", [("a", "Array", [t], 1)], None),
        "VecBound": ("a", "Vec", [("a", "Bound", [t], None)], None),
        "MapMap": ("a", "HashMap", [("p", "u8"), ("a", "BTreeMap", [("p", "String"), t], None)], None),
        "BoxVecBox": ("a", "Box", [("a", "Vec", [box], None)], None),
        "VecRange": ("a", "Vec", [("a", "Range", [t], None)], None),
        "Box": box,
    }[kind]


KINDS = INDIRECT + ["ArrayOpt", "Array0", "TupleOpt", "Tuple3", "RangeVec", "RangeInclusiveVec", "BoundBox", "OptOpt", "VecVec", "VecTuple", "VecArray", "VecBound", "MapMap", "BoxVecBox", "VecRange"]


def single(r, how, kind):
    n = r.choice([0, 1, 1, 2])
    others = [prim(r) for _ in range(n)]
    d = shaped(r, how, self_ref(r, kind, 0), others, True)
    d["name"] = r.choice(TYPE_NAMES)
    return [d]


def literal(r, n):
    """A way of writing the integer."""
    s = r.choice(["%d", "%d", "0x%x", "0X%x".lower(), "0o%o", "0b%s"])
    s = s % (bin(n)[2:] if s == "0b%s" else n)
    if r.random() < 0.3: s = s[:-1] + "_" + s[-1] if len(s) > 1 else s + "_"
    if r.random() < 0.3: s += "usize"
    return s


def explicit(r, how):
    """A recursion given by an attribute, at a level that is right."""
    t = ("a", "Box", [("d", 0)], None)
    level = 1 if how == "vnewtype" else 2
    text = literal(r, level)
    d = shaped(r, how, t, [prim(r) for _ in range(r.randrange(3))], True)
    d["name"] = r.choice(TYPE_NAMES)
    for v in d["variants"]:
        v["fields"] = [(f[0], f[1], text if f[1] == t else None) for f in v["fields"]]
    return [d]


def explicit_pair(r):
    """One type enclosing another that names the level at which it is enclosed."""
    shape = r.choice(["named", "tuple"])
    via = r.choice(["plain", "opt", "vec", "map", "deep", "deep"])
    deep = r.choice([4, 6, 7, 9, 12, 16])
    a_name, b_name = pick_names(r, TYPE_NAMES, 2)
    bt = ("d", 1)
    extra = {"plain": 0, "opt": 1, "vec": 1, "map": 2, "deep": deep}[via]
    nest = bt
    for _ in range(deep): nest = ("a", r.choice(["Option", "Vec"]), [nest], None)
    t = {"deep": nest, "plain": bt, "opt": ("a", "Option", [bt], None), "vec": ("a", "Vec", [bt], None), "map": ("a", "BTreeMap", [("p", "u8"), bt], None)}[via]
    how = r.choice(["vnewtype", "vtuple", "vnamed"])
    d0 = shaped(r, how, t, [], True)
    level = 1 + extra + (1 if how != "vnewtype" else 0) + 1
    fields = named(r, shape, [prim(r), ("a", "Box", [("d", 0)], None), prim(r)])
    fields = [(f[0], f[1], literal(r, level) if f[1][0] == "a" else None) for f in fields]
    d0["name"] = a_name
    return [d0, {"name": b_name, "shape": shape, "fields": fields, "only_schema": True}]


def cluster(r):
    """A few types that refer to each other."""
    n = r.choice([2, 2, 3, 3, 4])
    names = pick_names(r, TYPE_NAMES, n)
    defs = []
    for i in range(n):
        types = []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            if r.random() < 0.55:
                j = r.randrange(n)
                types.append(self_ref(r, r.choice(KINDS), j, i) if r.random() < 0.8 or j >= i else ("d", j))
            else:
                types.append(rtype(r, 0, list(range(i))))
        how = r.choice(["unit", "tuple", "named", "enum", "enum"])
        if how == "enum":
            vs = []
            vn = pick_names(r, VARIANT_NAMES, r.choice([1, 2, 3, 4]))
            for k, name in enumerate(vn):
                mine = [t for t in types if r.random() < 0.5] if k else types
                sh = r.choice(["unit", "tuple", "named"]) if not mine else r.choice(["tuple", "named"])
                vs.append({"name": name, "shape": sh, "fields": named(r, sh, mine) if sh != "unit" else []})
            r.shuffle(vs)
            defs.append({"name": names[i], "shape": "enum", "variants": vs})
        else:
            if types and how == "unit": how = "tuple"
            defs.append({"name": names[i], "shape": how, "fields": named(r, how, types) if how != "unit" else []})
    return defs


def plain_shapes(r):
    """Every shape without recursion, nested by value."""
    names = pick_names(r, TYPE_NAMES, 7)

    def alike(n, k):
        """As many fields of one type."""
        t = r.choice([("p", "()"), ("p", "()"), ("p", "u8"), ("p", "String"), ("d", 0), ("d", r.randrange(k)), ("a", "Option", [("p", "()")], None)])
        return [t] * n
    defs = [
        {"name": names[0], "shape": "unit", "fields": []},
        {"name": names[1], "shape": "tuple", "fields": []},
        {"name": names[2], "shape": "named", "fields": []},
        {"name": names[3], "shape": "tuple", "fields": [(None, rtype(r, 0, [0, 1, 2]), None)]},
        {"name": names[4], "shape": "named", "fields": named(r, "named", [rtype(r, 0, [0, 1, 2, 3]) for _ in range(r.choice([1, 2, 5]))])},
    ]
    vs = []
    for k, name in enumerate(pick_names(r, VARIANT_NAMES, r.choice([1, 3, 6, 12]))):
        sh = r.choice(["unit", "tuple", "tuple", "named"])
        types = [rtype(r, 1, [0, 1, 2, 3, 4]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if r.random() < 0.3: types = alike(r.choice([1, 2, 3]), 5)
        vs.append({"name": name, "shape": sh, "fields": named(r, sh, types) if sh != "unit" else []})
    defs.append({"name": names[5], "shape": "enum", "variants": vs})
    sh = r.choice(["tuple", "tuple", "named"])
    defs.append({"name": names[6], "shape": sh, "fields": named(r, sh, alike(r.choice([1, 2, 2, 3, 5]), 5))})
    return defs


def wide(r):
    k = r.randrange(3)
    n = r.choice([255, 256, 257, 300])
    if SIZES and r.random() < 0.3: n = r.choice(SIZES) + r.choice([0, 0, 1])
    if k == 0:
        vs = [{"name": "V%d" % i, "shape": "unit", "fields": []} for i in range(n)]
        vs[r.randrange(n)] = {"name": "Special", "shape": "tuple", "fields": [(None, ("a", "Vec", [("d", 0)], None), None)]}
        return [{"name": "Wide", "shape": "enum", "variants": vs}]
    n = r.choice([12, 17, 40])
    if SIZES and r.random() < 0.3: n = min(r.choice(SIZES), 130) + r.choice([0, 0, 1])
    if k == 1: return [{"name": "Long", "shape": "tuple", "fields": [(None, prim(r), None) for _ in range(n)]}]
    return [{"name": "Long", "shape": "named", "fields": [("f%d" % i, prim(r), None) for i in range(n)]}]


OTHER_ATTRS = ["/** documented */ ", "#[doc = \"said\"] ", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[cfg_attr(all(), doc = \"x\")] ", "#[allow(unused)] #[doc(hidden)] "]


def emit_fields_def(r, shape, fields, defs, vis):
    def other():
        return r.choice(OTHER_ATTRS) if r.random() < 0.25 else ""

    def attr(f):
        return other() + ("#[schema(recurse = %s)] " % f[2] + other() if f[2] is not None else "")
    if shape == "unit": return ""
    if shape == "tuple": return "(" + "".join("%s%s%s, " % (attr(f), vis, rust_type(f[1], defs)) for f in fields) + ")"
    return " { " + "".join("%s%s%s: %s, " % (attr(f), vis, f[0], rust_type(f[1], defs)) for f in fields) + "}"


def emit_defs(r, defs, want):
    h, base, INF = heights(defs)
    o = []
    for i, d in enumerate(defs):
        name = d["name"]
        doc = r.choice(["", "", "/// documented\n", "#[allow(dead_code)]\n"])
        if d["shape"] == "enum":
            body = " {\n" + "".join("    %s%s%s,\n" % (r.choice(OTHER_ATTRS[:4]) if r.random() < 0.1 else "", v["name"], emit_fields_def(r, v["shape"], v["fields"], defs, "")) for v in d["variants"]) + "}"
            head = "pub enum"
        else:
            body = emit_fields_def(r, d["shape"], d["fields"], defs, "pub ")
            if d["shape"] != "named": body += ";"
            head = "pub struct"
        o.append("%s#[derive(Clone, ::serde::Serialize, ::serde::Deserialize, ::binschema::KnownSchema)]\n%s %s%s\n" % (doc, head, name, body))
        o.append("::bsv::keyed!(%s);\n" % name)
        if h[i] >= INF:
            raise Toobig()
        # how to make, take apart and compare

        def make(shape, fields):
            parts = [("%s: " % f[0] if shape == "named" else "") + "Ty::gen(s, b)" for f in fields]
            if shape == "unit": return ""
            return "{ %s }" % ", ".join(parts) if shape == "named" else "(%s)" % ", ".join(parts)

        def pat(shape, fields, p):
            if shape == "unit": return ""
            if shape == "named": return "{ %s }" % ", ".join("%s: %s%d" % (f[0], p, k) for k, f in enumerate(fields))
            return "(%s)" % ", ".join("%s%d" % (p, k) for k in range(len(fields)))

        def val(shape, fields):
            if shape == "named":
                return "Value::Struct(vec![%s])" % ", ".join("vfield(%s, Ty::val(x%d))" % (lit(unraw(f[0])), k) for k, f in enumerate(fields))
            if shape == "unit" or not fields: return "Value::Unit"
            if len(fields) == 1: return "Ty::val(x0)"
            return "Value::Tuple(vec![%s])" % ", ".join("Ty::val(x%d)" % k for k in range(len(fields)))

        def same(fields):
            return " && ".join(["true"] + ["Ty::same(x%d, y%d)" % (k, k) for k in range(len(fields))])
        o.append("impl Ty for %s {\n    fn gen(s: &mut Src, b: u32) -> Self {\n        let b = spend(b) + 1;\n" % name)
        if d["shape"] == "enum":
            n = len(d["variants"])
            o.append("        match if b < DEEP { s.idx(%d) } else { %d } {\n" % (n, base[i]))
            for k, v in enumerate(d["variants"]):
                o.append("            %s => %s::%s%s,\n" % (k if k < n - 1 else "_", name, v["name"], make(v["shape"], v["fields"])))
            o.append("        }\n    }\n")
            o.append("    fn val(&self) -> Value { match self {\n")
            for k, v in enumerate(d["variants"]):
                o.append("        %s::%s%s => Value::Enum(EnumValue { variant_ord: %d, variant_name: %s.into(), value: ::std::boxed::Box::new(%s) }),\n" % (
                    name, v["name"], pat(v["shape"], v["fields"], "x"), k, lit(unraw(v["name"])), val(v["shape"], v["fields"])))
            o.append("    } }\n    fn same(&self, o: &Self) -> bool { match (self, o) {\n")
            for v in d["variants"]:
                o.append("        (%s::%s%s, %s::%s%s) => %s,\n" % (name, v["name"], pat(v["shape"], v["fields"], "x"), name, v["name"], pat(v["shape"], v["fields"], "y"), same(v["fields"])))
            if n > 1: o.append("        _ => false,\n")
            o.append("    } }\n")
        else:
            fs = d["fields"]
            o.append("        %s%s\n    }\n" % (name, make(d["shape"], fs)))
            o.append("    fn val(&self) -> Value { let %s%s = self; %s }\n" % (name, pat(d["shape"], fs, "x"), val(d["shape"], fs)))
            o.append("    fn same(&self, o: &Self) -> bool { let %s%s = self; let %s%s = o; %s }\n" % (name, pat(d["shape"], fs, "x"), name, pat(d["shape"], fs, "y"), same(fs)))
        o.append("    fn want() -> ::binschema::Schema { parse_schema(%s, &[], &[]) }\n}\n" % lit(" ".join(want[i])))
    return "".join(o)


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


PRELUDE12 = """#![allow(warnings)]
use ::bsv::checks::typed::{run, schema_only, spend, vfield, Runner, Ty, DEEP};
use ::bsv::engine::Src;
use ::bsv::util::parse_schema;
use ::binschema::value::{EnumValue, Value};
use ::std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use ::std::ops::{Bound, Range, RangeInclusive};
"""


def usable(defs):
    """The schemas wanted, or None if this set of definitions cannot be used."""
    h, _, INF = heights(defs)
    if any(x >= INF for x in h): return None
    names = {"Option", "Vec", "Box", "Cow", "Value", "Ty", "Src"}
    try:
        want = [Spell(defs).definition(i) for i in range(len(defs))]
    except Toobig:
        return None
    return want


def groups12(r, tier):
    out = []

    def add(label, make):
        for _ in range(60):
            defs = make()
            for d in defs:
                if d["name"] == "Value": d["name"] = "Value_"
            want = usable(defs)
            if want is None: continue
            src = PRELUDE12 + emit_defs(r, defs, want)
            entries = []
            for i, d in enumerate(defs):
                f = "schema_only" if d.get("only_schema") else "run"
                entries.append("    (%s::<%s> as Runner, %s)," % (f, d["name"], lit("%s: %s" % (label, d["name"]))))
            src += "pub static TABLE: &[(Runner, &str)] = &[\n" + "\n".join(entries) + "\n];\n"
            out.append((label, src, len(defs)))
            return
        raise Exception("no definitions for " + label)
    more = 6 if tier == "thorough" else 1
    for _ in range(more):
        for how in HOWS:
            for kind in KINDS:
                add("%s via %s" % (how, kind), lambda: single(r, how, kind))
        for how in ["vnewtype", "vtuple", "vnamed"]:
            add("%s via Box" % how, lambda: single(r, how, "Box"))
            for _ in range(2): add("explicit %s" % how, lambda: explicit(r, how))
    for _ in range(6 * more): add("explicit pair", lambda: explicit_pair(r))
    for _ in range(12 * more): add("plain shapes", lambda: plain_shapes(r))
    for _ in range(2 * more): add("wide", lambda: wide(r))
    for _ in range(40 * more): add("cluster", lambda: cluster(r))
    return out


# ------------------------------------------------------------------ C20: notation

IDENTS = ["a", "b", "value", "Foo", "Bar", "u8", "str", "option", "seq", "varlen", "tuple", "unit", "recurse", "bytes", "schema", "Some", "None", "Ok", "name", "self_", "_x", "x1", "T", "größe", "名前",
          "String", "Vec", "Box", "std", "core", "binschema", "union", "auto", "dyn_", "default"]
LEAVES = [(s, KIND[s]) for s in SCALARS] + [("str", "str"), ("bytes", "bytes"), ("unit", "unit")]


BASE = (len(FIELD_NAMES), len(VARIANT_NAMES), len(IDENTS))


def num_expr(r, values=None):
    """A Rust expression of a number, and what it is."""
    k = r.randrange(10)
    i = r.randrange(6)
    if k <= 3:
        n = r.choice([0, 1, 2, 3, 7, 255, 1 << 32])
        if SIZES and r.random() < 0.2: n = r.choice(SIZES) + r.choice([0, 0, 1, -1])
        return r.choice(["%d", "%dusize", "0x%x", "(%d)"]) % n, str(n)
    if k == 4: return "p[%d]" % i, "p%d" % i
    if k == 5: return "p[%d].wrapping_add(%d)" % (i, 3), "p%d+3" % i
    if k == 6: return "{ let x = p[%d]; x }" % i, "p%d" % i
    if k == 7: return "same(p[%d], 2)" % i, "p%d" % i
    if k == 8: return "if true { p[%d] } else { 0 }" % i, "p%d" % i
    n = r.randrange(9)
    return r.choice(["N%d" % n, "%d + %d - 1 * 2" % (n, 2), "[0u8; %d].len()" % n, "match %d { 99 => 1, n => n }" % n]), str(n)


def schema_expr(r):
    i = r.randrange(4)
    return r.choice([
        ("%%s[%d].clone()" % i, "%%%d" % i),
        ("%%give(s, %d)" % i, "%%%d" % i),
        ("%%{ let t = s[%d].clone(); t }" % i, "%%%d" % i),
        ("%%(s[%d].clone())" % i, "%%%d" % i),
        ("%%match 3 { 3 => s[%d].clone(), _ => unreachable!() }" % i, "%%%d" % i),
        ("%%::binschema::Schema::Option(::std::boxed::Box::new(s[%d].clone()))" % i, "opt %%%d" % i),
        ("%%::binschema::schema!(option(%%s[%d].clone()))" % i, "opt %%%d" % i),
        ("%%binschema::schema![seq(varlen)(%%s[%d].clone())]" % i, "seq - %%%d" % i),
        ("%%::binschema::schema!{tuple { (%%s[%d].clone()), (u8) }}" % i, "tup 2 %%%d U8" % i),
        ("%if p[0] == p[0] { ::binschema::Schema::Unit } else { ::binschema::Schema::Str }", "unit"),
        ("%::binschema::Schema::Recurse(p[1])", "rec p1"),
        ("%<Vec<u8> as ::binschema::KnownSchema>::schema(::binschema::RecurseStack::new())", "seq - U8"),
        ("%<[u16; 4] as ::binschema::KnownSchema>::schema(Default::default())", "seq 4 U16"),
    ])


def notation(r, depth, fuel):
    fuel[0] -= 1
    k = r.random()
    if depth > 0 and (fuel[0] <= 0 or k < 0.25): return r.choice(LEAVES)
    if depth > 0 and k < 0.35:
        e, w = num_expr(r)
        return "recurse(%s)" % e, "rec " + w
    if k < 0.45: return schema_expr(r)
    c = r.choice(["option", "seq", "seqn", "tuple", "struct", "enum"])
    comma = r.choice(["", ",", "", ", "])
    if c == "option":
        e, w = notation(r, depth + 1, fuel)
        return "option(%s)" % e, "opt " + w
    if c == "seq":
        e, w = notation(r, depth + 1, fuel)
        return "seq(varlen)(%s)" % e, "seq - " + w
    if c == "seqn":
        n, nw = num_expr(r)
        e, w = notation(r, depth + 1, fuel)
        return "seq(%s)(%s)" % (n, e), "seq %s %s" % (nw, w)
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6] + ([30, 70] if r.random() < 0.05 else []))
    if n == 0: comma = ""
    parts = []
    if n > 6: fuel[0] = 0
    for i in range(n):
        parts.append(notation(r, depth + 1, fuel))
    names = [r.choice(IDENTS) for _ in parts]
    nl = r.choice(["", "\n", " "])
    if c == "tuple":
        return "tuple {%s%s%s%s}" % (nl, ("," + nl).join("(%s)" % e for e, _ in parts), comma, nl), " ".join(["tup %d" % n] + [w for _, w in parts])
    if c == "struct":
        return "struct {%s%s%s%s}" % (nl, ("," + nl).join("(%s: %s)" % (m, e) for m, (e, _) in zip(names, parts)), comma, nl), " ".join(["st %d" % n] + [m + " " + w for m, (_, w) in zip(names, parts)])
    return "enum {%s%s%s%s}" % (nl, ("," + nl).join("%s(%s)" % (m, e) for m, (e, _) in zip(names, parts)), comma, nl), " ".join(["en %d" % n] + [m + " " + w for m, (_, w) in zip(names, parts)])


PRELUDE20 = """#![allow(warnings)]
use ::binschema::Schema as S_;
fn same(x: usize, _: u8) -> usize { x }
fn give(s: &[S_], i: usize) -> S_ { s[i].clone() }
"""
CONSTS = "".join("const N%d: usize = %d;\n" % (i, i) for i in range(9))
SHADOW = """struct Schema; struct ScalarType; struct SeqSchema; struct Option; struct Box; struct String; struct Some; struct None; struct StructSchemaField; struct EnumSchemaVariant;
macro_rules! vec { ($($t:tt)*) => { compile_error!("not this vec") } }
macro_rules! stringify { ($($t:tt)*) => { 0u8 } }
mod std {} mod core {} mod alloc {}
"""


def groups20(r, tier):
    out = []

    def group(label, exprs, shadow):
        src = PRELUDE20 + CONSTS + (SHADOW if shadow else "")
        entries = []
        for i, (e, w) in enumerate(exprs):
            m = "binschema" if not shadow and r.random() < 0.5 else "::binschema"
            o, c = r.choice([("(", ")"), ("(", ")"), ("{", "}"), ("[", "]")])
            src += "fn e%d(p: &[usize], s: &[S_]) -> S_ {\n    let x = %s::schema!%s%s%s;\n    x\n}\n" % (i, m, o, e, c)
            entries.append("(e%d, %s)," % (i, lit(w)))
        src += "pub static TABLE: &[(fn(&[usize], &[S_]) -> S_, &str)] = &[%s];\n" % "\n".join(entries)
        out.append((label, src, len(exprs)))
    more = 12 if tier == "thorough" else 3
    # everything once, alone and as each kind of child
    basic = list(LEAVES)
    for e, w in LEAVES[:]:
        basic += [("option(%s)" % e, "opt " + w), ("seq(varlen)(%s)" % e, "seq - " + w), ("seq(3)(%s)" % e, "seq 3 " + w), ("tuple {(%s)}" % e, "tup 1 " + w),
                  ("struct {(f: %s)}" % e, "st 1 f " + w), ("enum {V(%s)}" % e, "en 1 V " + w)]
    basic += [("tuple {}", "tup 0"), ("struct {}", "st 0"), ("enum {}", "en 0"), ("recurse(0)", "rec 0"), ("recurse(p[0])", "rec p0"), ("%s[0].clone()", "%0")]
    for i in range(0, len(basic), 16): group("each kind", basic[i:i + 16], i % 32 == 16)
    deep, dw = "u8", "U8"
    deeps = []
    for i in range(40):
        deep, dw = [("option(%s)", "opt %s"), ("seq(varlen)(%s)", "seq - %s"), ("tuple {(%s),}", "tup 1 %s"), ("struct {(a: %s)}", "st 1 a %s"), ("enum {B(%s),}", "en 1 B %s"), ("seq(2)(%s)", "seq 2 %s")][i % 6][0] % deep, \
            [("option(%s)", "opt %s"), ("seq(varlen)(%s)", "seq - %s"), ("tuple {(%s),}", "tup 1 %s"), ("struct {(a: %s)}", "st 1 a %s"), ("enum {B(%s),}", "en 1 B %s"), ("seq(2)(%s)", "seq 2 %s")][i % 6][1] % dw
        if i in (10, 25, 39): deeps.append((deep, dw))
    group("deep", deeps, False)
    for k in range(22 * more):
        exprs = []
        for _ in range(14):
            exprs.append(notation(r, 0, [r.choice([4, 8, 16, 30])]))
        group("random", exprs, k % 3 == 2)
    return out


# ------------------------------------------------------------------ building

CARGO = """[package]
name = "%(name)s"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "%(name)s"
path = "src/main.rs"

[dependencies]
bsv = { path = "%(harness)s" }
binschema = { path = "/repo/binschema" }
serde = { version = "1", features = ["derive"] }

%(profiles)s
[profile.checked.package.%(name)s]
opt-level = 0
debug = false

[profile.plain.package.%(name)s]
opt-level = 0
debug = false

[workspace]
"""

MAIN = """#![allow(warnings)]
use bsv::engine::*;
%(mods)s
fn check(c: &mut Case) -> Res {
    %(body)s
}
fn main() {
    bsv::supervise::main_with(vec![Check { id: "%(id)s", f: check, quick: %(quick)d, thorough: %(thorough)d, rule: "%(rule)s" }]);
}
"""

BODY = {
    "derive": "bsv::checks::typed::pick_and_run(c, &[%s])",
    "macro": "bsv::checks::notation::compare(c, &[%s])",
}
RULE = {
    "derive": "a case is a generated value of one of the derived types of a generated program (each visited equally often): the declared schema, also in the midst of foreign enclosing layers, is compared with the one computed from the definition, the bytes with the reference encoding, and the value round-trips; non-trivial when the message has at least 2 bytes or is of an empty container; distinct by (type, message)",
    "macro": "a case is one of the expressions of a generated program in the schema notation (each visited equally often) with generated lengths, levels and schemas for what it computes, compared with the schema spelled independently; non-trivial when the schema has at least 2 nodes; distinct by (expression, parameters)",
}
COUNTS = {"derive": ("C12", 400000, 8000000), "macro": ("C20", 300000, 4000000)}


def dictionary(d):
    """Words and numbers of the library's sources join the names and sizes to choose from."""
    words = [w for w in srcdict.words(d) if w not in KEYWORDS and w.strip("_")]
    FIELD_NAMES[:] = FIELD_NAMES[:BASE[0]] + [w for w in words if w not in FIELD_NAMES[:BASE[0]] and not w[0].isupper()]
    VARIANT_NAMES[:] = VARIANT_NAMES[:BASE[1]] + [w for w in words if w not in VARIANT_NAMES[:BASE[1]]]
    IDENTS[:] = IDENTS[:BASE[2]] + [w for w in words if w not in IDENTS[:BASE[2]]]
    SIZES[:] = [n for n in srcdict.numbers(d) if n <= 300]


def write(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    with open(path, "w") as f: f.write(text)


def crate(m, kind, name, groups):
    d = os.path.join(m.WORK, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    profiles = open(os.path.join(m.HARNESS, "Cargo.toml")).read()
    profiles = profiles[profiles.index("# The profile every"):profiles.index("[workspace]")]
    profiles = re.sub(r"^#.*\n", "", profiles, flags=re.M)
    write(os.path.join(d, "Cargo.toml"), CARGO % {"name": name, "harness": m.HARNESS, "profiles": profiles})
    for i, g in enumerate(groups): write(os.path.join(d, "src", "g%d.rs" % i), g[1])
    pid, quick, thorough = COUNTS[kind]
    body = BODY[kind] % ", ".join("g%d::TABLE" % i for i in range(len(groups)))
    write(os.path.join(d, "src", "main.rs"), MAIN % {"mods": "\n".join("mod g%d;" % i for i in range(len(groups))), "body": body, "id": pid, "quick": quick, "thorough": thorough, "rule": RULE[kind]})
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock): shutil.copy(os.path.join(m.HARNESS, "Cargo.lock"), lock)
    return d


def compile(m, d, name, profile):
    rc, out = m.sh(["cargo", "build", "--offline", "-q", "--profile", profile, "--target-dir", m.TARGET], 850, d)
    return rc, out


def prepare(m, kind, profile, seed, tier, state):
    pid = COUNTS[kind][0]
    r = random.Random("%s %d %s" % (kind, seed, tier))
    dictionary(m.dictionary())
    groups = groups12(r, tier) if kind == "derive" else groups20(r, tier)
    name = "gen_%s_%s" % (kind, profile)
    d = crate(m, kind, name, groups)
    rc, out = compile(m, d, name, profile)
    labels = {}
    for g in groups: labels[g[0]] = labels.get(g[0], 0) + g[2]
    state["programs"] = {"seed": seed, "modules": len(groups), "definitions_or_expressions": sum(g[2] for g in groups), "kinds": len(labels)}
    if rc == 0:
        return os.path.join(m.TARGET, profile, name)
    # Does something of what is generated not compile, or is it the harness?
    m.build(profile)
    one = "one_%s" % kind
    bad = []
    for k in re.findall(r"src/g(\d+)\.rs", out):
        if int(k) not in bad: bad.append(int(k))
    empty = crate(m, kind, one, [])
    rc, o = compile(m, empty, one, profile)
    if rc != 0: raise m.Broken("the program without definitions does not build:\n" + o[-3000:])
    for k in bad[:6]:
        dd = crate(m, kind, one, [groups[k]])
        rc, o = compile(m, dd, one, profile)
        if rc != 0:
            state["violation"] = {"status": "fail", "message": "what the library generates for this does not compile (%s):\n%s\n%s" % (groups[k][0], groups[k][1], o[:3000]), "idx": 0, "tape": []}
            return None
    raise m.Broken("the generated program does not build:\n" + out[-3000:])
