"""Every kind of feature goes through every operation on features.  A family of witness features (each class of feature, with and
without where, use_previous, group-by, several outputs, slices of each of those, renamed ones, and each of them as the input of
another) is followed through the real operations by the path-sensitive interpreter, with kinds as types: which class a feature has,
which attributes and methods that class defines, what its inputs are.  For each witness and operation there must be a path that ends
normally, no attribute the kind does not have may be read, and nothing the kind is made of may be skipped (descriptions and graphs
reach every input, the calculation places every input where its rows are and hands the feature to code that adds its columns)."""
import ast
import functools
from ..index import AnalysisBroken
from ..paths import Paths, Client, NONE, has, TooBig
from . import c07

TECHNIQUE = "kind-typed abstract interpretation: every kind of feature (as a type with its class, attributes and inputs) through every operation"
LEVEL_NOTE = "Kinds are combined up to one feature as the input of another; conditions on data are taken to go either way; what primitives, graphviz and pandas do is not modelled."
MIN_INSTANCES = {"described": 30, "drawn": 30, "computed": 30, "placed": 30, "copied": 30, "answers": 200, "accepted": 60, "categorized": 20}
T, F = ("const", "True"), ("const", "False")


def C(x):
    return ("const", repr(x))


class W(object):
    """a witness"""

    def __init__(self, name, cls, ent, base=(), prim=None, where=None, prev=False, groupby=None, n=None, outs=1, renamed=False, path=()):
        self.name, self.cls, self.ent, self.base, self.prim, self.where, self.prev, self.groupby, self.n, self.outs, self.renamed, self.path = \
            name, cls, ent, list(base), prim, where, prev, groupby, n, outs, renamed, tuple(path)

    def deps(self):
        return self.base + ([self.where] if self.where else [])

    def inputs(self):
        return self.base[:-1] if self.groupby else self.base

    def deep(self):
        r = []
        for d in self.deps():
            r += [d] + d.deep()
        return r


def witnesses():
    """b is the child entity, a its parent"""
    r = []

    def add(*a, **k):
        w = W(*a, **k)
        r.append(w)
        return w

    def ident(name, ent="b", **k):
        return add(name, "IdentityFeature", ent, prim="PrimitiveBase", **k)

    def trans(name, base, prim="Absolute", **k):
        return add(name, "TransformFeature", base[0].ent, base, prim, **k)

    def group(name, base, by, **k):
        return add(name, "GroupByTransformFeature", base[0].ent, list(base) + [by], k.pop("prim", "CumSum"), groupby=by, **k)

    def agg(name, base, prim="Sum", **k):
        return add(name, "AggregationFeature", "a", base, prim, path=[("b", "a", False)], **k)

    def direct(name, base, **k):
        return add(name, "DirectFeature", "b", [base], "PrimitiveBase", outs=base.outs, path=[("a", "b", True)], **k)

    def part(name, base, **k):
        return add(name, "FeatureOutputSlice", base.ent, [base], base.prim, n=1, path=base.path, **k)
    v, z, ok, g, w = ident("v"), ident("z"), ident("ok"), ident("g"), ident("w", "a")
    rv = ident("renamed v", renamed=True)
    rw = ident("renamed w", "a", renamed=True)
    t = trans("transform", [v])
    trans("transform of two", [v, z], "AddNumeric")
    m = trans("multi-output transform", [v], "UserMultiTransform", outs=2)
    cs = group("group-by", [v], g)
    gm = group("multi-output group-by", [v], g, prim="UserMultiTransform", outs=2)
    ts, gs = part("slice of a transform", m), part("slice of a group-by", gm)
    rs = part("renamed slice of a transform", m, renamed=True)
    a = agg("aggregation", [v])
    agg("aggregation of two", [v, z], "UserTwoInputs")
    am = agg("multi-output aggregation", [v], "UserMultiAggregation", outs=2)
    eq = trans("scalar equality", [g], "EqualScalar")
    gt = trans("comparison", [v, z], "GreaterThan")
    gts = trans("scalar comparison", [v], "GreaterThanScalar")
    no = trans("negation", [ok], "Not")
    isin = trans("membership", [g], "IsIn")
    agg("aggregation where scalar equality", [v], where=eq)
    agg("aggregation where scalar comparison", [v], where=gts)
    agg("aggregation where comparison", [v], where=gt)
    agg("aggregation where negation", [v], where=no)
    agg("aggregation where membership", [v], where=isin)
    agg("aggregation where a boolean variable", [v], where=ok)
    agg("aggregation where a renamed boolean variable", [v], where=ident("renamed ok", renamed=True))
    agg("aggregation of the last days", [v], prev=True)
    amw = agg("multi-output aggregation where a boolean variable", [v], "UserMultiAggregation", where=ok, outs=2)
    asl = part("slice of an aggregation", am)
    part("slice of a conditional aggregation", amw)
    d = direct("direct", w)
    direct("direct of an aggregation", a)
    dm = direct("direct of a multi-output aggregation", am)
    ds = part("slice of a direct feature", dm)
    dsl = direct("direct of a slice", asl)
    direct("direct of a renamed feature", rw)
    for what, x in (("variable", rv), ("transform", t), ("group-by", cs), ("direct", d), ("slice of a transform", ts), ("slice of a group-by", gs),
                    ("slice of a direct feature", ds), ("direct of a slice", dsl), ("renamed slice", rs)):
        trans("transform of a " + what, [x])
        group("group-by of a " + what, [x], g)
        group("group-by with a %s as the group" % what, [v], x)
        agg("aggregation of a " + what, [x])
        agg("aggregation where a " + what, [v], where=trans("equality of a " + what, [x], "EqualScalar"))
    part("renamed slice of a direct feature", dm, renamed=True)
    agg("aggregation where a direct boolean slice", [v], where=direct("direct boolean slice", part("boolean slice", am)))
    return r


USER = {"UserMultiTransform": ("TransformPrimitive", 2), "UserTwoInputs": ("AggregationPrimitive", 1), "UserMultiAggregation": ("AggregationPrimitive", 2)}


def instance_names(c, memo={}):
    """attributes and methods objects of a class have"""
    k = id(c)
    if k not in memo:
        names = {"__class__", "__dict__", "__doc__", "__module__", "__name__"}
        for x in c.mro():
            for s in x.node.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names.add(s.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        names |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}
            for f in ast.walk(x.node):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) and isinstance(f.value, ast.Name) and f.value.id == "self":
                    names.add(f.attr)
                if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "setattr" and f.args and isinstance(f.args[0], ast.Name) and f.args[0].id == "self":
                    names.add("*") if not isinstance(f.args[1], ast.Constant) else names.add(f.args[1].value)
        memo[k] = names
    return memo[k]


@functools.lru_cache(maxsize=200000)
def forget(v):
    """a value without the data nothing here depends on"""
    if not isinstance(v, tuple) or not v:
        return v
    if isinstance(v[0], tuple):
        return tuple(forget(x) for x in v)
    if v[0] in ("call", "op", "cmp", "sub", "attr", "comp", "other", "elem", "text", "default", "param", "frame") and not has(v, lambda x: x[0] in KEEP):
        return ("?",)
    return v


KEEP = {"feat", "prev", "cls", "prim", "meth", "var", "trie", "path", "edge", "sref", "desc", "described", "fname", "uname", "pname", "closure", "frame", "name", "ent", "es", "rel"}


class Endless(Exception):
    """a feature is entered again and again"""


class Kinds(Client):
    ordered = True
    max_depth = 60
    loops = 1

    def __init__(self, p, ws, shallow=False):
        self.p, self.by, self.shallow = p, {w.name: w for w in ws}, shallow
        self.notes, self.visited, self.count = set(), set(), 0
        self.feature_names = {c.name for c in p.subclasses("FeatureBase", strict=False)}

    # ---- classes -------------------------------------------------------------------------
    def classof(self, v):
        try:
            if v[0] == "feat":
                return self.p.cls(self.by[v[1]].cls)
            if v[0] == "prim":
                return self.p.cls(USER[v[1]][0] if v[1] in USER else v[1])
            if v[0] == "var":
                return self.p.cls("Variable")
            if v[0] == "cls":
                return self.p.cls(v[1])
            if v[0] == "inst":
                return self.p.cls(v[1])
        except AnalysisBroken:
            pass
        return None

    def named_class(self, v):
        """the class an expression names"""
        n = v[1] if v[0] in ("name", "cls") else v[2] if v[0] == "attr" else None
        if n is not None and n in self.p.classes:
            return n
        return None

    def classes(self, v):
        if v[0] in ("tuple", "list"):
            r = [self.named_class(x) for x in v[1]]
            return None if None in r else r
        n = self.named_class(v)
        return None if n is None else [n]

    def lacks(self, st, b, a):
        self.notes.add((b[1], a))
        return st.ev("missing", "a %s has no %s" % (b[1] if b[0] != "feat" else self.by[b[1]].cls, a))

    # ---- collections ----------------------------------------------------------------------
    def elements(self, v, st):
        if v[0] in ("list", "tuple"):
            return None if any(x and x[0] == "star" for x in v[1]) else v[1]
        if v[0] == "sref":
            return st.env["@@" + v[1]][1]
        if v[0] == "path":
            return tuple(("tuple", (T if fw else F, ("rel", s, d))) if False else ("edge", s, d, fw) for s, d, fw in v[1])
        if v[0] == "op" and v[1] in ("Add", "BitOr"):
            a, b = self.elements(v[2], st), self.elements(v[3], st)
            return None if a is None or b is None else tuple(a) + tuple(b)
        if v[0] == "call" and v[1] in ("list", "tuple", "iter", "reversed", "sorted", "set") and v[2] is None and len(v[3]) >= 1:
            r = self.elements(v[3][0], st)
            return None if r is None else tuple(reversed(r)) if v[1] == "reversed" else tuple(r)
        if v[0] == "call" and v[1] == "enumerate":
            r = self.elements(v[3][0], st)
            return None if r is None else tuple(("tuple", (C(i), x)) for i, x in enumerate(r))
        if v[0] == "call" and v[1] == "range" and len(v[3]) == 1 and v[3][0][0] == "const" and v[3][0][1].isdigit():
            return tuple(C(i) for i in range(int(v[3][0][1])))
        if v[0] == "call" and v[1] == "zip":
            r = [self.elements(x, st) for x in v[3]]
            return None if None in r else tuple(("tuple", x) for x in zip(*r))
        return None

    def binop(self, op, a, b):
        if op == "Add" and a[0] == b[0] and a[0] in ("list", "tuple"):
            return (a[0], a[1] + b[1])
        if op == "Add" and a[0] == b[0] == "path":
            return ("path", a[1] + b[1])
        return ("op", op, a, b)

    # ---- what is known about kinds --------------------------------------------------------
    def known(self, v, st):
        t = v[0]
        if t in ("feat", "prim", "var", "cls", "meth", "inst", "fname", "uname", "described", "desc", "edge", "frame", "trie", "prev", "ent", "es", "rel"):
            return True
        if t in ("list", "dict") and not v[1] or t == "path":
            return bool(v[1])
        if t == "sref":
            return bool(st.env["@@" + v[1]][1])
        if t == "call" and v[1] in ("all", "any") and v[2] is None and v[3]:
            xs = self.elements(v[3][0], st)
            if xs is not None:
                xs = [self.value(x, st) for x in xs]
                if None not in xs:
                    return all(xs) if v[1] == "all" else any(xs)
        if t == "call" and v[1] == "format":
            return True
        if t == "op" and v[1] == "Not":
            x = self.value(v[2], st)
            return None if x is None else not x
        if t != "cmp":
            return None
        if len(v[1]) != 1:
            return None
        op, (a, b) = v[1][0], v[2]
        if op == "Is" and b == NONE:
            return False if a[0] in ("feat", "prim", "var", "cls", "inst", "fname", "uname", "desc", "described", "sref", "path", "prev", "trie", "pname", "list", "tuple", "op", "ent", "es", "rel") or has(a, lambda x: x[0] in ("described", "desc", "prev")) else None
        if op in ("Eq", "Is"):
            if a[0] == "cls" and self.named_class(b) or b[0] == "cls" and self.named_class(a):
                return self.named_class(a) == self.named_class(b)
            if a[0] == b[0] and a[0] in ("fname", "uname", "feat", "prim", "var"):
                return a == b
            if a[0] == b[0] == "pname":
                return a[1] == b[1]
            if b == C("") and a[0] != "const":
                return False
            if {a[0], b[0]} == {"ent"}:
                return a == b
        if op in ("Gt", "Lt", "GtE", "LtE", "Eq") and a[0] == b[0] == "const":
            try:
                x, y = ast.literal_eval(a[1]), ast.literal_eval(b[1])
                return {"Gt": x > y, "Lt": x < y, "GtE": x >= y, "LtE": x <= y, "Eq": x == y}[op]
            except (ValueError, SyntaxError, TypeError):
                return None
        if op == "In":
            if b[0] == "dict":
                ks = [k for k, _ in b[1]] if all(len(x) == 2 for x in b[1]) else None
                if ks == []:
                    return False
                if ks is not None and a[0] == "cls":
                    return a[1] in [self.named_class(k) for k in ks]
            cs = self.classes(b) if a[0] == "cls" else None
            if cs is not None:
                return a[1] in cs
            xs = self.elements(b, st)
            if xs is not None and a[0] in ("fname", "uname", "feat", "cls") and all(x[0] in ("fname", "uname", "feat", "cls") for x in xs):
                return a in xs
        return None

    def value(self, v, st):
        if v[0] == "const":
            return v[1] not in ("None", "False", "0", "''", "0.0")
        return self.known(v, st)

    # ---- attributes -----------------------------------------------------------------------
    def fields(self, b):
        w = self.by[b[1]]
        r = {"base_features": ("list", tuple(("feat", x.name) for x in w.base)), "primitive": ("prim", w.prim, w.name),
             "relationship_path": ("path", w.path), "entity_id": ("entid", w.ent), "entity": ("ent", w.ent), "entityset": ("es",),
             "use_previous": ("prev", w.name) if w.prev else NONE, "where": ("feat", w.where.name) if w.where else NONE,
             "_name": ("fname", w.name) if w.renamed else NONE, "_names": NONE, "child_entity": ("ent", "b"), "parent_entity": ("ent", "a")}
        if w.cls == "IdentityFeature":
            r["variable"] = ("var", w.name.replace("renamed ", ""))
        if w.groupby:
            r["groupby"] = ("feat", w.groupby.name)
        if w.n is not None:
            r["base_feature"] = ("feat", w.base[0].name)
            r["n"] = C(w.n)
            r["num_output_parent"] = C(w.base[0].outs)
        return r

    def has(self, b, a):
        c = self.classof(b)
        if c is None:
            return None
        if a.startswith("__") and a != "__iter__":
            return True
        names = instance_names(c)
        if a in names or "*" in names:
            return True
        if b[0] == "feat" or c.module.name.startswith(self.p.modules and "featuretools"):
            return False
        return None

    def attribute(self, paths, e, b, st):
        a = e.attr
        if b[0] in ("feat", "prim", "var", "inst"):
            return self.get(paths, b, a, st, paths.loc(e))
        if b[0] == "cls":
            if a == "__name__":
                return [(st, C(b[1]))]
            c = self.classof(b)
            f = c.find_method(a) if c is not None else None
            return [(st, ("func", c.name, a))] if f is not None else None
        if b[0] == "trie":
            if a == "value":
                return self.trie_value(b, st)
        if b[0] == "edge":
            return [(st, ("?",))]
        if b[0] == "path" and a == "name":
            return [(st, ("?",))]
        if b[0] == "self":
            key = "@@self." + a
            if key in st.env:
                return [(st, st.env[key])]
            c = self.p.cls(b[1])
            f = c.find_method(a)
            if f is not None and f.is_property:
                return self.run(paths, f, b, (), (), st)
            if f is not None:
                return [(st, ("meth", b, a))]
            return [(st, ("?",))]
        return None

    def run(self, paths, f, recv, vs, ks, st):
        """(state, value) of entering a property; its errors become notes of the state"""
        if len(paths.stack) > self.max_depth:
            raise Endless()
        r = []
        for k, s, v in paths.enter(f.node, f.module, f, recv, vs, ks, st, None):
            r.append((s.ev("missing", "%s raises %s" % (f.qual, v[1:2])), ("?",)) if k == "raise" else (s, v))
        return r

    def get(self, paths, b, a, st, loc):
        c = self.classof(b)
        if a == "__class__":
            return [(st, ("cls", c.name if b[0] != "prim" else b[1]))]
        if b[0] == "inst":
            return None
        if b[0] == "prim":
            if a == "name":
                return [(st, NONE if b[1] == "PrimitiveBase" else ("pname", b[2]))]
            if a == "number_output_features":
                return [(st, C(USER.get(b[1], (0, 1))[1]))]
            if self.has(b, a) is False:
                return [(self.lacks(st, b, a), ("?",))]
            x = c.find_attr(a)
            if x is not None and isinstance(x[1], ast.Constant):
                if b[1] in USER and a == "return_type":
                    return [(st, ("cls", "Numeric"))]
                return [(st, ("const", repr(x[1].value)))]
            if x is not None and isinstance(x[1], ast.Name) and x[1].id in self.p.classes:
                return [(st, ("cls", x[1].id))]
            f = c.find_method(a)
            if f is not None and not f.is_property:
                return [(st, ("meth", b, a))]
            return [(st, ("?",))]
        if b[0] == "var":
            if self.has(b, a) is False:
                return [(self.lacks(st, b, a), ("?",))]
            return [(st, ("desc", b[1]) if a == "description" else ("vid", b[1]) if a in ("id", "name") else ("?",))]
        if "@@of." + b[1] + "." + a in st.env:
            return [(st, st.env["@@of." + b[1] + "." + a])]
        fs = self.fields(b)
        f = c.find_method(a)
        if self.has(b, a) is False:
            return [(self.lacks(st, b, a), ("?",))]
        if f is not None and f.is_property and a not in ("entity",):
            return self.run(paths, f, b, (), (), st)
        if a in fs:
            return [(st, fs[a])]
        if f is not None:
            return [(st, ("meth", b, a))]
        return [(st, ("?",))]

    # ---- tries ----------------------------------------------------------------------------
    def trie_value(self, b, st):
        key = "@@trie" + repr(b[1:])
        if key in st.env:
            return [(st, st.env[key])]
        if b[1] == "approx":
            s, r = self.new_set(st, ())
            return [(s.bind(key, r), r)]
        s, r1 = self.new_set(st, ())
        s, r2 = self.new_set(s, ())
        v = ("tuple", (F, r1, r2))
        return [(s.bind(key, v), v)]

    def new_set(self, st, items):
        n = sum(1 for k in st.env if k.startswith("@@set"))
        name = "set%d" % n
        return st.bind("@@" + name, ("set", tuple(items))), ("sref", name)

    def store(self, paths, t, b, v, st):
        if b[0] == "trie" and t.attr == "value":
            return [st.bind("@@trie" + repr(b[1:]), v)]
        if b[0] == "self":
            return [st.bind("@@self." + t.attr, v)]
        if b[0] == "feat":
            return [st.bind("@@of." + b[1] + "." + t.attr, v)]
        if b[0] == "inst":
            return [st]
        return None

    def subscript(self, paths, e, b, i, st):
        if b[0] in ("list", "tuple") and i[0] == "op" and i[1] == "USub" and i[2][0] == "const" and b[1]:
            return [(st, b[1][-int(i[2][1])] if int(i[2][1]) <= len(b[1]) else ("?",))]
        if b[0] in ("list", "tuple") and i[0] == "const" and not b[1]:
            return [(st.ev("missing", "an empty list is indexed"), ("?",))]
        if b[0] in ("list", "tuple") and i[0] == "slice":
            def num(x):
                if x == NONE:
                    return None
                if x[0] == "const":
                    return int(x[1])
                if x[0] == "op" and x[1] == "USub" and x[2][0] == "const":
                    return -int(x[2][1])
                raise ValueError
            try:
                return [(st, (b[0], tuple(b[1])[slice(*[num(x) for x in i[1:]])]))]
            except ValueError:
                return None
        if b[0] == "path":
            n = i[1] if i[0] == "const" else i[2][1] if i[0] == "op" and i[1] == "USub" and i[2][0] == "const" else None
            if n is not None:
                n = int(n) if i[0] == "const" else -int(n)
                if not b[1] or n >= len(b[1]):
                    return [(st.ev("missing", "an empty path is indexed"), ("?",))]
                return [(st, ("edge",) + b[1][n])]
        if b[0] == "edge":
            return [(st, T if b[3] else F)] if i == C(0) else [(st, ("rel", b[1], b[2]))]
        if b[0] == "dict" and i[0] == "cls":
            for k, x in b[1]:
                if self.named_class(k) == i[1]:
                    return [(st, x)]
            return [(st.ev("missing", "no entry for %s" % i[1]), ("?",))]
        if b[0] == "feat":
            w = self.by[b[1]]
            if w.cls == "FeatureOutputSlice":
                return [(st.ev("missing", "a slice is subscripted"), ("?",))]
            f = self.classof(b).find_method("__getitem__")
            name = w.name + "[%s]" % (i[1] if i[0] == "const" else "i")
            if name not in self.by:
                self.by[name] = W(name, "FeatureOutputSlice", w.ent, [w], w.prim, n=int(i[1]) if i[0] == "const" and i[1].isdigit() else 0, path=w.path)
            if w.outs == 1:
                return [(st.ev("missing", "the only output of a feature is subscripted"), ("?",))]
            return [(st, ("feat", name))] if f is not None else None
        return None

    # ---- calls ----------------------------------------------------------------------------
    def call(self, paths, e, name, fv, recv, vs, ks, st):
        f, d = e.func, dict(ks)
        n1 = [("next", st, NONE)]
        if recv is None and fv is None or recv is not None and recv[0] == "name" and recv[1] in ("six", "builtins"):
            if name == "isinstance" and len(vs) == 2:
                return [("next", st, self.instance(vs[0], vs[1]))]
            if name == "issubclass" and len(vs) == 2 and vs[0][0] == "cls":
                cs, c = self.classes(vs[1]), self.classof(vs[0])
                if c is not None and c.name == "Variable":
                    return [("next", st, ("?",))]
                if cs is not None and c is not None:
                    return [("next", st, T if any(c.is_subclass(x) for x in cs) else F)]
            if name == "type" and len(vs) == 1 and vs[0][0] in ("feat", "prim", "var", "inst"):
                return [("next", st, ("cls", vs[0][1] if vs[0][0] in ("prim", "inst") else self.classof(vs[0]).name))]
            if name == "hasattr" and vs[0][0] in ("feat", "prim", "var") and vs[1][0] == "const":
                x = self.has(vs[0], ast.literal_eval(vs[1][1]))
                return [("next", st, ("?",) if x is None else T if x else F)]
            if name == "getattr" and vs[0][0] in ("feat", "prim", "var") and vs[1][0] == "const":
                a = ast.literal_eval(vs[1][1])
                if self.has(vs[0], a) is False and len(vs) > 2:
                    return [("next", st, vs[2])]
                return [("next", s, v) for s, v in self.get(paths, vs[0], a, st, paths.loc(e))]
            if name == "set" and (not vs or self.elements(vs[0], st) is not None):
                s, r = self.new_set(st, dict.fromkeys(self.elements(vs[0], st) if vs else ()))
                return [("next", s, r)]
            if name == "dict" and not vs and not ks:
                return [("next", st, ("dict", ()))]
            if name in ("list", "tuple", "sorted", "iter") and vs and self.elements(vs[0], st) is not None:
                return [("next", st, ("list", tuple(self.elements(vs[0], st))))]
            if name == "list" and not vs:
                return [("next", st, ("list", ()))]
            if name == "len" and vs and self.elements(vs[0], st) is not None:
                return [("next", st, C(len(self.elements(vs[0], st))))]
            if name == "next" and vs and self.elements(vs[0], st):
                return [("next", st, self.elements(vs[0], st)[0])]
            if name == "hash" and vs and vs[0][0] == "feat":
                return [("next", st, ("?",))]
            if name == "Trie":
                return [("next", st, ("trie", "main", ()))]
            if name == "RelationshipPath" and vs and vs[0] == ("list", ()):
                return [("next", st, ("path", ()))]
            if name == "str" and len(vs) == 1 and vs[0][0] == "cls":
                return [("next", st, C(vs[0][1]))]
            if name == "map" and len(vs) == 2 and self.elements(vs[1], st) is not None and vs[0][0] in ("closure", "meth", "name"):
                return None
        if name in ("deque", "copy") and recv is not None and recv[0] == "name" and vs and vs[0][0] == "list":
            return [("next", st, vs[0])]
        var = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in st.env else None
        if recv is not None and recv[0] == "list" and var is not None:
            if name in ("pop", "popleft"):
                if not recv[1]:
                    return [("raise", st, ("new", "IndexError", paths.loc(e)))]
                i = 0 if name == "popleft" or vs and vs[0] == C(0) else len(recv[1]) - 1
                return [("next", st.bind(var, ("list", recv[1][:i] + recv[1][i + 1:])), recv[1][i])]
            if name == "remove" and vs:
                key = [vs[0] if x == vs[0] else None for x in recv[1]]
                if vs[0] in recv[1]:
                    i = key.index(vs[0])
                    return [("next", st.bind(var, ("list", recv[1][:i] + recv[1][i + 1:])), NONE)]
                return [("raise", st, ("new", "ValueError", paths.loc(e)))] if self.concrete(recv) and self.concrete(vs[0]) else n1
            if name == "extend" and vs and self.elements(vs[0], st) is not None:
                return [("next", st.bind(var, ("list", recv[1] + tuple(self.elements(vs[0], st)))), NONE)]
            if name == "appendleft" and vs:
                return [("next", st.bind(var, ("list", (vs[0],) + recv[1])), NONE)]
        if recv is not None and recv[0] in ("list", "tuple") and name == "copy":
            return [("next", st, recv)]
        if recv is not None and recv[0] == "sref":
            key = "@@" + recv[1]
            old = st.env[key][1]
            if name == "add":
                return [("next", st if vs[0] in old else st.bind(key, ("set", old + (vs[0],))), NONE)]
            if name in ("remove", "discard"):
                return [("next", st.bind(key, ("set", tuple(x for x in old if x != vs[0]))), NONE)]
            if name in ("update", "union"):
                xs = tuple(x for v in vs for x in (self.elements(v, st) or ()))
                new = tuple(dict.fromkeys(old + xs))
                if name == "update":
                    return [("next", st.bind(key, ("set", new)), NONE)]
                s, r = self.new_set(st, new)
                return [("next", s, r)]
            if name == "copy":
                s, r = self.new_set(st, old)
                return [("next", s, r)]
        if recv is not None and recv[0] == "dict" and name == "get" and vs:
            if not recv[1]:
                return [("next", st, vs[1] if len(vs) > 1 else NONE)]
            if vs[0][0] == "cls":
                hit = [x for k, x in recv[1] if self.named_class(k) == vs[0][1]]
                return [("next", st, hit[0] if hit else vs[1] if len(vs) > 1 else NONE)]
        if recv is not None and recv[0] == "trie":
            if name == "get_node":
                xs = self.elements(vs[0], st)
                if xs is None:
                    return [("next", st, ("trie", recv[1], recv[2] + (("?",),)))]
                return [("next", st, ("trie", recv[1], recv[2] + tuple(xs)))]
            return [("next", st, ("?",))]
        # --- methods of features and primitives
        target, me = None, recv
        if fv is not None and fv[0] == "meth":
            me, name = fv[1], fv[2]
        elif fv is not None and fv[0] == "func":
            me, name = vs[0] if vs else NONE, fv[2]
            vs = vs[1:]
        elif isinstance(f, ast.Attribute) and recv is not None and recv[0] == "call" and recv[1] == "super":
            me = st.env.get("self", NONE)
            if me[0] in ("feat", "self"):
                own = paths.func.cls
                mro = (self.p.cls(me[1]) if me[0] == "self" else self.classof(me)).mro()
                ks_ = [i for i, x in enumerate(mro) if x is own]
                for x in mro[ks_[0] + 1:] if ks_ else []:
                    hit = [g for g in self.p.functions if g.cls is x and g.name == name]
                    if hit:
                        return paths.enter(hit[0].node, hit[0].module, hit[0], me, vs, ks, st, None)
            return n1
        if me is not None and me[0] == "feat":
            if name in ("get_name", "unique_name") and not self.shallow:
                self.visited.add(me[1])
                return [("next", st, ("fname" if name == "get_name" else "uname", me[1]))]
            if name in ("get_feature_names", "generate_names") and not self.shallow:
                self.visited.add(me[1])
                w = self.by[me[1]]
                return [("next", st, ("list", tuple(("fname", w.name, i) if w.outs > 1 else ("fname", w.name) for i in range(w.outs))))]
            if name == "get_function":
                return [("next", st, ("?",))]
            if name == "get_dependencies" and not self.shallow:
                return [("next", st, ("list", tuple(("feat", x.name) for x in (self.by[me[1]].deep() if d.get("deep", vs[0] if vs else F) == T else self.by[me[1]].deps()))))]
            c = self.classof(me)
            target = c.find_method(name)
            if target is None:
                if self.has(me, name) is False:
                    return [("next", self.lacks(st, me, name), ("?",))]
                return [("next", st, ("?",))]
        elif me is not None and me[0] == "prim":
            if name == "get_description":
                return [("next", st, ("described", me, vs[0] if vs else d.get("input_column_descriptions", NONE), d.get("slice_num", vs[1] if len(vs) > 1 else NONE)))]
            if self.has(me, name) is False:
                return [("next", self.lacks(st, me, name), ("?",))]
            return [("next", st, ("?",))]
        elif me is not None and me[0] == "self":
            target = self.p.cls(me[1]).find_method(name)
        elif me is not None and me[0] == "fset":
            if name == "group_features":
                return [("next", st, ("list", (("list", (me[1],)),)))]
            return [("next", st, ("?",))]
        elif me is not None and me[0] == "inst":
            return [("next", st, ("?",))]
        elif me is not None and me[0] in ("frame", "df"):
            return [("next", st, ("frame", "new") if name in ("assign", "merge", "fillna", "append", "join", "copy", "update") else ("?",))]
        if target is None:
            # a class of features, by name or through a value
            n = self.named_class(fv) if fv is not None and fv[0] in ("cls", "name", "attr") else self.named_class(("name", name)) if fv is None and (recv is None or recv[0] == "name" and "super" not in recv) else None
            if n in self.feature_names:
                args = tuple(vs) + tuple(v for _, v in ks)
                return [("next", st, ("inst", n, args))]
            t = paths.target(f, st)
            if t is None and fv is not None and fv[0] == "closure":
                node, m, fi = paths.closures[fv[1]]
                for v in vs:
                    if v[0] == "feat":
                        self.visited.add(v[1])
                return None
            if t is not None and (t.cls is None or t.name not in ("__init__",)) and self.relevant(t, vs, ks, recv, st):
                target, me = t, recv if t.cls is not None else None
        if target is None:
            if name == "merge" or name == "assign":
                return [("next", st, ("frame", "new"))]
            return None
        for v in list(vs) + [v for _, v in ks]:
            if v[0] == "feat":
                self.visited.add(v[1])
        if len(paths.stack) > self.max_depth:
            raise Endless()
        return paths.enter(target.node, target.module, target, me, vs, ks, st, None)

    def concrete(self, v):
        return not has(v, lambda x: x[0] in ("?", "call", "op", "elem", "param", "attr"))

    def relevant(self, t, vs, ks, recv, st):
        return has(tuple(vs) + tuple(v for _, v in ks) + ((recv,) if recv else ()), lambda x: x[0] in ("feat", "self", "prim", "frame", "fset"))

    def instance(self, v, c):
        if v[0] == "cls":
            return F
        k, cs = self.classof(v), self.classes(c)
        if v[0] == "prim" and cs is not None and k is not None:
            return T if any(k.is_subclass(x) or v[1] == x for x in cs) else F
        if k is not None and cs is not None:
            return T if any(k.is_subclass(x) for x in cs) else F
        if k is not None and c[0] in ("name",) and c[1] in ("list", "tuple", "str", "dict", "set", "int", "Iterable"):
            return F
        if v[0] in ("list", "tuple") and c[0] == "name":
            return T if c[1] == v[0] else F
        if v[0] == "frame":
            return ("?f", repr(c)[:60])
        if v == NONE:
            return F
        return ("?",)

    def truth_of_class(self):
        return None

    def keep(self, st):
        s = st.copy()
        s.env = {k: v if k.startswith("@@") else forget(v) for k, v in st.env.items()}
        s.conds = {}
        return s


def outcome(ctx, p, h, f, args, selfv=None, budget=60000):
    env = dict(args)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if selfv is not None and names:
        env[names[0]] = selfv
    for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        env.setdefault(x, ("const", repr(d.value)) if isinstance(d, ast.Constant) else ("default", ast.unparse(d)))
    if a.kwarg:
        env.setdefault(a.kwarg.arg, ("dict", ()))
    try:
        outs = Paths(p, h, budget).run(f.module, f.node, f, env)
    except Endless:
        return None, "it does not come to an end"
    except TooBig:
        ctx.stats["too many paths to decide"] = ctx.stats.get("too many paths to decide", 0) + 1
        return [], ""
    good = [(k, s, v) for k, s, v in outs if k in ("return", "next") and not any(x[0] == "missing" for x in s.trace)]
    if good and all(not any(x[0] == "missing" for x in s.trace) for k, s, v in outs):
        return outs, ""
    miss = sorted({x[1] for k, s, v in outs for x in s.trace if x[0] == "missing"})
    if miss:
        return (outs if good else None), miss[0]
    bad = sorted({str(v[1:3]) for k, s, v in outs if k == "raise"})
    return None, "it ends with %s" % (bad[0] if bad else "nothing")


def need(w):
    """the variables a description has to mention"""
    if not w.base:
        return {w.name.replace("renamed ", "")}
    r = set()
    for x in w.deps():
        r |= need(x)
    return r


def at(f):
    return "%s:%d" % (f.module.rel, f.node.lineno)


def check(ctx):
    p = ctx.p
    ws = witnesses()
    fb = p.cls("FeatureBase")
    kinds = [c for c in p.subclasses("FeatureBase") if not any(x is not c and x.is_subclass(c.name) and False for x in p.subclasses("FeatureBase"))]
    covered = {w.cls for w in ws}
    for c in kinds:
        if c.module.name.startswith("featuretools.tests"):
            continue
        ctx.ob("kinds", c.name, c.name in covered or any(x.is_subclass(c.name) and x is not c for x in kinds), c.loc, "%s is a kind of feature no operation was checked for" % c.name)
    described(ctx, p, ws)
    drawn(ctx, p, ws)
    computed(ctx, p, ws)
    placed(ctx, p, ws)
    copied(ctx, p, ws)
    answers(ctx, p, ws)
    accepted(ctx, p, ws)
    categorized(ctx, p, ws)
    c07.dispatch(ctx, p, fb, [c for c in kinds if not c.module.name.startswith("featuretools.tests")])
    ctx.stats.update({"witness features": len(ws)})


def described(ctx, p, ws):
    f = p.public("describe_feature")
    ctx.unit(f)
    for w in ws:
        h = Kinds(p, ws)
        outs, why = outcome(ctx, p, h, f, {"feature": ("feat", w.name), "feature_descriptions": NONE, "primitive_templates": NONE, "metadata_file": NONE})
        if outs == []:
            continue        # too many paths to decide
        if outs is not None and not why:
            for k, s, v in outs:
                if k != "return":
                    continue
                lost = sorted(x for x in need(w) if not has(v, lambda y: y[0] == "desc" and y[1] == x))
                if lost:
                    why = "the description does not mention its input %s" % lost[0]
                for q in [w] + w.deep():
                    # the where-condition may be put in words without its primitive
                    if q.prim == "PrimitiveBase" or w.where and q in [w.where] or any(q is x.where for x in w.deep()) or q.outs > 1 and q is not w:
                        continue
                    b = q.base[0] if q.n is not None else q
                    if b.cls == "DirectFeature":
                        continue
                    got = [y for y in walk(v) if y[0] == "described" and y[1] == ("prim", b.prim, b.name) or y[0] == "described" and y[1] == ("prim", q.prim, q.name)]
                    if not got:
                        why = "the description leaves out what %s computes" % q.name
                    elif q.n is not None and not any(y[3] == C(q.n) for y in got):
                        why = "the description does not say which output %s is" % q.name
                    elif any(y[2][0] == "list" and len(y[2][1]) != len(b.inputs()) for y in got):
                        why = "%s is described with %s inputs instead of %d" % (q.name, sorted({len(y[2][1]) for y in got if y[2][0] == "list"}), len(b.inputs()))
                if w.prev and not has(v, lambda y: y[0] == "prev"):
                    why = "the description leaves out use_previous"
        ctx.ob("described", w.name, not why, at(f), "a %s cannot be described: %s" % (w.name, why))


def walk(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def drawn(ctx, p, ws):
    f = p.public("graph_feature")
    ctx.unit(f)
    for w in ws:
        h = Kinds(p, ws)
        outs, why = outcome(ctx, p, h, f, {"feature": ("feat", w.name), "to_file": NONE, "description": F})
        if outs == []:
            continue        # too many paths to decide
        if not why:
            lost = [x.name for x in w.deep() if x.name not in h.visited]
            # the generic feature a slice is taken from may be drawn as part of the slice
            lost = [x for x in lost if h.by[x].outs == 1]
            if lost:
                why = "its input %s is left out" % lost[0]
        ctx.ob("drawn", w.name, not why, at(f), "a %s cannot be drawn: %s" % (w.name, why))


def computed(ctx, p, ws):
    calc = p.cls("FeatureSetCalculator")
    cands = [g for g in p.functions if g.cls is calc and any(isinstance(x, ast.Attribute) and x.attr == "group_features" for x in ast.walk(g.node))]
    ctx.need(len(cands) == 1, "method of the calculator that goes through groups of features")
    f = cands[0]
    ctx.unit(f)
    names = [x.arg for x in f.node.args.args]
    for w in ws:
        h = Kinds(p, ws)
        env = {n: ("param", n) for n in names[1:]}
        env["@@self.feature_set"] = ("fset", ("feat", w.name))
        for n in names[1:]:
            if n in ("df", "frame", "dataframe") or n == names[1]:
                env[n] = ("frame", "given")
                break
        outs, why = outcome(ctx, p, h, f, env, ("self", calc.name))
        if outs == []:
            continue        # too many paths to decide
        if not why:
            same = w.cls in ("IdentityFeature", "FeatureOutputSlice") and not w.renamed
            changed = any(k == "return" and (v != ("frame", "given") or any(x[0] == "setitem" and x[1] == ("frame", "given") for x in s.trace)) for k, s, v in outs)
            if not same and not changed:
                why = "no column is added for it"
            if w.name not in h.visited:
                why = "nothing looks at its columns"
        ctx.ob("computed", w.name, not why, at(f), "a %s cannot be computed: %s" % (w.name, why))


def placed(ctx, p, ws):
    fs = p.cls("FeatureSet")
    f = fs.find_method("feature_trie")
    ctx.need(f is not None, "FeatureSet.feature_trie")
    ctx.unit(f)
    for w in ws:
        h = Kinds(p, ws)
        env = {"@@self.target_features": ("list", (("feat", w.name),)), "@@self.approximate_feature_trie": ("trie", "approx", ()),
               "@@self._feature_trie": NONE, "@@self.features_by_name": ("dict", tuple((("uname", x.name), ("feat", x.name)) for x in [w] + w.deep()))}
        outs, why = outcome(ctx, p, h, f, env, ("self", fs.name))
        if outs == []:
            continue        # too many paths to decide
        for k, s, v in outs or ():
            if k != "return" or why:
                continue
            where = {}
            for key, val in s.env.items():
                if key.startswith("@@trie('main'"):
                    node = ast.literal_eval(key[6:])[1]
                    for x in val[1] if val[0] == "tuple" else ():
                        if x[0] == "sref":
                            for n in s.env["@@" + x[1]][1]:
                                if n[0] == "uname":
                                    where.setdefault(n[1], []).append(node)
            for q in [w] + w.deep():
                for node in where.get(q.name, ()):
                    ent = w.ent
                    for edge in node:
                        ent = None if edge[0] != "edge" or ent != (edge[2] if edge[3] else edge[2]) else edge[1]
                    if ent != q.ent:
                        why = why or "%s belongs to %s and is computed on the rows of %s" % (q.name, q.ent, ent)
                if q.name not in where:
                    why = why or "%s is not computed" % q.name
        ctx.ob("placed", w.name, not why, at(f), "the calculation of a %s is not planned: %s" % (w.name, why))


def copied(ctx, p, ws):
    for op in ("copy", "rename"):
        for w in ws:
            h = Kinds(p, ws)
            f = p.cls(w.cls).find_method(op)
            if f is None:
                ctx.ob("copied", "%s of %s" % (op, w.name), False, p.cls(w.cls).loc, "no %s" % op)
                continue
            ctx.unit(f)
            outs, why = outcome(ctx, p, h, f, {f.node.args.args[1].arg: C("new")} if op == "rename" else {}, ("feat", w.name))
            if outs == []:
                continue        # too many paths to decide
            if not why:
                kinds = {v[1] for k, s, v in outs if k == "return" and v[0] == "inst"} | {"nothing" for k, s, v in outs if k == "next" or k == "return" and v == NONE}
                if kinds - {w.cls}:
                    why = "a %s comes out" % sorted(kinds - {w.cls})[0]
            ctx.ob("copied", "%s of %s" % (op, w.name), not why, at(f), "%s of a %s: %s" % (op, w.name, why))


def answers(ctx, p, ws):
    """every question a feature answers"""
    fb = p.cls("FeatureBase")
    asks = ["get_name", "get_feature_names", "unique_name", "get_dependencies", "get_depth", "hash", "get_arguments", "to_dictionary", "relationship_path_name",
            "variable_type", "default_value", "number_output_features", "entity", "__repr__"]
    for a in asks:
        ctx.need(fb.find_method(a) is not None, "FeatureBase.%s" % a)
        for w in ws:
            f = p.cls(w.cls).find_method(a)
            h = Kinds(p, ws, shallow=a in ("get_name", "get_feature_names", "get_dependencies"))
            h.root = f
            outs, why = outcome(ctx, p, h, f, {}, ("feat", w.name))
            if outs == []:
                continue        # too many paths to decide
            if not why and any(k == "next" or k == "return" and v == NONE for k, s, v in outs):
                why = "there is no answer"
            ctx.ob("answers", "%s of %s" % (a, w.name), not why, at(f), "%s of a %s: %s" % (a, w.name, why))


def accepted(ctx, p, ws):
    """kinds of inputs the constructors take"""
    for w in ws:
        if "Bool" in w.name:
            continue
        x = ("feat", w.name)
        rows = [("TransformFeature", {"base_features": ("list", (x,)), "primitive": ("prim", "Absolute", "-")}, w.outs == 1),
                ("GroupByTransformFeature", {"base_features": ("list", (x,)), "primitive": ("prim", "CumSum", "-"), "groupby": ("feat", "g")}, w.outs == 1 and w.ent == "b"),
                ("AggregationFeature", {"base_features": ("list", (x,)), "parent_entity": ("ent", "a"), "primitive": ("prim", "Sum", "-"), "relationship_path": ("path", (("b", "a", False),)),
                                        "where": NONE, "use_previous": NONE}, w.outs == 1 and w.ent == "b"),
                ("AggregationFeature", {"base_features": ("list", (("feat", "v"),)), "parent_entity": ("ent", "a"), "primitive": ("prim", "Sum", "-"), "relationship_path": ("path", (("b", "a", False),)),
                                        "where": x, "use_previous": NONE}, w.outs == 1 and w.ent == "b"),
                ("DirectFeature", {"base_feature": x, "child_entity": ("ent", "b"), "relationship": ("rel", "a", "b")}, w.ent == "a"),
                ("FeatureOutputSlice", {"base_feature": x, "n": C(1)}, w.outs > 1)]
        for i, (cname, args, want) in enumerate(rows):
            if not want:
                continue
            c = p.cls(cname)
            f = c.find_method("__init__")
            ctx.unit(f)
            h = Kinds(p, ws)
            have = {y.arg for y in f.node.args.args}
            outs, why = outcome(ctx, p, h, f, {k: v for k, v in args.items() if k in have}, ("self", cname))
            if outs == []:
                continue        # too many paths to decide
            ctx.ob("accepted", "%s %d of %s" % (cname, i, w.name), outs is not None, at(f), "a %s is not accepted as the input of a %s: %s" % (w.name, cname, why))
    for w in ws:
        if w.outs < 2 or "Bool" in w.name:
            continue
        f = p.cls(w.cls).find_method("__getitem__")
        if f is None:
            ctx.ob("accepted", "output of %s" % w.name, False, at(p.cls(w.cls).find_method("__init__")), "the outputs of a %s cannot be taken" % w.name)
            continue
        ctx.unit(f)
        args = [y.arg for y in f.node.args.args]
        for k in (0, w.outs - 1):
            outs, why = outcome(ctx, p, Kinds(p, ws), f, {args[1]: C(k)}, ("feat", w.name))
            if outs == []:
                continue        # too many paths to decide
            got = [v for o, s, v in outs or () if o == "return"]
            ctx.ob("accepted", "output %d of %s" % (k, w.name), bool(got) and all(o == "return" for o, s, v in outs) and all(v[0] == "inst" and v[1] == "FeatureOutputSlice" for v in got), at(f),
                   "output %d of a %s cannot be taken: %s" % (k, w.name, why or got[:1]))
    f = p.cls("Feature").find_method("__new__")
    ctx.unit(f)
    x, pt, pa = ("feat", "v"), ("prim", "Absolute", "-"), ("prim", "Sum", "-")
    for what, args, want in (("a variable", {}, "IdentityFeature"), ("an entity", {"entity": ("ent", "b")}, "DirectFeature"),
                             ("a transform primitive", {"primitive": pt}, "TransformFeature"), ("a transform primitive class", {"primitive": ("cls", "Absolute")}, "TransformFeature"),
                             ("a transform primitive and a group", {"primitive": pt, "groupby": ("feat", "g")}, "GroupByTransformFeature"),
                             ("an aggregation primitive", {"primitive": pa, "parent_entity": ("ent", "a")}, "AggregationFeature"),
                             ("an aggregation primitive class", {"primitive": ("cls", "Sum"), "parent_entity": ("ent", "a")}, "AggregationFeature")):
        names = [y.arg for y in f.node.args.args]
        env = {n: NONE for n in names[2:]}
        env.update({names[1]: x})
        env.update(args)
        h = Kinds(p, ws)
        outs, why = outcome(ctx, p, h, f, env, ("cls", "Feature"))
        if outs == []:
            continue        # too many paths to decide
        got = {v[1] if v[0] == "inst" else v for k, s, v in outs or () if k != "raise"}
        ctx.ob("accepted", "Feature of %s" % what, got == {want} and not (outs and any(k == "raise" for k, s, v in outs)), at(f), "Feature given %s makes %s instead of a %s: %s" % (what, sorted(got, key=repr), want, why))


def categorized(ctx, p, ws):
    """the primitives in use are collected through every kind"""
    m = p.modules.get("featuretools.synthesis.dfs")
    ctx.need(m is not None, "module of dfs")
    cands = [f for f in p.functions if f.module is m and f.name == "_categorize_features"]
    for f in cands[:1]:
        ctx.unit(f)
        for w in ws:
            h = Kinds(p, ws)
            outs, why = outcome(ctx, p, h, f, {f.node.args.args[0].arg: ("list", (("feat", w.name),))})
            if outs == []:
                continue        # too many paths to decide
            for k, s, v in outs or ():
                if k != "return" or why:
                    continue
                got = set()
                for x in walk(v):
                    if x[0] == "sref":
                        got |= {y[1] for y in s.env["@@" + x[1]][1] if y[0] == "pname"}
                lost = [q.name for q in [w] + w.deep() if q.prim != "PrimitiveBase" and q.n is None and q.name not in got]
                why = "the primitive of its input %s is left out" % lost[0] if lost else ""
            ctx.ob("categorized", w.name, not why, at(f), "the primitives of a %s are not collected: %s" % (w.name, why))
