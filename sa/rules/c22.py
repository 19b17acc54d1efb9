"""Equality and hashing are consistent and complete.  Each __eq__ is run by the path-sensitive interpreter; on every path on which two
objects come out equal, every part that defines them has been compared with the same part of the other, nothing is compared one way
only, and the hash uses nothing equality does not compare.  Deep equality reaches the stored rows, and the comparison of rows looks
at the values of every column on every path that calls two frames equal."""
import ast
from ..paths import Paths, Client, TooBig, NONE, has
from .c18 import clean

TECHNIQUE = "path-sensitive dataflow over each __eq__/__hash__: the comparisons established on every path that returns equal, against the defining parts, their mirror image and the parts the hash is made of"
LEVEL_NOTE = "How pandas compares two columns of equal length is not decided here."
MIN_INSTANCES = {"complete": 16, "symmetric": 6, "hash": 3, "data": 3}

PARTS = {"EntitySet": [("entities",), ("relationships",)], "Entity": [("id",), ("index",), ("time_index",), ("secondary_time_index",), ("variables",)],
         "Variable": [("id",), ("entity",), ("type",)], "Relationship": [("parent_entity",), ("child_entity",), ("parent_variable",), ("child_variable",)],
         "RelationshipPath": [("relationships_with_direction",)], "Timedelta": [("times",)]}
DEEP = {"Entity": ["last_time_index", "df"], "Variable": ["interesting_values"]}
ALIAS = {"entity_dict": "entities", "[]": "entities", "data": "df", "variable_types": "variables", "__class__": "type"}
WEAK = ("len", "bool", "type", "keys", "dtype", "shape", "any")
STRONG = ("set", "frozenset", "sorted", "list", "tuple", "dict", "Counter", "hash", "str", "items", "copy", "OrderedDict")


def part(name):
    if name in ALIAS:
        return ALIAS[name]
    n = name.lstrip("_")
    if n.endswith("_id"):
        n = n[:-3]
    return ALIAS.get(n, n)


def root(v, deep=()):
    """(parameter, first part, wrappers) a value is reached from"""
    wrap = []
    while True:
        if v[0] == "param":
            return v[1], None, wrap
        if v[0] in ("attr",):
            if v[1][0] == "param":
                return v[1][1], part(v[2]), wrap
            if v[2] in WEAK:
                wrap.append(v[2])
            v = v[1]
        elif v[0] == "sub":
            if v[1][0] == "param":
                return v[1][1], part("[]"), wrap
            v = v[1]
        elif v[0] == "elem":
            wrap.append("elem")
            v = v[1]
        elif v[0] == "call":
            if v[1] == "type" and v[2] is None and v[3] and v[3][0][0] == "param":
                return v[3][0][1], "type", wrap
            wrap.append(v[1])
            if v[2] is not None and v[2][0] != "name":
                v = v[2]
            elif v[3]:
                v = v[3][0]
            else:
                return None, None, wrap
        elif v[0] == "comp" and len(v) > 1 and isinstance(v[1], tuple) and v[1]:
            v = v[1][0] if isinstance(v[1][0], tuple) else v[1]
        elif v[0] in ("tuple", "list") and v[1]:
            v = v[1][0]
        elif v[0] == "op":
            wrap.append(v[1])
            v = v[2]
        else:
            return None, None, wrap


def comparisons(v):
    """pairs (kind, a, b, term) a condition compares when it holds"""
    out = []
    if v[0] == "cmp" and len(v[1]) == 1:
        a, b = v[2]
        if a[0] in ("tuple", "list") and b[0] == a[0] and len(a[1]) == len(b[1]) and v[1] in (("Eq",), ("Is",)):
            for x, y in zip(a[1], b[1]):
                out.append(("eq", x, y, v))
        elif v[1] in (("Eq",), ("Is",)):
            out.append(("eq", a, b, v))
        elif v[1] == ("In",):
            out.append(("in", a, b, v))
        elif v[1] in (("LtE",), ("GtE",)):
            out.append(("in", a, b, v))
    elif v[0] == "call":
        name, recv, args = v[1], v[2], v[3]
        if name in ("all", "bool") and recv is None and args:
            for x in args[0][1] if args[0][0] in ("list", "tuple", "set") else (args[0],):
                out += comparisons(x)
        elif name == "all" and recv is not None:
            out += comparisons(recv)
        elif name in ("__eq__", "equals", "eq") and recv is not None and args:
            out.append(("eq", recv, args[0], v))
        elif name in ("issubset", "issuperset") and args:
            out.append(("in", recv, args[0], v))
        elif recv is None and len(args) >= 2 and name not in ("isinstance", "hasattr", "getattr"):
            out.append(("eq", args[0], args[1], v))
    elif v[0] == "comp":
        for x in v[1] if isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else (v[1],):
            out += comparisons(x)
    elif v[0] == "op" and v[1] == "And":
        out += comparisons(v[2]) + comparisons(v[3])
    return out


class Eq(Client):
    max_depth = 4

    def __init__(self, me, other):
        self.me, self.other = me, other

    def elements(self, val, st):
        r = root(val)
        if r[0] in (self.me, self.other) or val[0] in ("call", "dict", "comp"):
            return [("elem", val)]
        return None

    def enter(self, fi):
        return fi.name not in ("__getitem__", "is_instance", "__eq__")

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if name in ("isinstance", "type", "len", "set", "hash"):
            return [("next", st, ("call", name, recv, args, kws, ""))]
        rs = [root(a) for a in args]
        if len([r for r in rs if r[1] == "df"]) >= 2:
            return [("next", st, ("call", name, recv, args, kws, ""))]
        return None


def inner(v):
    while v[0] == "call" and v[3] or v[0] in ("elem", "sub"):
        v = (v[3][0] if v[2] is None or v[2][0] == "name" else v[2]) if v[0] == "call" else v[1]
    return v


def refuted(v):
    """what a condition that does not hold says is equal"""
    while v[0] == "call" and v[1] == "bool" and v[3]:
        v = v[3][0]
    if v[0] == "call" and v[1] == "any":
        x = v[2] if v[2] is not None else v[3][0] if v[3] else v
        if x[0] == "cmp" and x[1] == ("NotEq",):
            return [("eq", x[2][0], x[2][1], v)]
    if v[0] == "cmp" and v[1] == ("NotEq",):
        return [("eq", v[2][0], v[2][1], v)]
    if v[0] == "call" and v[1] in ("__ne__", "ne") and v[2] is not None and v[3]:
        return [("eq", v[2], v[3][0], v)]
    return []


def infeasible(conds):
    for c, b in conds.items():
        if c[0] == "cmp" and c[1] == ("Eq",):
            x, y = [conds.get(z) for z in c[2]]
            if x is not None and y is not None and (x == y) != b:
                return True
    return False


def equal_paths(outs):
    """(conditions, trace) of every path that says equal, the returned expression being true"""
    r = []
    for k, st, v in outs:
        if k not in ("return", "next"):
            continue
        v = clean(v)
        conds = {clean(c): b for c, b in st.conds.items()}
        if v == ("const", "False") or v == NONE or v == ("name", "NotImplemented"):
            continue
        b = True
        while v[0] == "call" and v[1] in ("all", "bool") and v[2] is None and v[3] and (v[1] == "bool" or v[3][0][0] == "list" and len(v[3][0][1]) == 1):
            v = v[3][0][1][0] if v[1] == "all" else v[3][0]
        if v == ("const", "False"):
            continue
        while v[0] == "op" and v[1] == "Not":
            v, b = v[2], not b
        if v[0] == "cmp" and v[1] == ("NotEq",):
            v, b = ("cmp", ("Eq",), v[2]), not b
        if v != ("const", "True"):
            if conds.get(v, b) != b:
                continue
            conds[v] = b
        if not infeasible(conds):
            r.append(conds)
    return r


def check(ctx):
    p = ctx.p
    for cname in sorted(PARTS):
        c = p.cls(cname)
        if c is None or "__eq__" not in {f.name for f in p.functions if f.cls is c}:
            ctx.stats.setdefault("no __eq__", []).append(cname)
            continue
        f = c.find_method("__eq__")
        ctx.unit(f)
        names = [a.arg for a in f.node.args.args]
        me, other = names[0], names[1]
        deepn = names[2] if len(names) > 2 else None
        try:
            outs = Paths(p, Eq(me, other), budget=300000).run(f.module, f.node, f)
        except TooBig:
            ctx.stats.setdefault("too large", []).append(f.qual)
            continue
        paths = equal_paths(outs)
        ctx.need(paths, "a path of %s that says equal" % f.qual)
        got = []
        for conds in paths:
            s, deep_s, oneway, crossed, lens, narrow, eqdeep = set(), set(), set(), None, set(), None, False
            same = any(b and (cc == ("cmp", ("Is",), (("param", me), ("param", other))) or cc == ("cmp", ("Is",), (("param", other), ("param", me)))) for cc, b in conds.items())
            for cc, b in conds.items():
                if cc[0] == "call" and cc[1] == "isinstance" and cc[3][0] == ("param", other) and b:
                    k = cc[3][1]
                    if has(k, lambda z: z == ("attr", ("param", me), "__class__") or z[0] == "call" and z[1] == "type" and z[3] == (("param", me),)):
                        s.add("type?")
                        if subclasses(p, c):
                            narrow = True
                for kind, x, y, t in comparisons(cc) if b else refuted(cc):
                    (r1, p1, w1), (r2, p2, w2) = root(x), root(y)
                    if t[0] == "call" and t[1] == "__eq__" and deepn is not None:
                        dv = dict(t[4]).get("deep", t[3][1] if len(t[3]) > 1 else None)
                        ok = dv == ("const", "True") or dv == ("param", deepn)
                        if ok:
                            eqdeep = True
                            if p1 is not None:
                                deep_s.add(p1)
                    if r1 is None or r2 is None or r1 == r2 or p1 is None or p2 is None:
                        continue
                    if kind == "in":
                        oneway.add((p1, r1))
                        continue
                    weak = [w for w in w1 + w2 if w in WEAK]
                    if p1 != p2:
                        crossed = (p1, p2)
                        continue
                    keyed = any(z[0] == "attr" and z[2] == "entity_dict" for z in (inner(x), inner(y))) and "elem" not in w1 + w2 and "items" not in w1 + w2 and (w1 or w2)
                    if weak and not (p1 == "type") or keyed:
                        if "len" in weak or "keys" in weak or keyed:
                            lens.add(p1)
                        continue
                    s.add(p1)
                    if "elem" in w1 + w2:
                        oneway.add((p1, r1 if "elem" in w1 else r2))
                    else:
                        lens.add(p1)
            got.append((conds, s, deep_s, oneway, crossed, lens, narrow, eqdeep, same))
        real = [g for g in got if not g[8]]
        for (pt,) in PARTS[cname]:
            # membership both ways, or one way with equal numbers, compares a collection of whole values
            bad = [g for g in real if not (pt in g[1] or pt != "entities" and any(o[0] == pt for o in g[3]) or pt == "type" and "type?" in g[1])]
            ctx.ob("complete", "%s %s" % (cname, pt), not bad, f.loc, "two objects with different %s can compare equal" % pt)
        for pt in DEEP.get(cname, ()):
            bad = [g for g in real if g[0].get(("param", deepn)) is not False and not (pt in g[1] or both_none(g[0], me, other, pt))]
            ctx.ob("complete", "%s %s (deep)" % (cname, pt), not bad and deepn is not None, f.loc, "objects with different %s can be deeply equal" % pt)
        if cname in ("Entity", "EntitySet"):
            bad = [g for g in real if g[0].get(("param", deepn)) is not False and not (g[7] or "interesting_values" in g[1])]
            ctx.ob("complete", "%s members (deep)" % cname, not bad and deepn is not None, f.loc, "deep equality compares the members only shallowly")
        asym = None
        for g in real:
            for pt, who in g[3]:
                if pt not in g[5] and not any(o[0] == pt and o[1] != who for o in g[3]):
                    asym = "what is in %s of one is only looked for in the other" % pt
            if g[4]:
                asym = "%s of one is compared with %s of the other" % g[4]
            if g[6] and "type" not in g[1]:
                asym = "an object of a subclass equals one of its base class, but not the other way round"
        ctx.ob("symmetric", cname, asym is None, f.loc, asym or "")
        hashes(ctx, p, c, cname, f, real)
    data(ctx, p)


def subclasses(p, c):
    return [x for cs in p.classes.values() for x in cs if x is not c and c in list(x.mro())]


def both_none(conds, me, other, pt):
    def none(who):
        return any(b and cc[0] == "cmp" and cc[1] == ("Is",) and cc[2][1] == NONE and root(cc[2][0])[:2] == (who, pt) for cc, b in conds.items())
    linked = any(b and cc[0] == "cmp" and cc[1] == ("Eq",) and all(z[0] == "cmp" and z[1] == ("Is",) and z[2][1] == NONE and root(z[2][0])[1] == pt for z in cc[2]) for cc, b in conds.items())
    return none(me) and none(other) or linked and (none(me) or none(other))


def hashes(ctx, p, c, cname, eqf, real):
    hf = [f for f in p.functions if f.cls is c and f.name == "__hash__"]
    if not hf:
        for s in c.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__hash__" for t in s.targets):
                ok = isinstance(s.value, ast.Constant) and s.value.value is None
                ctx.ob("hash", cname, ok, "%s:%d" % (c.module.rel if hasattr(c.module, "rel") else "", s.lineno), "the hash does not come from what equality compares")
        return
    f = hf[0]
    ctx.unit(f)
    bad = None
    common = None
    for g in real:
        common = set(g[1]) if common is None else common & g[1]
    for k, st, v in Paths(p, Eq("self", "other"), budget=30000).run(f.module, f.node, f):
        if k != "return":
            continue
        v = clean(v)
        if has(v, lambda z: z[0] == "call" and z[1] in ("id", "random", "time", "uuid4", "__hash__") and z[2] is None):
            bad = "it uses the identity of an object"
        used = set()
        parts_of(v, used)
        for u in used:
            if u not in (common or set()) and not (u == "type" and "type?" in (common or set())):
                bad = "it uses %s, which equality does not compare" % (u or "the object itself")
    ctx.ob("hash", cname, bad is None, f.loc, "objects that compare equal can have different hashes: %s" % bad)


def parts_of(v, out):
    if not isinstance(v, tuple):
        return
    if v and v[0] == "attr" and v[1] == ("param", "self"):
        out.add(part(v[2]))
        return
    if v and v[0] == "call" and v[1] == "type" and v[3] == (("param", "self"),):
        out.add("type")
        return
    if v == ("param", "self"):
        out.add(None)
        return
    for x in v:
        parts_of(x, out)


# ---- rows ----------------------------------------------------------------------------
class Frames(Client):
    max_depth = 5
    loops = 1

    def __init__(self, a, b):
        self.a, self.b = ("param", a), ("param", b)

    def enter(self, fi):
        return fi.name not in ("is_instance",)

    def elements(self, val, st):
        if has(val, lambda z: z in (self.a, self.b)):
            return [("elem", val)]
        return None

    def attribute(self, paths, e, base, st):
        if e.attr in ("dtype", "dtypes"):
            # what the columns are made of does not matter here: both ways
            return [(st, ("any",))]
        return None

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if name == "isinstance" or name == "is_instance":
            return [("next", st, ("any",))]
        if recv is not None and name in ("compute", "to_pandas", "copy", "reset_index", "astype", "dropna", "to_numpy", "fillna", "sort_index", "persist"):
            return [("next", st, recv)]
        return None


def data(ctx, p):
    c = p.cls("Entity")
    f = c.find_method("__eq__")
    tgt = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and len(x.args) >= 2:
            r = f.module.symbols.get(x.func.id)
            if r is not None and r[0] == "func" and all(any(isinstance(y, ast.Attribute) and y.attr == "df" for y in ast.walk(a)) for a in x.args[:2]):
                tgt = r[1]
    if tgt is None:
        # helper methods
        cands = [g for g in p.functions if g.name == "_dataframes_equal"]
        tgt = cands[0] if cands else None
    if tgt is None:
        ctx.stats["row comparison"] = "not found"
        return
    ctx.unit(tgt)
    a, b = [x.arg for x in tgt.node.args.args][:2]
    A, B = ("param", a), ("param", b)
    client = Frames(a, b)
    try:
        outs = Paths(p, client, budget=600000).run(tgt.module, tgt.node, tgt)
    except TooBig:
        ctx.stats.setdefault("too large", []).append(tgt.qual)
        return
    n, rows, cols, vals, over = 0, None, None, None, None
    for conds, trace in with_trace(outs):
        n += 1
        facts = []
        for cc, b_ in conds.items():
            facts += comparisons(cc) if b_ else refuted(cc)
        whole = any(k == "eq" and {strip(x), strip(y)} == {A, B} for k, x, y, t in facts)
        r = c_ = v = whole
        for k, x, y, t in facts:
            if k != "eq":
                continue
            wx = chain(x, A, B)
            if about(x, A) and about(y, B) or about(x, B) and about(y, A):
                if measures(x, A, B) and measures(y, A, B):
                    r = True
                elif names(x, A, B) and names(y, A, B):
                    c_ = True
                elif "isnull" in wx or "isna" in wx or "notnull" in wx or "notna" in wx:
                    pass
                else:
                    v = True
        empty = any(b_ is False and measures(cc, A, B) or b_ and cc[0] == "attr" and cc[2] == "empty" or b_ and cc[0] == "cmp" and ("const", "0") in cc[2] and any(measures(z, A, B) for z in cc[2]) for cc, b_ in conds.items())
        if not r and not empty:
            rows = True
        if not c_ and not empty:
            cols = True
        if not v and not empty:
            vals = True
        # values of the comparison set to equal afterwards
        for e in trace:
            if e[0] == "setitem" and clean(e[3]) == ("const", "True"):
                m = clean(e[2])
                if not both_null(m):
                    over = True
    ctx.need(n, "a path of %s that says equal" % tgt.qual)
    ctx.stats["paths of the row comparison"] = n
    ctx.ob("data", "number of rows", not rows, tgt.loc, "frames can come out equal without their number of rows having been compared")
    ctx.ob("data", "columns", not cols, tgt.loc, "frames can come out equal without their columns having been compared")
    ctx.ob("data", "values", not vals, tgt.loc, "frames that are not empty can come out equal without their values having been compared")
    ctx.ob("data", "missing values", not over, tgt.loc, "rows are declared equal although they are not both missing")


def with_trace(outs):
    for k, st, v in outs:
        if k not in ("return", "next"):
            continue
        for conds in equal_paths([(k, st, v)]):
            yield conds, st.trace


def strip(v):
    while v[0] == "call" and v[2] is not None and v[1] in ("copy", "compute"):
        v = v[2]
    return v


def about(v, A):
    """reached from the frame A"""
    while True:
        if v == A:
            return True
        if v[0] in ("attr", "sub"):
            v = v[1]
        elif v[0] == "elem":
            v = v[1]
        elif v[0] == "call":
            if v[2] is not None and v[2][0] != "name":
                v = v[2]
            elif v[3]:
                v = v[3][0]
            else:
                return False
        elif v[0] == "op":
            v = v[2]
        else:
            return False


def chain(v, A, B):
    """the operations between the frame and the value"""
    r = set()
    while v not in (A, B):
        if v[0] in ("attr", "sub"):
            if v[0] == "attr":
                r.add(v[2])
            v = v[1]
        elif v[0] == "elem":
            v = v[1]
        elif v[0] == "call":
            r.add(v[1])
            v = v[2] if v[2] is not None and v[2][0] != "name" else v[3][0] if v[3] else A
        elif v[0] == "op":
            v = v[2]
        else:
            break
    return r


def measures(v, A, B):
    """the number of rows"""
    while v[0] == "call" and v[1] in ("bool", "int") and v[3]:
        v = v[3][0]
    if v[0] == "call" and v[1] == "len" and v[3]:
        w = v[3][0]
        return w in (A, B) or w[0] == "attr" and w[1] in (A, B) and w[2] in ("index",)
    if v[0] == "sub" and v[1][0] == "attr" and v[1][2] == "shape" and v[1][1] in (A, B):
        return v[2] == ("const", "0")
    return v[0] == "attr" and v[2] == "shape" and v[1] in (A, B)


def names(v, A, B):
    """the column names"""
    c = chain(v, A, B)
    while v[0] == "call" and v[1] in ("set", "sorted", "list", "tuple", "frozenset") and v[3]:
        v = v[3][0]
    return "columns" in c or v in (A, B)


def both_null(m):
    """a mask that holds only where both are missing"""
    def nulls(x):
        r = set()
        has(x, lambda z: r.add(repr(z[3] or z[2])) if z[0] == "call" and z[1] in ("isnull", "isna") else False)
        return r
    if m[0] == "op" and m[1] in ("BitAnd", "And", "Mult"):
        return len(nulls(m[2]) | nulls(m[3])) >= 2
    if m[0] == "call" and m[1] in ("logical_and", "bitwise_and"):
        return len(set().union(*[nulls(x) for x in m[3]])) >= 2
    return False
