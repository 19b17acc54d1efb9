"""Names select classes.  The registries are evaluated class by class: every built-in primitive has a non-empty literal name
that no other built-in primitive shares (ignoring case), is reachable as a member of featuretools.primitives, and belongs
to the registry of its kind under the lower-case form of its name; user-given names are looked up in that form; the
deserializer identifies a class by both its name and its module among all descendants of the base class.  Every variable
type has its own type string (the class-name conversion is folded over its constant patterns), the registry contains it
under that string, the entity's string lookup covers all of them and the fallback exists.  Every variable type's default
dtype is a key of the default-value table whose value is of the kind the time-type check needs, and no variable type
that the conversion loop hands to the converter reaches its "cannot convert" error."""
import ast
import itertools
import re
from ..flow import Engine, mk, is_const, cval, contains, walk, identity, show, alts, NONE
from ..index import AnalysisBroken, ClassInfo, dotted
from ..prims import primitives, kind, resolve_value
from ..norm import strip_copy, loop_build

TECHNIQUE = "evaluation of registry comprehensions, tables and conversion guards for every class of the analysed package"
LEVEL_NOTE = "Covers the classes defined in the package; classes that users define are outside it."
MIN_INSTANCES = {"prim-name": 60, "prim-reachable": 60, "prim-registry": 60, "lookup": 2, "deserialize": 2, "descendants": 2,
                 "type-string": 20, "type-registry": 20, "entity-types": 20, "fallback": 2, "default": 20, "convert": 20}

UNK = object()


def str_const(p, c, n):
    if n is None:
        return None
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = str_const(p, c, n.left), str_const(p, c, n.right)
        return a + b if isinstance(a, str) and isinstance(b, str) else None
    if isinstance(n, ast.JoinedStr):
        parts = [str_const(p, c, v.value if isinstance(v, ast.FormattedValue) else v) for v in n.values]
        return "".join(parts) if all(isinstance(x, str) for x in parts) else None
    if isinstance(n, (ast.Name, ast.Attribute)):
        v = resolve_value(p, c, n)
        return None if v is None or v is n else str_const(p, c, v)
    return None


class Fold(object):
    """value of a term when `hole` (a predicate on terms) stands for class c"""
    def __init__(self, p, c, hole, type_string=None):
        self.p, self.c, self.hole, self.ts = p, c, hole, type_string
        self.env = {}           # loop elements of a literal sequence -> the element considered

    def project(self, t):
        """element of a literal sequence chosen by a constant position"""
        if t in self.env:
            return self.env[t]
        if t.k == "item" and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
            o = self.project(t.a[0])
            if o.k in ("tuple", "list") and -len(o.a[1]) <= cval(t.a[1]) < len(o.a[1]):
                return o.a[1][cval(t.a[1])]
        return t

    def val(self, t):
        t = self.project(identity(t))
        if t.k == "const":
            return cval(t)
        if t.k == "cls":
            return t.a[0]
        if self.hole(t):
            return self.c
        if t.k in ("tuple", "list", "set"):
            vs = [self.val(x) for x in (t.a[1] or ())]
            return UNK if any(v is UNK for v in vs) else tuple(vs)
        if t.k == "attr":
            o = self.val(t.a[0])
            return self.member(o, t.a[1])
        if t.k == "clsattr":
            return self.clsattr(t)
        if t.k == "call" and t.a[0] == "getattr" and len(t.a[1]) >= 2 and is_const(t.a[1][1]):
            return self.member(self.val(t.a[1][0]), cval(t.a[1][1]))
        if t.k == "mcall" and t.a[1] in ("lower", "upper", "strip", "title", "capitalize", "casefold") and not t.a[2]:
            s = self.val(t.a[0])
            return getattr(s, t.a[1])() if isinstance(s, str) else UNK
        if t.k == "call" and t.a[0] in ("str.lower", "str.upper", "str") and len(t.a[1]) == 1:
            s = self.val(t.a[1][0])
            return (s.upper() if t.a[0] == "str.upper" else s.lower() if t.a[0] == "str.lower" else s) if isinstance(s, str) else UNK
        if t.k == "ite":
            b = self.bool(t.a[0])
            return UNK if b is UNK else self.val(t.a[1] if b else t.a[2])
        if t.k == "phi":
            vs = [self.val(x) for x in t.a[0]]
            return vs[0] if vs and all(v is vs[0] or (not isinstance(v, tuple) and v == vs[0]) for v in vs) else UNK
        b = self.bool(t, top=False)
        return b

    def member(self, o, name):
        if not isinstance(o, ClassInfo):
            return UNK
        if name == "__name__":
            return o.name
        if name == "__module__":
            return o.module.name
        if name == "type_string" and self.ts is not None and self.ts.get(o.qual) is not None:
            return self.ts[o.qual]
        r = o.find_attr(name)
        if r is None:
            return UNK
        v = str_const(self.p, r[0], r[1])
        return v if isinstance(v, str) or isinstance(r[1], ast.Constant) else UNK

    def clsattr(self, t):
        c = t.a[0]
        if isinstance(c, ClassInfo) and self.ts is not None and len(t.a) > 1:
            r = c.find_attr("type_string")
            if r is not None and any(x is r[1] for x in t.a):
                return self.ts.get(c.qual, UNK)
        if isinstance(c, ClassInfo):
            for x in t.a[1:]:
                if isinstance(x, ast.AST):
                    s = str_const(self.p, c, x)
                    return s if isinstance(s, str) else UNK
        return UNK

    def bool(self, t, top=True):
        t = identity(t)
        if t.k == "bool":
            vs = [self.bool(x) for x in t.a[1]]
            if t.a[0] == "and":
                return False if any(v is False for v in vs) else UNK if any(v is UNK for v in vs) else True
            return True if any(v is True for v in vs) else UNK if any(v is UNK for v in vs) else False
        if t.k == "not":
            v = self.bool(t.a[0])
            return UNK if v is UNK else not v
        if t.k == "call" and t.a[0].split(".")[-1] == "isclass":
            return True if isinstance(self.val(t.a[1][0]), ClassInfo) else UNK
        if t.k == "call" and t.a[0] == "isinstance" and len(t.a[1]) == 2:
            o = self.val(t.a[1][0])
            if isinstance(o, ClassInfo) and t.a[1][1].k in ("glob", "ext", "builtin") and show(t.a[1][1]) == "type":
                return True
            return UNK
        if t.k == "call" and t.a[0] == "issubclass" and len(t.a[1]) == 2:
            o, b = self.val(t.a[1][0]), self.val(t.a[1][1])
            if isinstance(o, ClassInfo) and t.a[1][1].k == "phi":       # one of several classes, depending on the loop step
                ms = [self.val(x) for x in t.a[1][1].a[0]]
                if all(isinstance(x, ClassInfo) for x in ms):
                    rs = {x in o.mro() for x in ms}
                    return rs.pop() if len(rs) == 1 else UNK
            if isinstance(o, ClassInfo) and b is not UNK:
                bs = b if isinstance(b, tuple) else (b,)
                if all(isinstance(x, ClassInfo) for x in bs):
                    return any(x in o.mro() for x in bs)
            return UNK
        if t.k == "call" and t.a[0] == "hasattr" and len(t.a[1]) == 2 and is_const(t.a[1][1]):
            o = self.val(t.a[1][0])
            return o.find_attr(cval(t.a[1][1])) is not None if isinstance(o, ClassInfo) else UNK
        if t.k == "cmp":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if a is UNK or b is UNK:
                return UNK
            op = t.a[0]
            if op in ("==", "is"):
                return a == b
            if op in ("!=", "is not"):
                return a != b
            if op in ("in", "not in") and isinstance(b, (tuple, str)):
                return (a in b) == (op == "in")
            return UNK
        if t.k in ("call", "mcall") and not top:
            return UNK
        if top:
            v = self.val(t)
            return UNK if v is UNK else bool(v)
        return UNK


def flatten(t, depth=0):
    """(element term, source term, conditions) of a set/list/dict built by filtering one source; dict elements are tuples"""
    t = strip_copy(t, ("list", "tuple", "iter", "set", "frozenset", "sorted", "dict"))
    if t.k in ("phi", "ite"):
        b = loop_build(t)
        if b is None:
            return None
        t = b
    if t.k == "gen" and depth < 4:
        return None
    if t.k == "comp" and len(t.a[2]) == 1:
        g = t.a[2][0]
        return t.a[1], g.a[0], list(g.a[1])
    if t.k == "upd":
        return None
    return None


def registry(t, depth=0):
    """all filters between the ultimate source and the registry: (key, value, [(conditions, element)], source)"""
    f = flatten(t)
    if f is None:
        return None
    elt, src, conds = f
    key, val = (elt.a[1][0], elt.a[1][1]) if elt.k == "tuple" and t.k != "set" and len(elt.a[1]) == 2 else (None, elt)
    chain = [(mk("elem", src), conds)]
    for _ in range(5):
        g = flatten(src)
        if g is None:
            break
        elt2, src2, conds2 = g
        chain.append((elt2, conds2))
        src = src2
    return key, val, chain, src


def need(ctx, x, what):
    if x is None:
        raise AnalysisBroken("%s not found" % what)
    return x


def one(p, name, cls=None):
    if cls:
        c = p.cls(cls)
        return c.find_method(name)
    fs = [f for f in p.func_by_name(name) if f.cls is None]
    return fs[0] if fs else None


def engine(p, fi, stop=()):
    e = Engine(p, inline=lambda g: g.name not in stop)
    return e, e.run(fi)


def is_class_hole(src_pred):
    """terms standing for one element of the registry's source: elem(source) or getattr(module, elem(dir(module)))"""
    def pred(t):
        if t.k == "elem" or t.k == "valof":
            return True
        if t.k == "call" and t.a[0] == "getattr" and len(t.a[1]) in (2, 3) and t.a[1][1].k in ("elem", "keyof"):
            return True
        if t.k == "item" and t.a[1].k in ("elem", "keyof"):
            return True
        return False
    return pred


def strip_guard(cs):
    return [c for c in cs if c.k not in ("inloop", "intry")]


def check_primitives(ctx, p):
    prims = [c for c in primitives(p) if kind(c)]
    seen, mods = {}, p.modules["featuretools.primitives"]
    by_class = {}
    for c in prims:
        ctx.unit("primitive:%s" % c.name)
        a = c.find_attr("name")
        own = c.attrs.get("name")
        n = str_const(p, a[0], a[1]) if a else None
        if a and a[1] is not None and n is None and not isinstance(a[1], ast.Constant):
            ctx.ob("prim-name", c.name, False, c.loc, "the name of this primitive is not a constant string")
            continue
        abstract = not any(c.find_method(m) and c.find_method(m).cls is not None and c.find_method(m).cls.name not in ("PrimitiveBase", "AggregationPrimitive", "TransformPrimitive")
                           for m in ("get_function",))
        if not n and (abstract or p.subclasses(c.name)):
            continue
        ctx.ob("prim-name", c.name, isinstance(n, str) and bool(n), c.loc, "a built-in primitive without a name cannot be selected by name")
        if not isinstance(n, str):
            continue
        k = n.lower()
        o = seen.get(k)
        ctx.ob("prim-name", "%s/unique" % c.name, o is None, c.loc, "primitive name %r is also the name of %s: a name given by a user selects only one of them" % (n, o.name if o else ""))
        seen[k] = c
        o = by_class.get((c.name, c.module.name))
        ctx.ob("prim-name", "%s/class" % c.name, o is None, c.loc, "two primitive classes in one module share a class name, so a saved file cannot tell them apart")
        by_class[(c.name, c.module.name)] = c
        r = p.lookup(mods, c.name)
        ctx.ob("prim-reachable", c.name, r is not None and r[0] == "class" and r[1] is c, c.loc,
               "featuretools.primitives.%s is not this class, so the registries and users do not find it" % c.name)
    for fn, base in (("get_aggregation_primitives", "aggregation"), ("get_transform_primitives", "transform")):
        fi = p.public(fn, "featuretools.primitives")
        e, r = engine(p, fi, ())
        reg = registry(r)
        if reg is None:
            raise AnalysisBroken("%s is not built from one enumeration" % fn)
        key, val, chain, src = reg
        for ev in e.events:
            # a loop over an already filtered collection: the engine's element of it has lost the filter
            if ev.kind == "setitem" and ev.d.get("value") is val and ev.d.get("key") is key:
                for g, pol in ev.guards:
                    s = g.a[0] if g.k == "inloop" else None
                    for _ in range(5):
                        f = flatten(s) if s is not None else None
                        if f is None:
                            break
                        chain.append((f[0], f[2]))
                        s = f[1]
        ok_src = contains(src, lambda x: (x.k == "call" and x.a[0] in ("dir", "vars", "inspect.getmembers")) or (x.k == "attr" and x.a[1] == "__dict__")
                          or (x.k == "pcall" and getattr(x.a[0], "name", "") == "find_descendents") or (x.k == "gen")) and \
            (contains(src, lambda x: x.k in ("mod", "glob", "attr") and "primitives" in show(x)) or contains(src, lambda x: x.k == "cls"))
        ctx.ob("prim-registry", "%s source" % fn, ok_src, fi.loc, "the registry is not built from the members of featuretools.primitives")
        hole = is_class_hole(src)
        for c in prims:
            n = str_const(p, *(lambda a: (a[0], a[1]))(c.find_attr("name"))) if c.find_attr("name") else None
            if not isinstance(n, str) or not n:
                continue
            f = Fold(p, c, hole)
            conds = [x for _, cs in chain for x in strip_guard(cs)]
            vs = [f.bool(x) for x in conds]
            v = False if any(x is False for x in vs) else UNK if any(x is UNK for x in vs) else True
            want = kind(c) == base
            bad = conds[[i for i, x in enumerate(vs) if (x is False if want else True)][0]] if vs and v is not want and [i for i, x in enumerate(vs) if (x is False if want else True)] else None
            if want:
                ctx.ob("prim-registry", "%s[%s]" % (fn, c.name), v is True, fi.loc,
                       "%s is not always in this registry%s" % (c.name, " (condition %s)" % show(bad)[:120] if bad is not None else ""))
                kv, vv = f.val(key) if key is not None else UNK, f.val(val)
                ctx.ob("prim-registry", "%s key[%s]" % (fn, c.name), kv == n.lower() and vv is c, fi.loc,
                       "%s is registered under %r, user-given names are looked up as %r" % (c.name, kv if kv is not UNK else show(key)[:80] if key is not None else None, n.lower()))
            else:
                ctx.ob("prim-registry", "%s[not %s]" % (fn, c.name), v is False, fi.loc, "%s is of the other kind but is put in this registry" % c.name)
    # lookups of user-given names
    n = 0
    for fi in p.all_functions():
        if not fi.module.name.startswith("featuretools.synthesis"):
            continue
        src = ast.get_source_segment(fi.module.src, fi.node) or ""
        if "_primitives()" not in src:
            continue
        e = Engine(p, inline=lambda g: False)
        try:
            e.run(fi)
        except AnalysisBroken:
            continue
        isreg = lambda t: t.k == "pcall" and getattr(t.a[0], "name", "") in ("get_aggregation_primitives", "get_transform_primitives")
        isregs = lambda t: any(isreg(identity(x)) for x in alts(t))
        got = set()
        for ev in e.events:
            for t in [x for x in ev.d.values() if hasattr(x, "k")]:
                for x in walk(t):
                    k = None
                    if x.k == "item" and isregs(x.a[0]):
                        k = x.a[1]
                    elif x.k == "mcall" and x.a[1] in ("get", "pop", "__getitem__") and isregs(x.a[0]) and x.a[2]:
                        k = x.a[2][0]
                    if k is not None:
                        got.add((k, ev.loc))
            if ev.kind in ("call",) and ev.d.get("name") in ("get",) and ev.d.get("recv") is not None and isregs(ev.d["recv"]) and ev.d.get("args"):
                got.add((ev.d["args"][0], ev.loc))
            if ev.kind in ("getitem", "item") and ev.d.get("recv") is not None and isregs(ev.d["recv"]):
                got.add((ev.d["key"], ev.loc))
        for k, loc in sorted(got, key=lambda z: z[1]):
            n += 1
            low = contains(k, lambda x: x.k == "mcall" and x.a[1] in ("lower", "casefold") or x.k == "attr" and x.a[1] in ("lower", "casefold") or
                           x.k == "call" and x.a[0] == "str.lower")
            ctx.ob("lookup", "%s[%s]" % (fi.qual, show(k)[:40]), low, loc, "a primitive name given by the user is looked up as %s, the registry is keyed by lower-case names" % show(k)[:60])
    # deserializer
    pd = need(ctx, one(p, "deserialize_primitive", "PrimitivesDeserializer"), "PrimitivesDeserializer.deserialize_primitive")
    e = Engine(p, inline=lambda g: g.module is pd.module, max_depth=6)
    e.run(pd)
    used = set()
    for ev in e.events:
        if ev.kind in ("cmp", "getitem", "setitem", "call", "item"):
            for t in list(ev.d.values()):
                if hasattr(t, "k"):
                    for x in walk(t):
                        if x.k == "cmp" and x.a[0] in ("==", "in") or ev.kind in ("setitem",):
                            for y in walk(x):
                                if y.k == "attr" and y.a[1] in ("__name__", "__module__", "__qualname__"):
                                    used.add(y.a[1])
    written, read = set(), set()
    sp = one(p, "serialize_primitive")
    if sp is not None:
        e2 = Engine(p, inline=lambda g: False)
        r2 = e2.run(sp)
        for x in walk(r2):
            if x.k == "attr" and x.a[1] in ("__name__", "__module__", "__qualname__"):
                written.add(x.a[1])
    for part in ("__name__", "__module__"):
        ctx.ob("deserialize", "class %s" % part, part in used and part in written, pd.loc, "saved primitives are not identified by their class's %s when loaded" % part)


def check_descendants(ctx, p):
    fi = one(p, "find_descendents")
    fi = need(ctx, fi, "find_descendents")
    e = Engine(p, inline=lambda g: False)
    r = e.run(fi)
    yields = [ev for ev in e.events if ev.kind in ("yield", "yieldfrom")]
    adds = [ev for ev in e.events if ev.kind == "call" and ev.d.get("name") in ("append", "extend", "add", "insert", "update", "appendleft", "extendleft")]
    recursive = any(ev.kind == "call" and ev.d.get("name") == fi.name for ev in e.events) or any(ev.kind == "call" and ev.d.get("callee") is fi for ev in e.events)
    subs = any(ev.kind == "call" and ev.d.get("name") == "__subclasses__" for ev in e.events)
    worklist = any(isinstance(n, ast.While) for n in ast.walk(fi.node))
    ctx.ob("descendants", "all levels", subs and (recursive or worklist), fi.loc, "only direct subclasses are enumerated, so deeper classes are never found by name")
    for ev in yields + adds:
        conds = [(c, pol) for c, pol in ev.guards if c.k not in ("inloop",)]
        bad = [c for c, pol in conds if not (c.k in ("cmp",) and c.a[0] in ("in", "not in") or c.k in ("phi", "param", "upd", "list", "item", "call"))]
        ctx.ob("descendants", "unfiltered %s" % ev.kind, not bad, ev.loc, "a descendant class is left out when %s" % (show(bad[0])[:100] if bad else ""))


def fold_regex(t, s, name):
    """constant value of the class-name conversion for one class name, or None"""
    t = identity(t)
    if t.k == "param" or t is s:
        return name
    if t.k == "const":
        return cval(t)
    if t.k == "mcall" and t.a[1] in ("lower", "upper") and not t.a[2]:
        v = fold_regex(t.a[0], s, name)
        return getattr(v, t.a[1])() if isinstance(v, str) else None
    if t.k == "call" and t.a[0] == "re.sub" and len(t.a[1]) == 3 and not t.a[2]:
        vs = [fold_regex(x, s, name) for x in t.a[1]]
        return re.sub(*vs) if all(isinstance(v, str) for v in vs) else None
    if t.k == "mcall" and t.a[1] == "sub" and len(t.a[2]) == 2:
        o = identity(t.a[0])
        if o.k == "call" and o.a[0] == "re.compile" and len(o.a[1]) == 1:
            vs = [fold_regex(x, s, name) for x in (o.a[1][0],) + tuple(t.a[2])]
            return re.sub(*vs) if all(isinstance(v, str) for v in vs) else None
    if t.k == "op" and t.a[0] == "+":
        a, b = fold_regex(t.a[1], s, name), fold_regex(t.a[2], s, name)
        return a + b if isinstance(a, str) and isinstance(b, str) else None
    return None


def type_strings(ctx, p, types):
    """ClassInfo.qual -> type string; falls back on the lower-cased class name without underscores"""
    base = p.cls("Variable")
    out = {}
    exact = True
    for c in types:
        r = c.find_attr("type_string")
        if r is not None and r[1] is not None:
            s = str_const(p, r[0], r[1])
            if isinstance(s, str):
                out[c.qual] = s
                continue
            if isinstance(r[1], ast.Call):
                d = p.resolve_expr(r[0].module, r[1].func)
                if d and d[0] == "class" and d[1].find_method("__get__"):
                    g = d[1].find_method("__get__")
                    e = Engine(p, inline=lambda f: True, max_depth=5)
                    t = e.run(g)
                    v = fold_desc(t, c)
                    if isinstance(v, str):
                        out[c.qual] = v
                        continue
        exact = False
        out[c.qual] = re.sub("_", "", c.name).lower()
    return out, exact


def fold_desc(t, c):
    """fold the descriptor's result: its class parameter's __name__ is the class name"""
    t2 = t

    def f(x):
        x = identity(x)
        if x.k == "attr" and x.a[1] == "__name__":
            return c.name
        if x.k == "const":
            return cval(x)
        if x.k == "mcall" and x.a[1] in ("lower", "upper", "strip", "replace") and (not x.a[2] or x.a[1] in ("strip", "replace")):
            v = f(x.a[0])
            args = [f(y) for y in x.a[2]]
            return getattr(v, x.a[1])(*args) if isinstance(v, str) and all(isinstance(a, str) for a in args) else None
        if x.k == "call" and x.a[0] == "re.sub" and len(x.a[1]) == 3 and not x.a[2]:
            vs = [f(y) for y in x.a[1]]
            return re.sub(*vs) if all(isinstance(v, str) for v in vs) else None
        if x.k == "mcall" and x.a[1] == "sub" and len(x.a[2]) == 2:
            o = identity(x.a[0])
            if o.k == "call" and o.a[0] == "re.compile" and len(o.a[1]) == 1:
                vs = [f(y) for y in (o.a[1][0],) + tuple(x.a[2])]
                return re.sub(*vs) if all(isinstance(v, str) for v in vs) else None
        if x.k == "op" and x.a[0] == "+":
            a, b = f(x.a[1]), f(x.a[2])
            return a + b if isinstance(a, str) and isinstance(b, str) else None
        return None
    return f(t2)


def members(p, t, c, ts, depth=0):
    """is class c in the mapping/collection t, under its own type string?  True / False / UNK"""
    if depth > 8:
        return UNK
    if t.k in ("phi",) and loop_build(t) is None:
        vs = [members(p, x, c, ts, depth + 1) for x in t.a[0]]
        return True if vs and all(v is True for v in vs) else False if any(v is False for v in vs) else UNK
    if t.k == "ite":
        a, b = members(p, t.a[1], c, ts, depth + 1), members(p, t.a[2], c, ts, depth + 1)
        return a if a is b else UNK
    if t.k == "upd" and t.a[0] == "setitem":
        f = Fold(p, c, lambda x: False, ts)
        if f.val(t.a[2][1]) is c:
            k = f.val(t.a[2][0])
            return True if k == ts[c.qual] else (members(p, t.a[1], c, ts, depth + 1))
        return members(p, t.a[1], c, ts, depth + 1)
    if t.k == "upd":
        return members(p, t.a[1], c, ts, depth + 1)
    if t.k == "mcall" and t.a[1] == "copy":
        return members(p, t.a[0], c, ts, depth + 1)
    if t.k == "dict":
        f = Fold(p, c, lambda x: False, ts)
        res = False
        for k, v in [x if isinstance(x, tuple) else x.a[1] for x in t.a[-1]]:
            if k is None or (hasattr(k, "k") and k.k == "undef"):
                m = members(p, v, c, ts, depth + 1)
                if m is True:
                    res = True
            elif f.val(v) is c and f.val(k) == ts[c.qual]:
                res = True
        return res
    if t.k == "call" and t.a[0] == "dict" and t.a[1]:
        f = members(p, t.a[1][0], c, ts, depth + 1)
        return f
    reg = registry(t)
    if reg is None:
        return UNK
    key, val, chain, src = reg
    hole = is_class_hole(src)
    f = Fold(p, c, hole, ts)
    vs = [f.bool(x) for _, cs in chain for x in strip_guard(cs)]
    v = False if any(x is False for x in vs) else UNK if any(x is UNK for x in vs) else True
    if v is True:
        if key is None or f.val(val) is not c or f.val(key) != ts[c.qual]:
            return False
        if not contains(src, lambda x: (x.k == "pcall" and getattr(x.a[0], "name", "") == "find_descendents") or (x.k == "mcall" and x.a[1] == "__subclasses__") or x.k == "gen"):
            return UNK
    return v


def check_types(ctx, p):
    base = need(ctx, p.cls("Variable"), "Variable")
    types = [c for c in sorted(p.subclasses("Variable"), key=lambda c: c.qual) if c.module.name.startswith("featuretools.variable_types") and c is not base]
    ts, exact = type_strings(ctx, p, types + [base])
    ctx.stats["variable_types"] = len(types)
    ctx.stats["type_strings_folded"] = bool(exact)
    seen = {}
    for c in types:
        ctx.unit("variable type:%s" % c.name)
        s = ts[c.qual]
        o = seen.get(s)
        ctx.ob("type-string", c.name, bool(s) and o is None, c.loc, "type string %r is also that of %s: a saved variable of one type is loaded as the other" % (s, o.name if o else ""))
        seen[s] = c
        r = p.lookup(p.modules["featuretools.variable_types"], c.name)
        ctx.ob("type-string", "%s/reachable" % c.name, r is not None and r[0] == "class" and r[1] is c, c.loc, "featuretools.variable_types.%s is not this class" % c.name)
    deprecated = {c for c in types if deprecates(p, c)}
    fi = need(ctx, one(p, "find_variable_types"), "find_variable_types")
    e, r = engine(p, fi, ("find_descendents",))
    for c in types:
        m = members(p, r, c, ts)
        if c in deprecated:
            ctx.ob("type-registry", c.name, True, fi.loc, "")
        else:
            ctx.ob("type-registry", c.name, m is True, fi.loc, "the registry of variable types does not contain %s under its type string %r" % (c.name, ts[c.qual]))
    # the lookup in an entity and in the deserializer
    for cls, meth, rule in (("Entity", "_create_variables", "entity-types"), (None, "description_to_variable", "saved-types")):
        f = one(p, meth, cls) if cls else one(p, meth)
        if f is None and cls:
            f = p.cls(cls).find_method("__init__")
        f = need(ctx, f, meth)
        e = Engine(p, inline=lambda g: g.name not in ("find_descendents", "infer_variable_types", "convert_all_variable_data", "get_linked_vars") and g.name != "__init__", max_depth=4)
        e.run(f)
        maps, keys = [], []
        for ev in e.events:
            for t in ev.d.values():
                if not hasattr(t, "k"):
                    continue
                for x in walk(t):
                    pair = None
                    if x.k == "item":
                        pair = (x.a[0], x.a[1])
                    elif x.k == "mcall" and x.a[1] in ("get",) and x.a[2]:
                        pair = (x.a[0], x.a[2][0])
                        for y in x.a[2][1:]:
                            pass
                    if pair and contains(pair[0], lambda z: z.k == "cls" and z.a[0] is base) and depends(pair[0]):
                        maps.append(pair[0])
                        keys.append((pair[1], ev.loc))
        maps = list(dict.fromkeys(maps))
        if not maps:
            raise AnalysisBroken("no lookup of a type string found in %s" % f.qual)
        if rule == "entity-types":
            for c in types:
                ms = [members(p, m, c, ts) for m in maps]
                ctx.ob(rule, c.name, any(m is True for m in ms) and not all(m is False for m in ms), f.loc,
                       "the type string of %s is not understood when an entity is created or loaded, the variable becomes Unknown" % c.name)
        fold = Fold(p, None, lambda x: False, ts)
        consts = {(fold.val(k), loc) for k, loc in keys if isinstance(fold.val(k), str)}
        for k, loc in sorted(consts):
            hit = [c for c in types if ts[c.qual] == k]
            ctx.ob("fallback", "%s[%s]" % (f.name, k), bool(hit), loc, "no variable type has the type string %r used as the fallback" % k)


def depends(t):
    """t is (an update of) a mapping from type strings to classes"""
    return t.k in ("comp", "upd", "phi", "ite", "dict") or (t.k == "call" and t.a[0] == "dict") or (t.k == "mcall" and t.a[1] == "copy")


def deprecates(p, c):
    """its constructor announces its own deprecation"""
    m = c.methods.get("__init__")
    if m is None:
        return False
    return any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "warn" and
               any((dotted(x) or "").split(".")[-1] in ("FutureWarning", "DeprecationWarning") for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, (ast.Name, ast.Attribute)))
               for n in ast.walk(m.node))


def type_name(p, m, n):
    d = dotted(n)
    if d is None:
        return repr(n.value) if isinstance(n, ast.Constant) else None
    r = p.resolve_expr(m, n)
    if r and r[0] == "ext":
        return r[1]
    head = d.split(".")[0]
    if head == "np":
        return "numpy" + d[2:]
    return d


def check_defaults(ctx, p):
    types = [c for c in sorted(p.subclasses("Variable"), key=lambda c: c.qual) if c.module.name.startswith("featuretools.variable_types")]
    types = list(dict.fromkeys([p.cls("Variable")] + types))
    mod = p.cls("Variable").module
    tab = p.lookup(p.modules["featuretools.variable_types"], "DEFAULT_DTYPE_VALUES")
    node = None
    if tab and tab[0] == "var":
        node = tab[1][1] if isinstance(tab[1], tuple) else tab[1]
    for m in [mod] + [m for m in p.modules.values() if m.name.startswith("featuretools.variable_types")]:
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == "DEFAULT_DTYPE_VALUES" for x in st.targets):
                node, mod = st.value, m
    node = need(ctx, node, "DEFAULT_DTYPE_VALUES")
    table = dict_pairs(p, mod, node)
    if table is None:
        raise AnalysisBroken("DEFAULT_DTYPE_VALUES is not a literal table")
    loc = "%s:%d" % (mod.rel, node.lineno)
    for c in types:
        a = c.find_attr("_default_pandas_dtype")
        if a is None:
            ctx.ob("default", c.name, False, c.loc, "no default dtype")
            continue
        owner, n = a
        t = type_name(p, owner.module, n)
        for _ in range(3):
            if t not in table and isinstance(n, (ast.Name, ast.Attribute)):
                v = resolve_value(p, owner, n)
                if v is None or v is n:
                    break
                n = v
                t = type_name(p, owner.module, n)
        ctx.ob("default", c.name, t in table, c.loc, "the default dtype %s of %s has no default value: a time index of this type on empty or distributed data fails with KeyError" % (t, c.name))
        if t in table:
            v = table[t]
            mro = [k.name for k in c.mro()]
            s = ast.unparse(v)
            isnum = isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool) or isinstance(v, ast.UnaryOp)
            isdate = "Timestamp" in s or "datetime" in s or "to_datetime" in s
            if "Datetime" in mro or "DatetimeTimeIndex" in mro:
                ctx.ob("default", "%s/time" % c.name, isdate, c.loc, "the default value of %s is %s, which is not a time" % (c.name, s))
            elif "Numeric" in mro:
                ctx.ob("default", "%s/time" % c.name, isnum, c.loc, "the default value of %s is %s, which is not a number" % (c.name, s))


def dict_pairs(p, m, n):
    if isinstance(n, ast.Dict):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = dict_pairs(p, m, v)
                if d is None:
                    return None
                out.update(d)
            else:
                out[type_name(p, m, k)] = v
        return out
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("dict", "OrderedDict") and n.args and not n.keywords:
        a = n.args[0]
        if isinstance(a, (ast.List, ast.Tuple)):
            out = {}
            for x in a.elts:
                if not (isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == 2):
                    return None
                out[type_name(p, m, x.elts[0])] = x.elts[1]
            return out
        return dict_pairs(p, m, a)
    if isinstance(n, ast.Name):
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n.id for x in st.targets):
                return dict_pairs(p, m, st.value)
    return None


def about_data(c):
    """a condition on the column's dtype, emptiness or the dataframe's library, which says nothing about its values"""
    if contains(c, lambda x: x.k == "attr" and x.a[1] in ("dtype", "empty", "columns") or x.k == "call" and x.a[0] == "isinstance" or
                x.k == "pcall" and getattr(x.a[0], "name", "") == "is_instance" or x.k == "call" and x.a[0] == "len"):
        return not contains(c, lambda x: x.k == "mcall" and x.a[1] in ("dropna", "notnull", "isnull", "notna", "isna"))
    return c.k == "inloop" or contains(c, lambda x: x.k == "call" and x.a[0] == "issubclass" and len(x.a[1]) == 2 and x.a[1][1].k == "phi")


def check_conversion(ctx, p):
    fi = need(ctx, one(p, "convert_all_variable_data"), "convert_all_variable_data")
    e = Engine(p, inline=lambda g: g.module is fi.module and g.name not in ("replace_latlong_nan", "col_is_datetime"), max_depth=4)
    e.run(fi)
    types = [c for c in sorted(p.subclasses("Variable"), key=lambda c: c.qual) if c.module.name.startswith("featuretools.variable_types")]
    raises = e.evs("raise")
    sets = [ev for ev in e.events if ev.kind == "setitem"]

    typs = set()
    for ev in e.events:
        for g, pol in ev.guards:
            for x in walk(g):
                if x.k == "call" and x.a[0] == "issubclass" and len(x.a[1]) == 2 and x.a[1][1].k in ("cls", "tuple"):
                    typs.add(identity(x.a[1][0]))
    if not typs:
        raise AnalysisBroken("no test of the desired type in %s" % fi.qual)
    def evaluate(ev, c):
        loops = list(dict.fromkeys(x for g, _ in ev.guards for x in walk(g) if x.k == "elem" and x.a[0].k in ("tuple", "list") and 0 < len(x.a[0].a[1]) <= 8))
        res = False
        for pick in itertools.product(*[x.a[0].a[1] for x in loops]):
            r = evaluate1(ev, c, dict(zip(loops, pick)))
            res = r if res is False or r is True else res
        return res

    def evaluate1(ev, c, env):
        f = TypeFold(p, c, typs)
        f.env = env
        out = True
        for g, pol in ev.guards:
            v = f.bool(g)
            if v is UNK:
                k = "data" if about_data(g) else "values"
                out = k if out is True or k == "values" else out
            elif v is not pol:
                return False
        return out
    ops_of = {"Numeric": ("to_numeric", "astype"), "Datetime": ("to_datetime", "astype")}
    for c in types:
        mro = [k.name for k in c.mro()]
        fails = [ev for ev in raises if evaluate(ev, c) in (True, "data") and not lookup_error(ev)]
        ctx.ob("convert", c.name, not fails, fails[0].loc if fails else fi.loc, "a column declared as %s is handed to a conversion that does not know this type, so creating the entity fails" % c.name)
        for b, ops in ops_of.items():
            if b in mro:
                hit = [ev for ev in sets if evaluate(ev, c) is not False and contains(ev.d["value"], lambda x: (x.k == "call" and x.a[0].split(".")[-1] in ops) or (x.k == "mcall" and x.a[1] in ops))]
                ctx.ob("convert", "%s/%s" % (c.name, ops[0]), bool(hit), fi.loc, "a column declared as %s is never converted with %s" % (c.name, ops[0]))


def lookup_error(ev):
    t = ev.d.get("term") or ev.d.get("value")
    s = ev.d.get("name") or (show(t) if t is not None else "")
    return "LookupError" in str(s) or "KeyError" in str(s)


class TypeFold(Fold):
    def __init__(self, p, c, typs):
        Fold.__init__(self, p, c, lambda t: t in typs)

    def val(self, t):
        if t in () or self.hole(t) or self.hole(identity(t)):
            return self.c
        return Fold.val(self, t)


def check(ctx):
    p = ctx.p
    check_primitives(ctx, p)
    check_descendants(ctx, p)
    check_types(ctx, p)
    check_defaults(ctx, p)
    check_conversion(ctx, p)
