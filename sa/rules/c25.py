"""The version check of both loaders is interpreted for every order of the parts of the two versions: for each of the 27 ways in
which the three parts of the stored version can compare with the three of the library's, every path from read_entityset and
load_features must report exactly when the stored version is newer or its major part is older.  The parts compared must be
numbers (text orders 10 before 9), taken from the file being loaded and from the constant its own writer stores."""
import ast
import itertools
from ..paths import Paths, Client, TooBig, NONE, has
from .c18 import clean

TECHNIQUE = "path-sensitive interpretation of the loaders over the finite domain of part-wise version orders; kinds (text or number) of the compared parts"
LEVEL_NOTE = "Versions are taken to have three parts, as the library's have; release suffixes are not modelled."
MIN_INSTANCES = {"order": 2, "numeric": 2, "constant": 2}
CONST = "SCHEMA_VERSION"
REPORT = {"warn", "warning", "error", "exception", "critical", "warn_explicit"}
PARSERS = {"parse", "Version", "LooseVersion", "StrictVersion", "parse_version"}


def mentioning(p):
    """functions that mention the schema version, and all that lead to them"""
    def mentions(f):
        stored = {id(v) for x in ast.walk(f.node) if isinstance(x, ast.Dict) for k, v in zip(x.keys, x.values)
                  if isinstance(k, ast.Constant) and k.value == "schema_version"}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == CONST and id(x) not in stored or isinstance(x, ast.Attribute) and x.attr == CONST and id(x) not in stored:
                return True
            if isinstance(x, ast.alias) and x.name == CONST:
                return True
        return False
    m = {f for f in p.functions if mentions(f)}
    calls = {}
    for f in p.functions:
        out = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                r = p.resolve_expr(f.module, x.func)
                if r is not None and r[0] == "func":
                    out.add(r[1])
                elif r is not None and r[0] == "class":
                    out.add(r[1].find_method("__init__"))
                elif isinstance(x.func, ast.Name) and x.func.id == "cls" and f.cls is not None:
                    out.add(f.cls.find_method("__init__"))
                elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls") and f.cls is not None:
                    out.add(f.cls.find_method(x.func.attr))
                elif isinstance(x.func, ast.Name):
                    for y in ast.walk(f.node):
                        if isinstance(y, ast.ImportFrom):
                            for al in y.names:
                                if (al.asname or al.name) == x.func.id:
                                    r = p.resolve_dotted((p._absmod(f.module, y.level, y.module) or "") + "." + al.name)
                                    if r is not None and r[0] in ("func", "class"):
                                        out.add(r[1] if r[0] == "func" else r[1].find_method("__init__"))
        calls[f] = out
    while True:
        more = {f for f in p.functions if f not in m and calls[f] & m}
        if not more:
            return m
        m |= more


class Loader(Client):
    max_depth = 12
    ordered = True
    qualify = True

    def __init__(self, p, inl, order):
        self.p, self.inl, self.order = p, inl, order     # order[kind] = tuple of -1 / 0 / 1: stored compared with the library's
        self.faults = set()
        self.compared = set()

    def enter(self, fi):
        return fi in self.inl

    def traced(self, name):
        return name in REPORT

    # objects under construction
    def store(self, paths, t, base, v, st):
        if base[0] == "obj":
            s = st.copy()
            s.conds[("field", base, t.attr)] = v
            return [s]
        return None

    def constant(self, kind):
        return ("text", "lib", kind)

    def attribute(self, paths, e, base, st):
        if base[0] == "obj" and ("field", base, e.attr) in st.conds:
            return [(st, st.conds[("field", base, e.attr)])]
        if e.attr == CONST:
            r = paths.p.resolve_expr(paths.module, e)
            return [(st, ("vtext", "lib", self.kind_of(r[1][0].name if r and r[0] == "var" else repr(base))))]
        if base[0] == "ver":
            i = {"major": 0, "minor": 1, "micro": 2}.get(e.attr)
            if i is not None:
                return [(st, ("part", base[1], base[2], i, "int"))]
            if e.attr in ("release", "version"):
                return [(st, self.parts(base[1], base[2], "int"))]
        return None

    def kind_of(self, module):
        return "features" if "feature" in module.split(".", 1)[-1] else "entityset"

    def parts(self, who, kind, num):
        return ("list", tuple(("part", who, kind, i, num) for i in range(3)))

    def vtext(self, v, paths=None):
        """is the value the text of a version?"""
        if v[0] == "vtext":
            return v
        if v[0] == "name" and v[1] == CONST:
            mod = v[2] if len(v) > 2 else None
            if mod is None and paths is not None:
                r = paths.p.lookup(paths.module, CONST)
                mod = r[1][0].name if r and r[0] == "var" else ""
            return ("vtext", "lib", self.kind_of(mod or ""))
        key = None
        if v[0] == "sub" and v[2] == ("const", "'schema_version'"):
            key = v[1]
        elif v[0] == "call" and v[1] in ("get", "pop") and v[3] and v[3][0] == ("const", "'schema_version'"):
            key = v[2]
        if key is None:
            return None
        return ("vtext", "saved", self.saved_kind(key))

    def saved_kind(self, d):
        inner = has(d, lambda x: x[0] == "sub" and x[2] == ("const", "'entityset'") or x[0] == "call" and x[1] == "get" and ("const", "'entityset'") in x[3])
        return "entityset" if inner else self.root

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if recv is None and name == "isinstance" and len(args) == 2 and args[1] == ("name", "str"):
            if args[0][0] == "const" or self.vtext(args[0], paths):
                return [("next", st, ("const", repr(args[0][0] != "const" or args[0][1][:1] in "'\"")))]
        if recv is not None and name in ("split", "rsplit"):
            v = self.vtext(recv, paths)
            if v is not None:
                return [("next", st, self.parts(v[1], v[2], "str"))]
        if recv is not None and name in ("strip", "lstrip", "rstrip", "lower") and self.vtext(recv, paths):
            return [("next", st, self.vtext(recv, paths))]
        if name == "str" and recv is None and args and self.vtext(args[0], paths):
            return [("next", st, self.vtext(args[0], paths))]
        if name in PARSERS and args and self.vtext(args[0], paths):
            v = self.vtext(args[0], paths)
            return [("next", st, ("ver", v[1], v[2]))]
        if recv is None and name in ("int", "float") and args and args[0][0] == "part":
            return [("next", st, args[0][:4] + ("int",))]
        if recv is None and name == "map" and len(args) == 2 and args[0][0] == "name" and args[0][1] in ("int", "float"):
            x = self.listed(args[1])
            if x is not None:
                return [("next", st, ("list", tuple(y[:4] + ("int",) if y[0] == "part" else y for y in x)))]
        if recv is None and name in ("list", "tuple", "iter") and args:
            x = self.listed(args[0])
            if x is not None:
                return [("next", st, ("tuple" if name == "tuple" else "list", tuple(x)))]
        if recv is None and name == "len" and args and self.listed(args[0]) is not None:
            return [("next", st, ("const", repr(len(self.listed(args[0])))))]
        if name == "zip_longest":
            for k, v in kws:
                if k == "fillvalue":
                    ks = {y[4] for a in args for y in (self.listed(a) or []) if y[0] == "part"}
                    text = v[0] == "const" and v[1][:1] in "'\""
                    if "int" in ks and (text or v == NONE) or "str" in ks and not text:
                        self.faults.add(("the filler of a shorter version cannot be compared with its parts", paths.loc(e)))
            if not any(k == "fillvalue" for k, v in kws):
                self.faults.add(("the filler of a shorter version cannot be compared with its parts", paths.loc(e)))
        if name in ("min", "max", "sorted") and any(self.vtext(a, paths) for a in args):
            self.faults.add(("versions are compared as text", paths.loc(e)))
        # objects
        cn = None
        if fval is not None and fval[0] == "name":
            cn = fval[1]
        elif recv is None and fval is None:
            r = paths.p.resolve_expr(paths.module, e.func)
            cn = r[1].name if r and r[0] == "class" else None
        if cn in self.p.classes:
            init = self.p.cls(cn).find_method("__init__")
            if init is not None and init in self.inl and id(init.node) not in paths.stack:
                o = ("obj", cn)
                return [(k, s, o if k == "next" else v) for k, s, v in paths.enter(init.node, init.module, init, o, args, kws, st, None)]
        if fval is not None and fval[0] == "name" and cn not in self.p.classes and len(fval) > 2:
            r = paths.p.resolve_dotted(fval[2] + "." + fval[1]) if fval[2] else None
            if r and r[0] == "func" and r[1] in self.inl and id(r[1].node) not in paths.stack:
                return paths.enter(r[1].node, r[1].module, r[1], None, args, kws, st, None)
        if recv is not None and recv[0] == "obj" and not (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self"):
            f = self.p.cls(recv[1]).find_method(name)
            if f is not None and f in self.inl and id(f.node) not in paths.stack:
                return paths.enter(f.node, f.module, f, recv, args, kws, st, None)
        return self.helper(paths, e, recv, args, kws, st)

    def helper(self, paths, e, recv, args, kws, st):
        """a helper given versions or parts of them"""
        if any(has(v, lambda x: x[0] in ("part", "ver") or x[0] == "vtext" or self.vtext(x) is not None) for v in list(args) + [v for _, v in kws]):
            f = paths.target(e.func, st)
            if f is not None and id(f.node) not in paths.stack:
                return paths.enter(f.node, f.module, f, recv, args, kws, st, None)
        return None

    def listed(self, v):
        if v[0] in ("list", "tuple") and not any(x[0] == "star" for x in v[1]):
            return list(v[1])
        if v[0] == "sub" and v[2][0] == "slice":
            b = self.listed(v[1])
            if b is None:
                return None
            try:
                lo, hi, stp = [None if x == NONE else int(x[1]) for x in v[2][1:]]
            except (ValueError, TypeError):
                return None
            return b[lo:hi:stp]
        if v[0] == "call" and v[1] in ("zip", "zip_longest") and v[2] in (None, ("name", "itertools")):
            ls = [self.listed(a) for a in v[3]]
            if all(x is not None for x in ls) and ls:
                return [("tuple", x) for x in zip(*ls)]
        if v[0] == "call" and v[1] == "enumerate" and v[3]:
            b = self.listed(v[3][0])
            return None if b is None else [("tuple", (("const", repr(i)), x)) for i, x in enumerate(b)]
        if v[0] == "call" and v[1] == "range" and v[2] is None and all(a[0] == "const" for a in v[3]):
            return [("const", repr(i)) for i in range(*[int(a[1]) for a in v[3]])]
        if v[0] == "call" and v[1] in ("list", "tuple", "iter") and v[3]:
            return self.listed(v[3][0])
        return None

    def elements(self, v, st):
        x = self.listed(v)
        if x is not None and has(v, lambda y: y[0] == "part"):
            return x
        if x is not None and v[0] == "call" and v[1] == "range" and len(x) <= 3:
            return x
        return None

    def known(self, v, st):
        if self.vtext(v) or v[0] in ("ver", "part"):
            return True
        if v[0] != "cmp" or len(v[1]) != 1:
            return None
        op, (a, b) = v[1][0], v[2]
        if op in ("Is", "Eq") and b == NONE and (self.vtext(a) or a[0] in ("part", "ver")):
            return False
        if op in ("In", "NotIn"):
            return None
        r = self.compare(a, b, op)
        if r is None:
            return None
        return {"Lt": r < 0, "LtE": r <= 0, "Gt": r > 0, "GtE": r >= 0, "Eq": r == 0, "NotEq": r != 0}.get(op)

    def compare(self, a, b, op):
        """-1 / 0 / 1: a compared with b"""
        la, lb = self.listed(a), self.listed(b)
        if la is not None and lb is not None:
            for x, y in zip(la, lb):
                r = self.compare(x, y, op)
                if r is None:
                    return None
                if r:
                    return r
            return (len(la) > len(lb)) - (len(la) < len(lb))
        if a[0] == "part" and b[0] == "part" and a[1] != b[1]:
            self.pair(a[2], b[2], a, b)
            if a[3] != b[3]:
                self.faults.add(("different parts of the two versions are compared", ""))
                return None
            if op not in ("Eq", "NotEq") and (a[4] != "int" or b[4] != "int"):
                self.faults.add(("the parts of the versions are compared as text" if a[4] == b[4] else "a number is compared with text", ""))
            if op in ("Eq", "NotEq") and a[4] != b[4]:
                self.faults.add(("a number is compared with text", ""))
            o = self.order[a[2]][a[3]]
            return o if a[1] == "saved" else -o
        va, vb = self.vtext(a) or (a if a[0] == "ver" else None), self.vtext(b) or (b if b[0] == "ver" else None)
        if va is not None and vb is not None and va[1] != vb[1]:
            self.pair(va[2], vb[2], va, vb)
            if op not in ("Eq", "NotEq") and "vtext" in (va[0], vb[0]):
                self.faults.add(("versions are compared as text", ""))
            for o in self.order[va[2]]:
                if o:
                    return o if va[1] == "saved" else -o
            return 0
        return None

    def pair(self, ka, kb, a, b):
        self.compared.add((ka, kb))

    def keep(self, st):
        return st


def outcomes(p, inl, root, kind_root, order, budget=60000):
    c = Loader(p, inl, order)
    c.root = kind_root
    pa = Paths(p, c, budget)
    outs = pa.run(root.module, root.node, root)
    return c, outs


def reported(st):
    return [e for e in st.trace if e[0] == "call" and "version" in repr(e[3:]).lower()]


def check(ctx):
    p = ctx.p
    inl = mentioning(p)
    defs = [m for m in p.modules.values() if CONST in m.assigns]
    ctx.need(len(defs) >= 2, "schema version constants not found")
    for name, root_kind in (("read_entityset", "entityset"), ("load_features", "features")):
        root = p.public(name, "featuretools.entityset.deserialize" if False else "featuretools") if name != "read_entityset" else p.public(name)
        ctx.need(root is not None, "%s not found" % name)
        ctx.unit(root)
        if root not in inl:
            ctx.bad("order", name, root.loc, "the stored schema version is never compared with the library's")
            continue
        kinds = ["entityset"] if root_kind == "entityset" else ["features", "entityset"]
        for kind in kinds:
            faults, pairs, wrong, n = set(), set(), {}, 0
            texts = {True: [], False: []}
            for o in itertools.product((-1, 0, 1), repeat=3):
                order = {"entityset": (0, 0, 0), "features": (0, 0, 0)}
                order[kind] = o
                try:
                    c, outs = outcomes(p, inl, root, root_kind, order)
                except TooBig:
                    ctx.need(False, "%s too large to analyse" % name)
                faults |= c.faults
                pairs |= c.compared
                newer = next((x for x in o if x), 0) > 0
                want = newer or o[0] < 0
                what = "newer" if newer else "older-major" if want else "compatible"
                ends = [x for x in outs if x[0] in ("return", "next", "raise")]
                n += len(ends)
                fine = [x for x in ends if x[0] != "raise"]
                if want and any(not reported(x[1]) for x in fine):
                    wrong.setdefault(what + " version is not reported", o)
                if want:
                    texts[newer] += [{repr(clean(m[3:])) for m in reported(x[1])} for x in fine]
                if not want and (any(reported(x[1]) for x in ends) or not fine):
                    wrong.setdefault(what + " version is reported", o)
            outdated = set().union(*texts[False] or [set()])
            if any(len(x) > 1 and x & outdated for x in texts[True]):
                wrong["newer version is reported as an older one as well"] = ()
            ctx.stats["%s/%s paths" % (name, kind)] = n
            con = "%s: %s version" % (name, kind)
            ctx.ob("order", con, not wrong, root.loc, "; ".join("%s (order of the parts, stored against library: %s)" % (k, ", ".join("<=>"[x + 1] for x in v)) for k, v in sorted(wrong.items())))
            ctx.ob("numeric", con, not faults, root.loc, "; ".join(sorted("%s %s" % f for f in faults)))
            bad = [x for x in pairs if x[0] != x[1]]
            ctx.ob("constant", con, not bad, root.loc, "the version of one kind of file is compared with the constant of the other")
    written(ctx, p, defs)


def written(ctx, p, defs):
    """each writer stores the constant its own loader compares with"""
    n = 0
    for f in p.functions:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Dict):
                for k, v in zip(x.keys, x.values):
                    if isinstance(k, ast.Constant) and k.value == "schema_version":
                        n += 1
                        r = p.resolve_expr(f.module, v)
                        ok = r is not None and r[0] == "var" and r[1][1] == CONST and r[1][0] is f.module
                        if isinstance(v, ast.Name) and r is None:
                            ok = True
                        ctx.ob("constant", "written by %s" % f.name, ok, "%s:%d" % (f.module.rel, x.lineno), "the version stored is not the constant of this kind of file")
    ctx.stats["writers"] = n
