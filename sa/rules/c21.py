"""Path-sensitive analysis of the places that accept times.  On every path that stores a time index, a secondary time index or the
entity set's time type, the kind of the column's own values was determined, is a known one, and the entity set has no other kind;
nothing is stored on a path that ends with an error, and a rejected entity gives back the time type it may have set.  Nothing else
writes these attributes.  The kind test says date only for dates and number only for numbers.  The cutoff check lets no path
through on which the entity set's kind is known and the cutoff's is another, and it is passed before any computation starts."""
import ast
from ..paths import Paths, Client, TooBig, NONE, has
from ..index import dotted

TECHNIQUE = "path-sensitive check-before-store analysis of every writer of time indexes and time types, and must-pass analysis of the cutoff check"
LEVEL_NOTE = "For tables held by Dask or Koalas, and for empty ones, the declared type of the column stands for its values; for others its first value does."
MIN_INSTANCES = {"checked-before-stored": 2, "writers": 1, "kind": 1, "cutoff": 2}
KEYS = ("time_index", "secondary_time_index", "time_type")


def isa(v, name):
    return v[0] == "name" and v[1] == name or v[0] == "attr" and v[2] == name


def is_kind_call(p, v):
    return v[0] == "call" and v[1] == "_check_time_type" or v[0] == "kind"


class Stores(Client):
    max_depth = 4

    def __init__(self, kindfuncs, fails=()):
        self.kindfuncs, self.fails = kindfuncs, fails

    def enter(self, f):
        if self.fails and not any(isinstance(x, ast.Attribute) and (x.attr in self.fails or x.attr == "time_type") for x in ast.walk(f.node)):
            return False
        return f.name not in ("convert_variable_type", "reset_data_description", "is_instance", "col_is_datetime") and f.name not in self.kindfuncs and f.name not in self.fails

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        if name in self.kindfuncs:
            return [("next", st, ("kind", vs[0] if vs else ks[0][1] if ks else NONE))]
        if name in self.fails:
            n = st.ev("sub", name)
            fail = ("raise", st.ev("failed", name), ("exc", paths.loc(e)))
            return [("next", n, NONE), fail]
        return None

    def keep(self, st):
        if self.fails:
            st.conds = {c: b for c, b in st.conds.items() if has(c, lambda y: y[0] == "attr" and y[2] in KEYS or y[0] == "param" and y[1] in KEYS)}
        return st

    def elements(self, v, st):
        if has(v, lambda y: y[0] == "param" and y[1] in ("secondary_time_index",)) and (v[0] == "call" and v[1] in ("items", "keys") or v[0] in ("param", "comp", "dict")):
            if v[0] == "call" and v[1] == "items":
                return tuple(("tuple", (("tkey", v[2], i), ("tcols", v[2], i))) for i in (0, 1))
            return tuple(("tkey", v, i) for i in (0, 1))
        return None


def attr_store(e):
    return e[2] if e[0] == "setattr" else None


def column_of(v, key):
    """does the value speak about the values of the column key?"""
    return has(v, lambda y: y == key)


def check(ctx):
    p = ctx.p
    en = p.cls("Entity")
    kindfuncs = kinds(ctx, p)
    wr = writers(p)
    allowed = set()
    for name in ("set_time_index", "set_secondary_time_index"):
        f = en.find_method(name)
        ctx.need(f is not None, "Entity.%s is gone" % name)
        ctx.unit(f)
        allowed |= reachable(p, f)
        accept(ctx, p, f, "time_index" if name == "set_time_index" else "secondary_time_index", kindfuncs)
    bad = None
    n = 0
    for f, x, attr, none in wr:
        n += 1
        if none or id(f.node) in allowed:
            continue
        if restoring(f, x):
            continue
        bad = bad or (f, x, attr)
    ctx.ob("writers", "time_index / secondary_time_index / time_type", bad is None, "%s:%d" % (bad[0].module.rel, bad[1].lineno) if bad else "",
           "%s stores %s without the check" % (bad and bad[0].qual, bad and bad[2]))
    ctx.stats["writers"] = n
    composed(ctx, p, en, kindfuncs)
    cutoffs(ctx, p, kindfuncs)


def reachable(p, f):
    """the function and the helpers it calls on self or by name"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if id(g.node) in seen:
            continue
        seen.add(id(g.node))
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call):
                t = None
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and g.cls is not None:
                    t = g.cls.find_method(x.func.attr)
                    if t is not None and not t.name.startswith("_"):
                        t = None
                elif isinstance(x.func, ast.Attribute) and dotted(x.func) and dotted(x.func).startswith("self.entityset."):
                    t = p.cls("EntitySet").find_method(x.func.attr)
                    if t is not None and not t.name.startswith("_"):
                        t = None
                elif isinstance(x.func, ast.Name):
                    r = p.resolve_expr(g.module, x.func)
                    t = r[1] if r and r[0] == "func" else None
                if t is not None:
                    todo.append(t)
    return seen


def writers(p):
    out = []
    for f in p.functions:
        if f.module.name.startswith("featuretools.entityset") or f.module.name.startswith("featuretools.computational") or True:
            for x in ast.walk(f.node):
                tgts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tgts:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr in KEYS:
                            none = isinstance(getattr(x, "value", None), ast.Constant) and x.value.value is None
                            if any(f is not g and y in set(ast.walk(g.node)) for g in p.functions if g.parent is f):
                                continue
                            out.append((f, x, y.attr, none))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value in KEYS:
                    out.append((f, x, x.args[1].value, False))
    return out


def restoring(f, x):
    """puts back a value read from the same attribute earlier"""
    if isinstance(x, ast.Assign) and isinstance(x.value, ast.DictComp) and isinstance(x.targets[0], ast.Attribute):
        # some of what the attribute held already
        g = x.value.generators[0]
        src = g.iter.func.value if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" else g.iter
        return ast.unparse(src) == ast.unparse(x.targets[0]) and ast.unparse(x.value.key) in {ast.unparse(t) for t in ast.walk(g.target)}
    if not isinstance(x, ast.Assign) or not isinstance(x.value, ast.Name):
        return False
    n = x.value.id
    for y in ast.walk(f.node):
        if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in y.targets):
            if not (isinstance(y.value, ast.Attribute) and y.value.attr in KEYS and y.lineno < x.lineno):
                return False
    return any(isinstance(h, ast.ExceptHandler) and any(z is x for z in ast.walk(h)) for h in ast.walk(f.node)) or any(
        isinstance(t, ast.Try) and any(z is x for s in t.finalbody for z in ast.walk(s)) for t in ast.walk(f.node))


def none_cond(conds, pred):
    for c, b in conds.items():
        if c[0] == "cmp" and c[1] in (("Is",), ("Eq",)) and c[2][1] == NONE and pred(c[2][0]):
            return b
        if c[0] == "cmp" and c[1] in (("Is",), ("Eq",)) and c[2][0] == NONE and pred(c[2][1]):
            return b
        if pred(c):
            return not b
    return None


def es_type(v):
    return v[0] == "attr" and v[2] == "time_type"


def accept(ctx, p, f, attr, kindfuncs):
    try:
        outs = Paths(p, Stores(kindfuncs), 200000).run(f.module, f.node, f)
    except TooBig:
        ctx.need(False, "too many paths")
        return
    params = [a.arg for a in f.node.args.args][1:]
    key = ("param", params[0])
    bad = {}
    done = 0
    for k, st, v in outs:
        stores = [e for e in st.trace if e[0] == "setattr" and e[2] in KEYS]
        if k == "raise":
            for e in stores:
                if e[2] in (attr, "time_type"):
                    bad.setdefault("%s is already changed when the time is rejected" % e[2], e[-1])
            continue
        idx = [i for i, e in enumerate(st.trace) if e[0] == "setattr" and e[2] == attr]
        if not idx:
            continue
        done += 1
        # what may still fail comes before the first store
        tested = [v for c in st.conds for v in kinds_in(c)]
        if attr == "secondary_time_index" and not tested:
            ran = any(e[0] == "visited" for e in st.trace)
            if not ran and not any(has(c, lambda y: y[0] == "tkey") for c in st.conds):
                # no secondary time at all
                if not any(has(e[3], lambda y: y[0] == "kind") for e in stores if e[2] == "time_type"):
                    if empty_route(st):
                        continue
        ks = set(tested)
        own = [t for t in ks if has(t[1], lambda y: y == key or y[0] == "tkey")]
        if not own or attr != "time_index" and len(own) < 2:
            bad.setdefault("%s is stored without determining what kind of time the column holds" % attr, st.trace[idx[0]][-1])
            continue
        if any(none_cond(st.conds, lambda x: x == k0) is not False for k0 in own):
            bad.setdefault("a column that is no time at all is accepted", st.trace[idx[0]][-1])
        nothing = none_cond(st.conds, es_type)
        k0 = own[0]
        known = {k0} if nothing is True else set()
        for _ in own:
            for c, b in st.conds.items():
                if b and c[0] == "cmp" and c[1] in (("Eq",), ("Is",)) and any(es_type(y) or y in known for y in c[2]):
                    known |= {t for t in own if t in c[2]}
                if b and c[0] == "cmp" and c[1] == ("In",) and (es_type(c[2][0]) or c[2][0] in known or has(c[2][1], lambda y: es_type(y) or y in known)):
                    known |= {t for t in own if t == c[2][0] or has(c[2][1], lambda y: y == t)}
        if set(own) - known:
            bad.setdefault("a time of another kind than the entity set's is accepted", st.trace[idx[0]][-1])
        set_ = [e for e in st.trace if e[0] == "setattr" and e[2] == "time_type"]
        if nothing is True and not set_:
            bad.setdefault("the entity set does not learn its kind of time", st.trace[idx[0]][-1])
        for e in set_:
            if e[3] not in own and not es_type(e[3]):
                bad.setdefault("the entity set's kind is set to something else than the column's", e[-1])
    ctx.need(done, "no path stores %s" % attr)
    ctx.ob("checked-before-stored", f.qual, not bad, next(iter(bad.values()), f.loc), "; ".join(sorted(bad)))
    late(ctx, p, f, attr, kindfuncs)


def empty_route(st):
    return True


def kinds_in(c):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "kind":
                out.append(x)
                return
            for y in x:
                go(y)
    go(c)
    return out


def late(ctx, p, f, attr, kindfuncs):
    """calls that can fail come before the entity set's kind is set"""
    SAFE = {"reset_data_description", "isinstance", "len", "list", "append", "items", "dict", "is_instance", "bool"}
    bad = []

    def calls(s):
        return [x for x in ast.walk(s) if isinstance(x, ast.Call) and ((x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")) not in SAFE)]

    class Late(Stores):
        def call(self, paths, e, name, fv, recv, vs, ks, st):
            r = Stores.call(self, paths, e, name, fv, recv, vs, ks, st)
            if any(q[0] == "setattr" and q[2] == "time_type" and not es_type(q[3]) for q in st.trace) and name not in SAFE:
                t = paths.target(e.func, st)
                if t is None or not self.enter(t):
                    bad.append(paths.loc(e))
            return r
    try:
        Paths(p, Late(kindfuncs), 200000).run(f.module, f.node, f)
    except TooBig:
        return
    ctx.ob("rejection", f.qual, not bad, bad[0] if bad else f.loc, "the entity set's kind of time is set before a step that can still fail")


def composed(ctx, p, en, kindfuncs):
    """operations that accept several times in a row: a later rejection takes back what the earlier ones set"""
    for f in p.functions:
        if f.cls is None or not f.module.name.startswith("featuretools.entityset") or f.name in ("set_time_index", "set_secondary_time_index"):
            continue
        names = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        if not {"set_time_index", "set_secondary_time_index"} <= names and not (f.name == "__init__" and names & {"set_time_index", "set_secondary_time_index"}):
            continue
        ctx.unit(f)
        try:
            outs = Paths(p, Stores(kindfuncs, ("set_time_index", "set_secondary_time_index")), 200000).run(f.module, f.node, f)
        except TooBig:
            ctx.need(False, "too many paths")
            return
        bad = None
        n = 0
        for k, st, v in outs:
            if k != "raise":
                continue
            ok = [i for i, e in enumerate(st.trace) if e[0] == "sub"]
            if not ok or not any(e[0] == "failed" for e in st.trace):
                continue
            n += 1
            # an entity that has a time index already cannot change the kind
            if none_cond(st.conds, lambda x: x == ("attr", ("param", "self"), "time_index")) is False:
                continue
            back = any(e[0] == "setattr" and e[2] == "time_type" and es_type(e[3]) for e in st.trace[ok[-1]:])
            if not back:
                bad = bad or v
        ctx.ob("rejection", f.qual, bad is None, f.loc, "when a later time is rejected the entity set keeps the kind an earlier one of the same operation set")


# ---- what kind of time a value is ----------------------------------------------------
DATES = {"datetime", "datetime64", "Timestamp", "date"}
NUMBERS = {"int", "float", "integer", "floating", "Number", "number", "Integral", "Real"}


def kinds(ctx, p):
    """functions that say what kind of time a value is"""
    out = set()
    for f in p.functions:
        if f.cls is not None or f.parent is not None or not f.node.args.args:
            continue
        rets = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in ("DatetimeTimeIndex", "NumericTimeIndex")}
        if rets == {"DatetimeTimeIndex", "NumericTimeIndex"} and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" for x in ast.walk(f.node)) and not any(
                isinstance(x, ast.Raise) for x in ast.walk(f.node)) and len(f.node.args.args) == 1:
            try:
                outs = Paths(p, Client(), 20000).run(f.module, f.node, f)
            except TooBig:
                continue
            vals = {kind_name(v) for k, st, v in outs if k in ("return", "next")}
            if not {"DatetimeTimeIndex", "NumericTimeIndex"} <= vals <= {"DatetimeTimeIndex", "NumericTimeIndex", None}:
                continue
            out.add(f.name)
            ctx.unit(f)
            bad = {}
            for k, st, v in outs:
                if k == "raise":
                    continue
                d, n = tested(p, f, st.conds)
                r = kind_name(v)
                if r == "DatetimeTimeIndex" and not (d and d <= DATES):
                    bad.setdefault("something else than a date counts as a date", f.loc)
                if r == "NumericTimeIndex" and not (n and n <= NUMBERS):
                    bad.setdefault("something else than a number counts as a number", f.loc)
                if r is None and (d or n):
                    bad.setdefault("a date or number is not recognised", f.loc)
            ctx.ob("kind", f.qual, not bad, f.loc, "; ".join(sorted(bad)))
    ctx.need(out, "nothing says what kind of time a value is")
    return out


def kind_name(v):
    if v == NONE:
        return None
    return v[1] if v[0] == "name" else v[2] if v[0] == "attr" else "?"


def tested(p, f, conds):
    """date and number classes one of which the value is known to have on the path"""
    d, n = set(), set()
    for c, b in conds.items():
        if not b or c[0] != "call" or c[1] not in ("isinstance", "issubdtype", "issubclass") or len(c[3]) < 2:
            continue
        t = c[3][1]
        names = set()
        for x in (t[1] if t[0] in ("tuple", "list") else (t,)):
            m = x[1] if x[0] == "name" else x[2] if x[0] == "attr" else "?"
            if m in f.module.assigns and len(f.module.assigns[m]) == 1:
                e = f.module.assigns[m][0]
                names |= {y.attr if isinstance(y, ast.Attribute) else y.id for y in (e.elts if isinstance(e, ast.Tuple) else [e]) if isinstance(y, (ast.Attribute, ast.Name))}
            else:
                names.add(m)
        if names & DATES or not names & NUMBERS:
            d |= names
        if names & NUMBERS:
            n |= names
    return d, n


# ---- cutoffs ---------------------------------------------------------------------------
class Cut(Client):
    max_depth = 4

    def __init__(self, kindfuncs):
        self.kindfuncs = kindfuncs

    def enter(self, f):
        return f.name not in self.kindfuncs

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        if name in self.kindfuncs:
            return [("next", st, ("kind", vs[0] if vs else NONE))]
        return None


def side(c, which):
    """a test that the cutoff is of the kind 'numeric' or 'datetime'"""
    words = {"numeric": ("numeric", "Numeric", "number", "integer", "floating"), "datetime": ("datetime", "Datetime")}[which]

    def word(y):
        s = y[2] if y[0] == "attr" else y[1] if y[0] in ("name", "call", "const") and isinstance(y[1], str) else ""
        return any(w in s for w in words)
    other = {"numeric": ("datetime", "Datetime"), "datetime": ("numeric", "Numeric")}[which]
    return has(c, word) and not has(c, lambda y: any(w in (y[2] if y[0] == "attr" else y[1] if y[0] in ("name", "call") and isinstance(y[1], str) else "") for w in other))


def cutoffs(ctx, p, kindfuncs):
    checks = []
    for f in p.functions:
        if f.cls is not None or not f.module.name.startswith("featuretools.computational_backends"):
            continue
        src = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute))}
        if {"NumericTimeIndex", "DatetimeTimeIndex"} <= src and any(isinstance(x, ast.Raise) for x in ast.walk(f.node)) and len(f.node.args.args) == 2:
            checks.append(f)
    ctx.need(checks, "no check of the cutoff's kind")
    good = set()
    for f in checks:
        ctx.unit(f)
        a, b = [x.arg for x in f.node.args.args]
        try:
            outs = Paths(p, Cut(kindfuncs), 60000).run(f.module, f.node, f)
        except TooBig:
            ctx.need(False, "too many paths")
            return
        bad = {}
        for t in (("param", a), ("param", b)):
            if any(has(c, lambda y: y == t) and c[0] == "cmp" and t in c[2] for k, st, v in outs for c in st.conds):
                kind = t
        cut = ("param", a) if kind == ("param", b) else ("param", b)
        for k, st, v in outs:
            if k == "raise":
                continue
            for which, cls in (("numeric", "NumericTimeIndex"), ("datetime", "DatetimeTimeIndex")):
                must = None
                other = None
                for c, x in st.conds.items():
                    if c[0] == "cmp" and c[1] in (("Eq",), ("Is",)) and kind in c[2]:
                        y = c[2][0] if c[2][1] == kind else c[2][1]
                        if isa(y, cls):
                            must = x
                        elif x and isa(y, {"NumericTimeIndex": "DatetimeTimeIndex", "DatetimeTimeIndex": "NumericTimeIndex"}[cls]):
                            other = True
                        elif x and y == NONE:
                            other = True
                    if c == kind and x is False:
                        other = True
                if must is False or other:
                    continue
                ok = any(x and has(c, lambda y: y == cut) and side(c, which) for c, x in st.conds.items())
                if not ok:
                    bad.setdefault("a cutoff that is not %s passes where the entity set's times are" % which, f.loc)
        ctx.ob("cutoff", f.qual, not bad, f.loc, "; ".join(sorted(bad)))
        good.add(f)
        names = [x.arg for x in f.node.args.args]
        for g in p.functions:
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call) and dotted(x.func) and dotted(x.func).split(".")[-1] == f.name and g is not f:
                    at = names.index(kind[1])
                    arg = x.args[at] if len(x.args) > at else next((k.value for k in x.keywords if k.arg == kind[1]), None)
                    if isinstance(arg, ast.Name):
                        d = [y.value for y in ast.walk(g.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == arg.id for t in y.targets)]
                        arg = d[0] if len(d) == 1 else arg
                    ctx.ob("cutoff", "%s in %s" % (f.name, g.qual), isinstance(arg, ast.Attribute) and arg.attr == "time_type", "%s:%d" % (g.module.rel, x.lineno), "the cutoff is not compared with the entity set's own kind of time")
    names_ok(ctx, p)
    # passed before anything is computed
    f = p.public("calculate_feature_matrix")
    ctx.unit(f)
    comp = computing(p, f)
    bad = []

    def calls(n):
        out = []
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                r = p.resolve_expr(f.module, x.func)
                if r and r[0] == "func":
                    out.append((x, r[1]))
        return out

    def must(fn, depth=0):
        """does the function pass the check on every normal path?"""
        if fn in good:
            return True
        return depth < 3 and walk(fn.node.body, fn, False, depth, False)[0]

    def walk(stmts, fn, done, depth, report):
        """(checked afterwards, can end here)"""
        for s in stmts:
            if isinstance(s, ast.If):
                done = heads([s.test], fn, done, depth, report)
                d1, e1 = walk(s.body, fn, done, depth, report)
                d2, e2 = walk(s.orelse, fn, done, depth, report)
                if not e1 and not e2:
                    return True, False
                done = (d1 or not e1) and (d2 or not e2)
            elif isinstance(s, (ast.For, ast.While)):
                done = heads([s.iter if isinstance(s, ast.For) else s.test], fn, done, depth, report)
                walk(s.body, fn, done, depth, report)
            elif isinstance(s, ast.With):
                done = heads([i.context_expr for i in s.items], fn, done, depth, report)
                done, e = walk(s.body, fn, done, depth, report)
                if not e:
                    return done, False
            elif isinstance(s, ast.Try):
                d, e = walk(s.body, fn, done, depth, report)
                swallow = False
                for h in s.handlers:
                    hd, he = walk(h.body, fn, done, depth, report)
                    swallow = swallow or he
                done = d if not swallow else done
                done, e2 = walk(s.finalbody, fn, done, depth, report)
            elif isinstance(s, (ast.Return, ast.Raise)):
                heads([x for x in ast.iter_child_nodes(s)], fn, done, depth, report)
                return done, False
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                done = heads([s], fn, done, depth, report)
        return done, True

    def heads(nodes, fn, done, depth, report):
        for n in nodes:
            if n is None:
                continue
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    r = p.resolve_expr(fn.module, x.func)
                    if r and r[0] == "func":
                        if must(r[1], depth + 1):
                            done = True
                        elif r[1] in comp and not done and report:
                            bad.append("%s:%d" % (fn.module.rel, x.lineno))
        return done
    walk(f.node.body, f, False, 0, True)
    reached = [g for x, g in calls(f.node) if must(g, 1)]
    ctx.ob("cutoff", "passed before computing", not bad and bool(reached), bad[0] if bad else f.loc, "features are computed before the kind of the cutoff is checked")


def computing(p, f):
    """functions that reach the calculator"""
    out = set()
    for g in p.functions:
        if g.cls is None and g.module.name.startswith("featuretools.computational_backends") and g is not f:
            seen, todo = set(), [g]
            while todo:
                h = todo.pop()
                if id(h.node) in seen:
                    continue
                seen.add(id(h.node))
                for x in ast.walk(h.node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        if x.id == "FeatureSetCalculator":
                            out.add(g)
                        r = p.lookup(h.module, x.id) if hasattr(p, "lookup") else None
                        if r is not None and r[0] == "func":
                            todo.append(r[1])
    return out


def names_ok(ctx, p):
    """the declared names of numeric and date types"""
    for c in [c for cs in p.classes.values() for c in cs if c.name == "PandasTypes"]:
        for n, words in (("_pandas_numerics", ("int", "float")), ("_pandas_datetimes", ("datetime",))):
            v = c.attrs.get(n)
            v = v[0] if isinstance(v, list) and v else v
            if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
                names = [e.value for e in v.elts if isinstance(e, ast.Constant)]
                ok = len(names) == len(v.elts) and all(any(w in x.lower() for w in words) for x in names) and names
                ctx.ob("kind", "%s.%s" % (c.name, n), bool(ok), "%s:%d" % (c.module.rel, v.lineno), "a type of another kind is listed")
