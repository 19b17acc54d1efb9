"""Both sides of the calling contract of primitives.  Engine side: every call of a primitive's function in the calculator
passes one column per base feature (all but the group-by column for grouped transforms), each column taken under that
base feature's own name, passes the calculation time exactly on the paths where the primitive asks for it, and wraps the
result in a list exactly when the primitive has one output; a function handed to pandas' own aggregation is one that
needs neither the time, several inputs nor several outputs.  Primitive side: the function a primitive returns accepts
exactly its declared inputs, accepts the time iff it declares it, and returns as many outputs as it declares; a transform
whose function combines rows of its input declares that it needs the whole entity.  Scheduling: a feature of such a
primitive and everything it depends on is computed on unfiltered rows, and never approximated."""
import ast
from ..flow import Engine, mk, is_const, cval, contains, walk, identity, show, alts, NONE
from ..index import AnalysisBroken
from ..prims import primitives, kind, attr_ast, computation, compatibility, run_computation
from ..strs import seq_items, normal
from ..norm import strip_copy
from ..util import gated, Conds, lits, exempt, method_engine, cfm_inline
from .c09 import arities

TECHNIQUE = "path-sensitive dataflow on the call sites of primitive functions, plus signature and cross-row-operation checks on each primitive"
LEVEL_NOTE = "Cross-row operations are recognised from a table of pandas/numpy operations; user-defined primitives are outside the package."
MIN_INSTANCES = {"inputs": 3, "time": 3, "signature": 60, "whole-entity": 40, "outputs": 60, "wrap": 3, "pandas-agg": 1, "schedule": 8}

# operations whose value for one row depends on other rows of the column
CROSS = {"cumsum", "cumprod", "cummax", "cummin", "cumcount", "ngroup", "diff", "shift", "tshift", "pct_change", "rank", "argsort", "sort_values", "sort_index",
         "sort", "sorted", "rolling", "expanding", "ewm", "resample", "groupby", "mean", "median", "std", "var", "sem", "skew", "kurt", "mad", "sum", "prod",
         "min", "max", "count", "nunique", "quantile", "percentile", "nanpercentile", "mode", "value_counts", "unique", "duplicated", "drop_duplicates",
         "factorize", "interpolate", "ffill", "bfill", "pad", "backfill", "idxmax", "idxmin", "argmax", "argmin", "describe", "corr", "cov", "autocorr",
         "is_unique", "is_monotonic_increasing", "is_monotonic_decreasing", "first_valid_index", "last_valid_index", "head", "tail", "nlargest", "nsmallest",
         "sample", "cut", "qcut", "get_dummies", "average", "nanmean", "nanmedian", "nanstd", "nanvar", "nansum", "nanmin", "nanmax", "ediff1d", "gradient",
         "histogram", "digitize", "roll", "ptp", "convolve", "correlate", "rankdata", "zscore", "arange", "linspace", "reversed", "item", "first", "last", "nth", "aggregate", "agg", "transform", "dropna", "flip", "searchsorted", "median_abs_deviation"}
SPACE = {"str", "dt", "cat"}      # element-wise accessors
BINARY_UFUNC = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "mod", "remainder", "fmod", "power", "float_power", "greater", "greater_equal", "less", "less_equal",
                "equal", "not_equal", "logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "maximum", "minimum", "fmax", "fmin", "arctan2", "hypot",
                "eq", "ne", "lt", "le", "gt", "ge", "truediv", "mul", "sub", "and_", "or_", "xor"}
UNARY_UFUNC = {"absolute", "abs", "logical_not", "negative", "sqrt", "exp", "log", "sin", "cos", "tan", "ceil", "floor", "isnan", "invert", "square", "not_", "neg", "fabs", "sign", "positive"}


# ---------------------------------------------------------------- engine side
def of_function(t):
    """features F such that t may be F.get_function()"""
    out = []
    for x in alts(t):
        if x.k == "partial":
            out += of_function(x.a[0])
        elif x.k == "mcall" and x.a[1] == "get_function":
            out.append(x.a[0])
        elif x.k == "pcall" and getattr(x.a[0], "name", "") == "get_function":
            out.append(dict(x.a[1]).get("self") or x.a[1][0][1])
    return [identity(x) for x in out]


def feature_of(x):
    """the feature of which x is the primitive, or x"""
    return identity(x.a[0]) if x.k == "attr" and x.a[1] == "primitive" else x


def prim_attr(f, name):
    def pred(c):
        return c.k == "attr" and c.a[1] == name and feature_of(identity(c.a[0])) is feature_of(f)
    return pred


def is_name(t, of):
    if t.k == "mcall" and t.a[1] in ("get_name",):
        return t.a[0] is of
    if t.k == "pcall" and getattr(t.a[0], "name", "") == "get_name":
        return dict(t.a[1]).get("self") is of
    return False


def spread(t):
    """(root collection, element -> element term, drops the last) of something passed as *args"""
    s = seq_items(normal(t))
    if not s or s[0] != "each" or s[3]:
        return None
    _, coll, elt, _c = s
    cut = False
    base = coll
    while True:
        if base.k == "item" and base.a[1].k == "slice":
            sl = base.a[1]
            if not (sl.a[0] is NONE and is_const(sl.a[1]) and cval(sl.a[1]) == -1 and sl.a[2] is NONE) or cut:
                return None
            cut = True
            base = strip_copy(base.a[0])
            continue
        s2 = seq_items(base) if base.k == "comp" else None
        if s2 and s2[0] == "each" and not s2[3]:
            inner = s2[2]
            old = mk("elem", coll)
            coll = s2[1]
            elt = replace(elt, lambda x: inner if x is old else None)
            base = coll
            continue
        break
    return base, mk("elem", coll), elt, cut


def replace(t, f):
    from ..norm import rewrite
    return rewrite(t, lambda x: f(x) or x)


def judge_args(args, feats):
    """True / False / None (not derivable in this run)"""
    if len(args) == 1 and args[0].k == "star":
        src = args[0].a[0]
        if src.k == "param":
            return None
        sp = spread(src)
        if sp is None:
            return None if normal(src).k in ("phi", "upd", "ite") or contains(src, lambda x: x.k == "deep") else False
        root, el, elt, cut = sp
        if not (root.k == "attr" and root.a[1] == "base_features" and any(identity(root.a[0]) is feature_of(f) for f in feats)):
            return None if root.k in ("phi", "upd", "ite", "param") or contains(root, lambda x: x.k == "deep") else False
        if contains(elt, lambda x: x.k == "deep"):
            return None
        cols = [x for x in alts(elt)]
        for c in cols:
            while c.k in ("mcall", "attr"):
                c = c.a[0]
            if not (c.k == "item" and is_name(c.a[1], el)):
                return False
        grouped = contains(elt, lambda x: x.k == "mcall" and x.a[1] == "groupby" and any(contains(a, lambda y: y.k == "attr" and y.a[1] == "groupby") for a in x.a[2]))
        return cut == grouped
    return False


def time_ways(ev):
    """[(conds, time term or None)] for a call event"""
    base = Conds()
    for g, pol in ev.guards:
        n = base.add(g, pol)
        if n is None:
            return []
        base = n
    out = [(base, None)]
    for k, v in ev.d["kws"]:
        if k == "time":
            out = [(c2, None if x.k == "undef" or x.k == "call" and x.a[0] == "undef" else x) for c, _ in out for c2, x in gated(v, c)]
        elif k in ("**", None):
            nxt = []
            for c, t in out:
                for c2, leaf in gated(v, c):
                    nxt += [(c3, t if tv is None else tv) for c3, tv in entry(leaf, c2)]
            out = nxt
    return out


def entry(d, conds):
    """[(conds, value under the key 'time')] of a dict of keyword arguments"""
    if d.k == "upd":
        args = d.a[2]
        if d.a[0] == "setitem" and len(args) == 2 and is_const(args[0]):
            if cval(args[0]) == "time":
                return [(conds, args[1])]
        elif d.a[0] == "update" and len(args) == 1:
            out = []
            for c, leaf in gated(args[0], conds):
                for c2, v in entry(leaf, c):
                    out += [(c2, v)] if v is not None else entry(d.a[1], c2)
            return out
        return [(c2, v) for c, leaf in gated(d.a[1], conds) for c2, v in entry(leaf, c)]
    if d.k == "dict":
        for kk, vv in d.a[1]:
            if is_const(kk) and cval(kk) == "time":
                return [(conds, vv)]
    return [(conds, None)]


def engine_side(ctx):
    p = ctx.p
    c = p.cls("FeatureSetCalculator")
    sites = {}
    wraps = {}
    aggs = {}
    for m in c.methods.values():
        if m.name == "__init__":
            continue
        e = Engine(p, max_depth=6, budget=400000, types={"entityset": "EntitySet"}, inline=lambda g: cfm_inline(g) and g.name not in ("_calculate_features_for_entity", "run", "_calculate_features"), inline_properties=False)
        e.run(m)
        ctx.unit(m)
        for ev in e.events:
            if ev.kind != "call":
                continue
            ft = ev.d.get("fterm")
            feats = of_function(ft) if ft is not None else []
            if feats:
                s = sites.setdefault(ev.loc, {"args": [], "time": []})
                s["args"].append(judge_args(ev.d["args"], feats))
                ok = True
                for cs, tv in time_ways(ev):
                    want = [pol for g, pol in cs.items() if any(prim_attr(f, "uses_calc_time")(g) for f in feats)]
                    if not want:
                        ok = False
                    elif want[0]:
                        ok = ok and tv is not None and (tv.k == "attr" and tv.a[1] == "time_last" or tv.k == "param")
                    else:
                        ok = ok and tv is None
                s["time"].append(ok)
            # handed to pandas' aggregation
            if ev.d.get("name") in ("append", "add", "setdefault", "insert") and ev.d["args"]:
                fs = of_function(ev.d["args"][-1])
                if fs and ev.d["args"][-1].k != "tuple":
                    ok = pandas_agg(ev.guards, fs)
                    aggs.setdefault(ev.loc, []).append(ok)
        for ev in e.events:
            for t in list(ev.d.get("args") or []) + ([ev.d["value"]] if ev.d.get("value") is not None else []):
                for x in walk(t):
                    if x.k == "ite":
                        w = wrap_case(x)
                        if w is not None:
                            wraps.setdefault(m.name, []).append((w, x, ev.loc))
            if ev.kind == "setitem" and ev.d.get("value") is not None:
                fs = [f for y in alts(ev.d["value"]) for f in (sum([of_function(z) for z in y.a[1]], []) if y.k == "list" else [])]
                if fs:
                    aggs.setdefault(ev.loc, []).append(pandas_agg(ev.guards, fs))
    ctx.need(len(sites) >= 3, "calls of primitive functions in the calculator not found")
    for loc, s in sorted(sites.items(), key=lambda kv: str(kv[0])):
        got = s["args"]
        ctx.ob("inputs", str(loc), True in got and False not in got, loc,
               "the columns passed to the primitive are not exactly its base features' columns, in order (without the group-by column for grouped features)")
        ctx.ob("time", str(loc), all(s["time"]), loc, "the calculation time is not passed exactly when the primitive's uses_calc_time is set")
    for loc, oks in sorted(aggs.items(), key=lambda kv: str(kv[0])):
        ctx.ob("pandas-agg", str(loc), all(oks), loc, "a primitive that needs the calculation time, several inputs or several outputs is handed to pandas' own aggregation")
    done = set()
    for m, ws in sorted(wraps.items()):
        bad = [w for w in ws if not w[0]]
        ctx.ob("wrap", m, not bad, bad[0][2] if bad else ws[0][2], "the result is not treated as a single output exactly when the primitive has one output")
        done.add(m)


def pandas_agg(guards, fs):
    ls = []
    for g, pol in guards:
        ls += lits(g, pol)
    time = any(not pol and any(prim_attr(f, "uses_calc_time")(c) for f in fs) for c, pol in ls)

    def eq1(c, what):
        if c.k != "cmp":
            return None
        a, b = c.a[1], c.a[2]
        if is_const(a):
            a, b = b, a
        return what(a) and is_const(b) and c.a[0] == "==" and cval(b) == 1

    def le1(c, pol, what):
        if eq1(c, what):
            return pol
        if c.k == "cmp" and what(c.a[1]) and is_const(c.a[2]):
            return (c.a[0], cval(c.a[2]), pol) in ((">", 1, False), ("<", 2, True), ("<=", 1, True), (">=", 2, False))
        return False

    def nout(x):
        return any(x.k == "attr" and x.a[1] == "number_output_features" and feature_of(identity(x.a[0])) is feature_of(f) for f in fs)

    def nin(x):
        return x.k == "call" and x.a[0] == "len" and contains(x, lambda y: y.k == "attr" and y.a[1] == "base_features")
    return time and any(le1(c, pol, nout) for c, pol in ls) and any(le1(c, pol, nin) for c, pol in ls)


def wrap_case(x):
    """None, or whether an ite that wraps a primitive's result in a one-element list is decided by the number of outputs"""
    def result(t):
        return any(y.k in ("call", "tcall", "dcall", "ccall", "unk") or True for y in [t]) and contains(t, lambda y: y.k == "mcall" and y.a[1] == "get_function" or y.k == "pcall" and getattr(y.a[0], "name", "") == "get_function")

    def single(t):
        return t.k in ("list", "tuple") and len(t.a[1]) == 1 and result(t.a[1][0])
    c, a, b = x.a
    if single(a) == single(b):
        return None
    if not (result(a) and result(b)):
        return None
    pol = single(a)
    ls = lits(c, pol)
    for g, gp in ls:
        if g.k == "cmp":
            l, r, op = g.a[1], g.a[2], g.a[0]
            if is_const(l):
                l, r = r, l
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if l.k == "attr" and l.a[1] == "number_output_features" and is_const(r):
                v = cval(r)
                if len(ls) == 1 and (op, v, gp) in (("==", 1, True), (">", 1, False), ("<", 2, True), ("<=", 1, True), (">=", 2, False)):
                    return True
    return False


# ---------------------------------------------------------------- primitive side
def truth(c, name, default=False):
    a = attr_ast(c, name)
    if a is None:
        return default
    return bool(a.value) if isinstance(a, ast.Constant) else None


def positional(f):
    n = f.node
    a = n.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if f.cls is not None and f.parent is None and not f.is_staticmethod:
        pos = pos[1:]
    req = len(pos) - len(a.defaults)
    return pos, req, [x.arg for x in a.kwonlyargs], a.vararg is not None, a.kwarg is not None


def functions(p, c, lib):
    """[(what, FuncInfo or dotted name)] a primitive's get_function may return for one backend"""
    e, t = computation(p, c, lib)
    if t is None:
        return None
    out = []
    for x in alts(t):
        if x.k == "closure":
            out.append(x.a[1])
        elif x.k == "glob":
            out.append(x.a[0])
        elif x.k == "attr" and x.a[0].k == "glob":
            out.append(x.a[0].a[0] + "." + x.a[1])
        elif x.k == "bound" or x.k == "func":
            f = next((a for a in x.a if hasattr(a, "node")), None)
            out.append(f if f is not None else None)
        elif x.k == "call" and str(x.a[0]).endswith("partial") and x.a[1]:
            out.append(None)
        else:
            out.append(None)
    return out


ELEMENTWISE_HOSTS = {"apply", "map", "applymap", "transform"}


def cross_rows(t, params):
    """operations in t that combine rows of one of the closure's column parameters"""
    def column(x):
        return contains(x, lambda y: y.k == "param" and y.a[0] in params)
    out = []

    def total(x):
        return x.k == "call" and x.a[0] == "len" and any(y.k == "param" and y.a[0] in params for y in x.a[1])

    def visit(x):
        if x in seen:
            return
        seen.add(x)
        if x.k == "cbcall":
            # receiver, method, result of the callback on one element
            visit(x.a[0])
            if x.a[1] not in ELEMENTWISE_HOSTS:
                for y in x.a[2:]:
                    vis_any(y)
            return
        if x.k == "mcall":
            r, n = x.a[0], x.a[1]
            if n in CROSS and not (r.k == "attr" and r.a[1] in SPACE) and (column(r) or any(column(a) for a in x.a[2])):
                out.append(n)
            if n in ("fillna", "reindex") and any(k == "method" for k, _ in x.a[3]):
                out.append(n)
        elif x.k == "call":
            n = str(x.a[0]).split(".")[-1]
            if n in CROSS and any(column(a) for a in x.a[1]):
                if not scalar_axis(x):
                    out.append(n)
        elif x.k == "bin" and x.a[0] in ("+", "-", "*", "/", "//", "%", "**") and any(y.k not in ("list", "tuple") and column(y) and not total(y) for y in x.a[1:3]) and any(total(y) for y in x.a[1:3]):
            out.append("len")
        elif x.k == "attr" and x.a[1] in ("iloc", "iat") and column(x.a[0]):
            out.append(x.a[1])
        elif x.k == "attr" and x.a[1] in ("is_unique", "is_monotonic", "is_monotonic_increasing", "is_monotonic_decreasing", "size", "shape") and column(x.a[0]):
            out.append(x.a[1])
        elif x.k == "item" and column(x.a[0]) and (x.a[1].k == "slice" or is_const(x.a[1]) and isinstance(cval(x.a[1]), int)) and x.a[0].k in ("param",):
            out.append("[]")
        elif x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "values" and column(x.a[0]) and (x.a[1].k == "slice" or is_const(x.a[1])):
            out.append("[]")
        for y in x.a:
            vis_any(y)

    def vis_any(y):
        if hasattr(y, "k"):
            visit(y)
        elif isinstance(y, tuple):
            for z in y:
                vis_any(z)
    seen = set()
    visit(t)
    return sorted(set(out))


def scalar_axis(x):
    return any(k == "axis" for k, _ in (x.a[2] if len(x.a) > 2 and isinstance(x.a[2], tuple) else ()) if isinstance(k, str))


def primitive_side(ctx):
    p = ctx.p
    for c in primitives(p):
        if c.name in ("AggregationPrimitive", "TransformPrimitive"):
            continue
        t_flag = truth(c, "uses_calc_time")
        full = truth(c, "uses_full_entity")
        sigs = arities(c)
        g = c.find_method("get_function")
        if g is None or g.cls.name == "PrimitiveBase":
            ctx.bad("signature", c.name, c.loc, "has no function")
            continue
        ctx.unit(g)
        multi = multi_output(p, c)
        for lib in compatibility(p, c) or ["PANDAS"]:
            fs = functions(p, c, lib)
            if fs is None:
                continue
            if kind(c) == "aggregation" and lib != "PANDAS":
                continue
            results = {f.node: r for f, r in run_computation(p, c, lib)}
            for f in fs:
                tag = "%s on %s" % (c.name, lib)
                if isinstance(f, str):
                    n = f.split(".")[-1]
                    ar = 2 if n in BINARY_UFUNC else 1 if n in UNARY_UFUNC or ".Series." in "." + f + "." else None
                    if ar is None and f.split(".")[0] in ("numpy", "pandas", "operator") and kind(c) == "aggregation":
                        ar = 1
                    ctx.ob("signature", tag, ar is not None and all(len(s) == ar for s in sigs or []) and not t_flag, g.loc,
                           "%s takes %s column(s), the primitive declares %s" % (f, ar, sorted({len(s) for s in sigs or []})))
                    if kind(c) == "transform":
                        ctx.ob("whole-entity", tag, n not in CROSS or bool(full), g.loc, "%s combines rows, yet uses_full_entity is not set" % f)
                    ctx.ob("outputs", tag, not multi, g.loc, "%s returns one output" % f)
                    continue
                if f is None:
                    ctx.ob("signature", tag, True, g.loc)      # built dynamically: no static claim
                    continue
                ctx.unit(f)
                pos, req, kwo, va, kw = positional(f)
                takes = "time" in pos or "time" in kwo or kw
                data = [x for x in pos if x != "time"]
                opt = max(0, len(pos) - req - (1 if "time" in pos[req:] else 0))
                ok_n = va or all(len(data) - opt <= len(s) <= len(data) for s in sigs or [])
                if "time" in pos and pos.index("time") < len(data):
                    ok_n = False
                ctx.ob("signature", tag, bool(sigs) and ok_n and bool(takes) == bool(t_flag), f.loc,
                       "the function takes %d column(s)%s; declared are %s column(s) and uses_calc_time=%s" % (len(data), " and the time" if takes else "", sorted({len(s) for s in sigs or []}), bool(t_flag)))
                r = results.get(f.node)
                if r is None:
                    continue
                if kind(c) == "transform":
                    cr = cross_rows(r, set(data))
                    ctx.ob("whole-entity", tag, not cr or bool(full), f.loc, "the function combines rows of its column (%s), yet uses_full_entity is not set" % ", ".join(cr))
                n = multi
                outs = [arity(x, n) for x in alts(r)]
                if n is None:
                    ctx.ob("outputs", tag, not any(isinstance(o, int) for o in outs), f.loc, "the function returns a tuple, the primitive declares one output")
                else:
                    lv = [gl for gl in gated(r)]
                    ctx.ob("outputs", tag, all(exactly(cn, x, n) for cn, x in lv), f.loc, "the function does not return exactly %s outputs on every path" % show(n))
    # declared number of outputs follows a constructor argument when the number of returned values does
    return


def multi_output(p, c):
    """term of the declared number of outputs when it is not the constant 1"""
    init = c.find_method("__init__")
    a = attr_ast(c, "number_output_features")
    v = None
    if isinstance(a, ast.Constant) and a.value != 1:
        v = mk("const", a.value)
        from ..flow import const
        v = const(a.value)
    if init is not None and init.cls.name not in ("PrimitiveBase",):
        e = Engine(p, inline=lambda g: False, inline_properties=False)
        e.run(init)
        vals = {}
        for ev in e.evs("setattr"):
            if ev.d["attr"] == "number_output_features":
                v = ev.d["value"]
            else:
                vals[ev.d["value"]] = ev.d["attr"]
        if v is not None and v.k == "param" and v in vals:
            v = mk("attr", mk("inst", c.name, "self"), vals[v])
    return v


def arity(x, n):
    if x.k == "tuple":
        return len(x.a[1])
    return None


def exactly(conds, x, n):
    """x has exactly n elements under conds"""
    L = length(x, n)
    if L is None:
        return False
    if L == "n":
        return True
    if L[0] == "min":
        # at most n; exactly n unless shorter
        y = L[1]

        def ge(c, pol):
            if c.k != "cmp":
                return False
            a, b, op = c.a[1], c.a[2], c.a[0]
            if a.k == "bin" and a.a[0] == "-" and is_const(b) and cval(b) == 0:
                a, b = a.a[1], a.a[2]
            if same_attr(a, n):
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if not (same_attr(b, n) and a.k == "call" and a.a[0] == "len" and length(a.a[1][0], n) == L):
                return False
            return (op, pol) in (("<", False), (">=", True), ("==", True))
        return conds.exempt(ge)
    return False


def same_attr(a, n):
    if a is n:
        return True
    return a.k == "attr" and n.k == "attr" and a.a[1] == n.a[1] and a.a[0].k not in ("attr", "item", "elem") or is_const(a) and is_const(n) and cval(a) == cval(n)


def length(x, n):
    """'n' | ('min', base): min(n, length of base) | None"""
    if x.k in ("list", "tuple"):
        return "n" if is_const(n) and len(x.a[1]) == cval(n) else None
    if x.k == "call" and str(x.a[0]).split(".")[-1] in ("array", "asarray", "list", "tuple") and x.a[1]:
        return length(x.a[1][0], n)
    if x.k == "item" and x.a[1].k == "slice":
        s = x.a[1]
        if s.a[0] in (NONE, mk("const", 0)) and same_attr(s.a[1], n) and s.a[2] is NONE:
            return ("min", x.a[0])
        return None
    if x.k == "mcall" and x.a[1] in ("head", "nlargest") and x.a[2] and same_attr(x.a[2][0], n):
        return ("min", x.a[0])
    if x.k == "mcall" and x.a[1] in ("tolist", "to_list", "to_numpy", "copy"):
        return length(x.a[0], n)
    if x.k == "attr" and x.a[1] in ("index", "values"):
        return length(x.a[0], n)
    if x.k == "call" and str(x.a[0]).split(".")[-1] in ("append", "concatenate") or x.k == "bin" and x.a[0] == "+":
        parts = list(x.a[1]) if x.k == "call" else [x.a[1], x.a[2]]
        if len(parts) == 1 and parts[0].k in ("list", "tuple"):
            parts = list(parts[0].a[1])
        if len(parts) == 2:
            L = length(parts[0], n)
            if L and L[0] == "min" and pad_count(parts[1], n, L):
                return "n"
            # padded then always exact
    if x.k == "call" and str(x.a[0]).split(".")[-1] in ("full",) and x.a[1] and same_attr(x.a[1][0], n):
        return "n"
    return None


def pad_count(x, n, L):
    """x has n - len(first) elements"""
    cnt = None
    if x.k == "call" and str(x.a[0]).split(".")[-1] in ("full", "repeat", "zeros", "empty"):
        cnt = x.a[1][0]
    elif x.k == "bin" and x.a[0] == "*":
        cnt = x.a[2] if x.a[1].k in ("list", "tuple") else x.a[1]
    if cnt is None or not (cnt.k == "bin" and cnt.a[0] == "-"):
        return False
    return same_attr(cnt.a[1], n) and cnt.a[2].k == "call" and cnt.a[2].a[0] == "len" and length(cnt.a[2].a[1][0], n) == L


# ---------------------------------------------------------------- scheduling
def recursive(p, cls):
    c = p.cls(cls)
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == m.name and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                return m
    raise AnalysisBroken("%s has no recursive method" % cls)


def declares(feature):
    """literal test: (x, pol) says that the feature's primitive does not need the whole entity"""
    def attr(x):
        return x.k == "attr" and x.a[1] == "uses_full_entity" and feature_of(identity(x.a[0])) is feature

    def pred(c, pol):
        if pol:
            return False
        if attr(c):
            return True
        if c.k == "call" and c.a[0] == "isinstance" and identity(c.a[1][0]) is feature:
            k = c.a[1][1]
            return k.k == "cls" and str(getattr(k.a[0], "name", k.a[0])).split(".")[-1] in ("TransformFeature", "FeatureBase")
        if c.k == "bool" and c.a[0] == "and":
            rest = [x for x in c.a[1] if not attr(x)]
            return len(rest) < len(c.a[1]) and all(x.k == "call" and x.a[0] in ("isinstance", "hasattr") and identity(x.a[1][0]) is feature for x in rest)
        return False
    return pred


def scheduling(ctx):
    p = ctx.p
    m = recursive(p, "FeatureSet")
    e = Engine(p, max_depth=5, inline=lambda g: (g.cls is None or g.cls.name == "FeatureSet") and g is not m, inline_properties=False)
    e.run(m)
    ctx.unit(m)
    rec = [ev for ev in e.evs("call") if any(c.node is m.node for c in ev.d.get("callee") or [])]
    ctx.need(rec, "FeatureSet's recursion over dependencies not found")
    # the flag handed down is the parameter that has a default
    flag = feat = None
    for ev in rec:
        b = ev.d.get("bound") or {}
        for q, v in b.items():
            if contains(v, lambda x: x.k in ("mcall", "pcall") and ("get_dependencies" in (x.a[1] if x.k == "mcall" else getattr(x.a[0], "name", "")))):
                if not contains(v, lambda x: x.k == "mcall" and x.a[1] == "get_node"):
                    feat = q
        for q, v in b.items():
            if contains(v, lambda x: x.k == "attr" and x.a[1] == "uses_full_entity"):
                flag = q
    ctx.ob("schedule", "dependencies are told that the whole entity is needed", flag is not None and feat is not None, rec[0].loc,
           "a feature's need for the whole entity is not passed on to the features it depends on")
    if flag is None or feat is None:
        return
    F = mk("param", feat)
    for x in walk(rec[0].d["bound"][flag]):
        if x.k == "param" and x.a[0] == feat:
            F = x
            break
    P = next((x for x in walk(rec[0].d["bound"][flag]) if x.k == "param" and x.a[0] == flag), None)
    dec = declares(F)
    # several guarded recursion sites: each must hand down a flag that covers both reasons
    for ev in rec:
        t = (ev.d.get("bound") or {}).get(flag)
        base = Conds()
        for g, pol in ev.guards:
            n = base.add(g, pol)
            base = n if n is not None else base

        def covered(why):
            for cs, leaf in gated(t, base) if t is not None else [(base, mk("const", False))]:
                if is_const(leaf) and cval(leaf) or cs.value(leaf) is True:
                    continue
                if leaf is not None and not is_const(leaf) and exempt(leaf, False, why):
                    continue
                if cs.exempt(why):
                    continue
                return False
            return True
        ctx.ob("schedule", "dependencies inherit the need", P is not None and covered(lambda c, pol: c is P and not pol), ev.loc, "a need for the whole entity inherited from a dependent feature is not passed on")
        ctx.ob("schedule", "dependencies of a whole-entity feature", covered(dec), ev.loc, "the dependencies of a feature whose primitive needs the whole entity are not computed on the whole entity")

    def implied(guards, why):
        """guards imply that the reason does not hold"""
        return any(exempt(g, pol, why) for g, pol in guards)
    # where its name is put
    puts = {1: [], 2: []}
    for ev in e.evs("call"):
        if ev.d.get("name") == "add" and ev.d.get("recv") is not None:
            for x in alts(ev.d["recv"]):
                if x.k == "item" and is_const(x.a[1]) and cval(x.a[1]) in (1, 2) or x.k == "idx" and x.a[1] in (1, 2):
                    puts[cval(x.a[1]) if x.k == "item" else x.a[1]].append(ev)
    ctx.ob("schedule", "sets", bool(puts[1]) and bool(puts[2]), m.loc, "the sets of whole-entity and other features are not both filled")
    for ev in puts[2]:
        ok = implied(ev.guards, lambda c, pol: c is P and not pol) and implied(ev.guards, dec)
        ctx.ob("schedule", "filtered set", ok, ev.loc, "a feature that needs the whole entity (itself or through a dependent) can be put among those computed on filtered rows")
    # the node is marked
    marks = [ev for ev in e.evs("setattr") if ev.d["attr"] == "value" and ev.d["value"].k == "tuple" and is_const(ev.d["value"].a[1][0]) and cval(ev.d["value"].a[1][0]) is True]
    own = [ev for ev in marks if not any(g.k == "inloop" for g, _ in ev.guards)]
    path = [ev for ev in marks if any(g.k == "inloop" and contains(g, lambda x: x.k == "attr" and x.a[1] == "relationship_path") for g, _ in ev.guards)]
    put_g = [set(ev.guards) for ev in puts[1]]
    ctx.ob("schedule", "node marked", any(set(ev.guards) <= g for ev in own for g in put_g), m.loc, "the node of a whole-entity feature is not marked as needing the whole entity")
    ctx.ob("schedule", "path marked", any({x for x in ev.guards if x[0].k != "inloop"} <= g for ev in path for g in put_g), m.loc, "the entities on the path to a whole-entity feature's inputs are not marked as needing the whole entity")
    calculator(ctx)
    approximation(ctx)


def calculator(ctx):
    p = ctx.p
    m = recursive(p, "FeatureSetCalculator")
    e = Engine(p, max_depth=6, budget=400000, types={"entityset": "EntitySet"}, inline_properties=False,
               inline=lambda g: cfm_inline(g) and g is not m and "group_features" != g.name and not uses_groups(g))
    e.run(m)
    ctx.unit(m)

    def node_flag(x):
        return x.k == "item" and is_const(x.a[1]) and cval(x.a[1]) == 0 and x.a[0].k == "attr" and x.a[0].a[1] == "value" or x.k == "idx" and x.a[1] == 0
    q = [ev for ev in e.evs("call") if any(c.name == "query_by_values" for c in ev.d.get("callee") or [])]
    ctx.need(q, "the calculator's query was not found")
    for ev in q:
        v = (ev.d.get("bound") or {}).get("instance_vals")
        bad = False
        if v is not None:
            for cs, leaf in gated(v):
                for g, pol in ev.guards:
                    cs = cs and cs.add(g, pol)
                if cs is None or leaf is NONE:
                    continue
                if not any(node_flag(c) and not pol for c, pol in cs.items()):
                    bad = True
        ctx.ob("schedule", "query of the whole entity", not bad, ev.loc, "an entity marked as needing all rows can be queried for the requested instances only")
    runs = [ev for ev in e.evs("call") if any(uses_groups(c) for c in ev.d.get("callee") or [])]
    full = []
    for ev in runs:
        b = ev.d.get("bound") or {}
        if any(x.k == "item" and is_const(x.a[1]) and cval(x.a[1]) == 1 and x.a[0].k == "attr" and x.a[0].a[1] == "value" for v in b.values() for x in alts(strip_copy(v))):
            full.append(ev)
    ctx.need(full, "the computation of the whole-entity features was not found")
    fv = next((x for ev in q for v in [(ev.d.get("bound") or {}).get("instance_vals")] if v is not None for x in walk(v) if x.k == "param"), None)

    def narrowed(t):
        return contains(t, lambda x: x.k == "mcall" and x.a[1] in ("isin", "query", "loc") and any(contains(a, lambda y: y is fv) for a in x.a[2]))
    for ev in full:
        b = ev.d["bound"]
        frames = [v for k, v in b.items() if contains(v, lambda x: x.k in ("pcall",) and getattr(x.a[0], "name", "") == "query_by_values")]
        ctx.ob("schedule", "rows of the whole-entity features", bool(frames) and not any(restricted(f, narrowed) for f in frames), ev.loc, "features that need the whole entity are computed on rows filtered to the requested instances")
        tries = {v for k, v in b.items() if v.k == "param"}
        st = [s for s in e.evs("setattr") if s.d["attr"] == "value" and s.d["recv"] in tries]
        ctx.ob("schedule", "store of the whole-entity rows", bool(st) and all(not restricted(s.d["value"], narrowed) for s in st), ev.loc,
               "the rows stored for the dependents of whole-entity features are filtered, or not stored")


def restricted(t, narrowed):
    """a data path of the frame goes through a selection of the requested instances"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "item" and narrowed(x.a[1]):
            return True
        if x.k == "item" or x.k == "attr" or x.k == "elem" or x.k == "part":
            st.append(x.a[0])
        elif x.k == "mcall":
            st.append(x.a[0])
        elif x.k == "ite":
            st += [x.a[1], x.a[2]]
        elif x.k == "phi":
            st += list(x.a[0])
        elif x.k == "upd":
            st.append(x.a[1])
        elif x.k == "pcall" and getattr(x.a[0], "name", "") != "query_by_values":
            st += [v for _, v in x.a[1]]
    return False


def uses_groups(g):
    return any(isinstance(n, ast.Attribute) and n.attr == "group_features" for n in ast.walk(g.node))


def approximation(ctx):
    """features approximated in advance are not ones on which a whole-entity feature depends"""
    p = ctx.p
    fs = [f for f in p.all_functions() if f.cls is None and f.parent is None and "computational_backends" in f.module.name]
    n = 0
    for f in fs:
        if not any(isinstance(x, ast.Attribute) and x.attr == "target_features" for x in ast.walk(f.node)) or not any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "Trie" for x in ast.walk(f.node)):
            continue
        e = Engine(p, max_depth=5, types={"feature_set": "FeatureSet"}, inline=lambda g: g.module is f.module and g.cls is None, inline_properties=False)
        e.run(f)
        ctx.unit(f)
        for ev in e.evs("call"):
            if ev.d.get("name") in ("add", "append") and ev.d["args"] and contains(ev.d["args"][0], lambda x: x.k in ("mcall", "pcall") and "unique_name" in str(x.a[1] if x.k == "mcall" else x.a[0])):
                n += 1

                def excluded(c, pol):
                    if pol or c.k not in ("mcall", "pcall"):
                        return False
                    nm = c.a[1] if c.k == "mcall" else getattr(c.a[0], "name", "")
                    if nm != "uses_full_entity":
                        return False
                    kws = dict(c.a[3]) if c.k == "mcall" else dict(c.a[1])
                    pos = list(c.a[2]) if c.k == "mcall" else []
                    cd = kws.get("check_dependents", pos[1] if len(pos) > 1 else None)
                    return cd is not None and is_const(cd) and bool(cval(cd))
                ok = any(exempt(g, pol, excluded) for g, pol in ev.guards)
                ctx.ob("schedule", "approximated features", ok, ev.loc, "a feature that a whole-entity feature depends on can be approximated")
    ctx.need(n, "the choice of the features to approximate was not found")


def check(ctx):
    engine_side(ctx)
    primitive_side(ctx)
    scheduling(ctx)
