"""For every built-in primitive and every backend it declares: get_function yields a computation for that backend on every
path (aggregations on Dask: an aggregation name Dask knows or a dask Aggregation with a chunk and an aggregate step; on
Koalas: a Spark aggregation name), the aggregation has the form the lazy backends compute (one input, one output, no
calculation time), and an element-wise computation uses nothing that needs the whole column in memory.  Synthesis refuses
every list of selected primitives that holds one not declaring the EntitySet's backend, fills defaults only with
declaring ones, and the calculation asks for the function of the backend of the frame at hand."""
import ast
from ..flow import Engine, mk, is_const, cval, contains, walk, identity, show, NONE
from ..norm import canon, rewrite, strip_copy
from ..prims import primitives, compatibility, computation, kind, attr_ast, closures, nested, LIBS
from ..util import gated, lits, cfm_engine, has_attr

TECHNIQUE = "per-backend symbolic evaluation of get_function, syntax dataflow of element-wise computations, and guard analysis of primitive selection"
LEVEL_NOTE = "Which operations Dask and Koalas implement is a fixed table; numerical agreement between backends is not decided."
MIN_INSTANCES = {"provided": 100, "aggregable": 12, "lazy": 40, "selection": 8, "backend-function": 2}

DASK_AGGS = {"sum", "mean", "min", "max", "count", "size", "std", "var", "nunique", "first", "last", "prod", "median", "list", "cov", "corr"}
SPARK_AGGS = {"sum", "mean", "avg", "min", "max", "count", "stddev", "stddev_samp", "stddev_pop", "variance", "var_samp", "std", "var", "nunique", "first", "last", "approx_count_distinct", "collect_set", "collect_list", "skewness", "kurtosis", "quantile"}
UFUNCS = set("""add subtract multiply divide true_divide floor_divide mod remainder fmod power absolute fabs abs negative positive
sign sqrt square cbrt exp exp2 expm1 log log2 log10 log1p sin cos tan arcsin arccos arctan arctan2 hypot sinh cosh tanh
bitwise_and bitwise_or bitwise_xor invert bitwise_not logical_and logical_or logical_xor logical_not greater greater_equal
less less_equal equal not_equal maximum minimum fmax fmin isfinite isinf isnan isnat floor ceil trunc rint round around
radians degrees deg2rad rad2deg clip""".split())
EAGER_ATTR = {"values", "array", "iloc", "loc", "iat", "at", "rank", "tolist", "to_list", "to_numpy", "sort_values", "argsort", "items",
              "iteritems", "interpolate", "ewm", "expanding", "sort_index", "take", "searchsorted", "reindex", "ravel", "item",
              "__iter__", "__array__", "cumcount", "swaplevel", "pct_change", "groupby", "T"}
META_ATTR = {"dtype", "name", "cat", "index", "divisions", "npartitions"}
EAGER_CALL = {"len", "list", "set", "tuple", "sorted", "map", "zip", "filter", "enumerate", "sum", "any", "all", "reversed", "dict", "iter", "next", "bool", "float", "int", "str"}


def check(ctx):
    p = ctx.p
    prims = primitives(p)
    ctx.need(len(prims) > 30, "built-in primitives not found")
    for c in prims:
        libs = compatibility(p, c)
        f = c.find_method("get_function")
        if f is None or f.cls.name == "PrimitiveBase":
            ctx.ob("provided", c.name, False, c.module.rel, "%s has no computation" % c.name)
            continue
        ctx.unit(f)
        if libs is None:
            ctx.ob("provided", "%s declares known backends" % c.name, False, c.module.rel, "the backends %s declares are not a list of Library members" % c.name)
            continue
        for lib in libs:
            ctx.ob("provided", "%s declares %s" % (c.name, lib), lib in LIBS, f.loc, "%s declares an unknown backend %s" % (c.name, lib))
            one(ctx, c, f, lib)
    selection(ctx)
    calculation(ctx)


def one(ctx, c, f, lib):
    p = ctx.p
    k = kind(c)
    prms = f.all_params()[1:]
    what = "%s on %s" % (c.name, lib)
    if k == "aggregation" and lib != "PANDAS" and not prms:
        ctx.ob("provided", what, False, f.loc, "%s.get_function takes no backend, so it has nothing of its own for %s" % (c.name, lib))
        return
    try:
        e, r = computation(p, c, lib)
    except KeyError:
        return
    for cc, x in gated(rewrite(r, canon)):
        ok, msg = good(p, c, k, lib, x)
        ctx.ob("provided", what, ok, f.loc, msg or "get_function of %s gives no computation for %s" % (c.name, lib))
    if k == "aggregation" and lib != "PANDAS":
        def flag(n):
            a = attr_ast(c, n)
            return a.value if isinstance(a, ast.Constant) else None
        sigs = attr_ast(c, "input_types")
        wide = isinstance(sigs, (ast.List, ast.Tuple)) and any(len(s.elts) > 1 for s in (sigs.elts if sigs.elts and isinstance(sigs.elts[0], (ast.List, ast.Tuple)) else [sigs]))
        ctx.ob("aggregable", what, flag("uses_calc_time") is False and flag("number_output_features") == 1 and not wide, f.loc,
               "%s declares %s but needs the calculation time, several inputs or several outputs, which are computed with its pandas function" % (c.name, lib))
    if k == "transform" and lib != "PANDAS":
        for cl in closures(r):
            for line, what2 in eager(cl):
                ctx.ob("lazy", "%s: %s" % (what, what2), False, "%s:%d" % (f.module.rel, line), "%s declares %s but its computation %s" % (c.name, lib, what2))
        ctx.ob("lazy", what, True, f.loc, "")


def good(p, c, k, lib, x):
    if x is NONE or is_const(x) and not isinstance(cval(x), str) or x.k in ("bot", "undef", "noret"):
        return False, None
    if k == "transform":
        if lib != "PANDAS" and x.k == "glob":
            n = x.a[0]
            ok = n.startswith("numpy.") and n.split(".")[-1] in UFUNCS or n in ("abs", "operator.neg") or n.startswith("operator.")
            return ok, "%s applies %s to %s data" % (c.name, n, lib)
        return not is_const(x), None
    dask_agg = x.k == "call" and x.a[0].endswith("dataframe.Aggregation") or x.k == "new" and x.a[0] == "Aggregation"
    if lib == "PANDAS":
        return not dask_agg, "%s hands pandas a Dask aggregation" % c.name
    if is_const(x):
        known = DASK_AGGS if lib == "DASK" else SPARK_AGGS
        return cval(x) in known, "%s names the aggregation %r, which %s does not have" % (c.name, cval(x), lib)
    if lib == "DASK":
        if not dask_agg:
            return False, "%s gives Dask something other than a named or chunked aggregation" % c.name
        pos, kws = list(x.a[1]), dict(x.a[2]) if x.k == "call" else {}
        have = set(["name", "chunk", "agg", "finalize"][:len(pos)]) | set(kws)
        none = [q for q, v in kws.items() if v is NONE and q in ("chunk", "agg")]
        return {"name", "chunk", "agg"} <= have and not none, "the Dask aggregation of %s lacks a step" % c.name
    return False, "%s gives Koalas something other than a named aggregation" % c.name


def eager(fi):
    """[(line, what)] uses of a lazily evaluated column that need all of it"""
    node = fi.node
    a = node.args
    taint = {x.arg for x in a.posonlyargs + a.args if x.arg not in ("time", "self")} | ({a.vararg.arg} if a.vararg else set())
    body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]

    def t(n):
        if isinstance(n, ast.Name):
            return n.id in taint
        if isinstance(n, ast.Attribute):
            return n.attr not in META_ATTR and t(n.value)
        if isinstance(n, ast.Subscript):
            return t(n.value)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and t(n.func.value):
                return True
            return any(t(x) for x in n.args)
        if isinstance(n, ast.BinOp):
            return t(n.left) or t(n.right)
        if isinstance(n, ast.UnaryOp):
            return t(n.operand)
        if isinstance(n, ast.Compare):
            return t(n.left) or any(t(x) for x in n.comparators)
        if isinstance(n, ast.IfExp):
            return t(n.body) or t(n.orelse)
        return False
    for _ in range(3):
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Assign) and t(n.value):
                    for tg in n.targets:
                        for z in ast.walk(tg):
                            if isinstance(z, ast.Name):
                                taint.add(z.id)
    out = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.For, ast.comprehension)) and t(n.iter):
                out.append((getattr(n, "lineno", n.iter.lineno), "goes through the values one by one"))
            elif isinstance(n, ast.Attribute) and n.attr in EAGER_ATTR and t(n.value):
                out.append((n.lineno, "uses .%s of a column" % n.attr))
            elif isinstance(n, ast.Subscript) and t(n.value) and not isinstance(n.ctx, ast.Load):
                out.append((n.lineno, "stores into a column"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in EAGER_CALL and any(t(x) for x in n.args):
                out.append((n.lineno, "takes %s() of a column" % n.func.id))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("pd", "pandas", "np", "numpy") and any(t(x) for x in n.args):
                if n.func.value.id in ("np", "numpy") and n.func.attr in UFUNCS:
                    continue
                out.append((n.lineno, "hands a column to %s.%s" % (n.func.value.id, n.func.attr)))
    return out


LISTS = ("agg_primitives", "trans_primitives", "where_primitives", "groupby_trans_primitives")


def selection(ctx):
    p = ctx.p
    c = p.cls("DeepFeatureSynthesis")
    f = c.find_method("__init__")
    ctx.unit(f)
    me = mk("inst", c.name, "self")

    def inline(g):
        return g.cls is c or g.cls is None and g.module is c.module
    e = Engine(p, inline=inline, inline_properties=False, max_depth=5)
    e.run(f, self_term=me)
    stored = {}
    for ev in e.evs("setattr"):
        if identity(ev.recv) is me and ev.attr in LISTS:
            stored.setdefault(ev.attr, []).append(ev)
    # the refusal
    covered, types, where = set(), [], f.loc

    def compat_test(x):
        """(backend term, primitive term, polarity: True when it says 'not declared') for a membership test on .compatibility"""
        out = []
        for z in walk(x):
            if z.k == "cmp" and z.a[0] in ("in", "not in") and z.a[2].k == "attr" and z.a[2].a[1] == "compatibility":
                out.append((z.a[1], z.a[2].a[0], z.a[0] == "not in"))
        return out

    def sources(prim):
        """attributes of self whose elements the primitive ranges over"""
        got = set()
        for z in walk(prim):
            if z.k in ("elem", "valof", "keyof"):
                for w in walk(z.a[0]):
                    if w.k == "attr" and identity(w.a[0]) is me and w.a[1] in LISTS:
                        got.add(w.a[1])
                for n, evs in stored.items():
                    for ev in evs:
                        ident = {identity(ev.value), ev.value, rewrite(ev.value, canon), rewrite(identity(ev.value), canon)}
                        if contains(z.a[0], lambda w: w in ident or w.k == "param" and w.a[0] == n):
                            got.add(n)
        return got
    order = []
    for ev in e.evs("raise"):
        for g, pol in ev.guards:
            g = rewrite(g, canon)
            for b, prim, neg in compat_test(g):
                how = refuses(g, pol)
                if how:
                    covered |= sources(prim)
                    types.append(b)
                    order.append(ev.i if hasattr(ev, "i") else ev.seq if hasattr(ev, "seq") else 0)
                    where = ev.loc
    for n in LISTS:
        ctx.ob("selection", "%s refused when not declared" % n, n in covered, where, "a primitive in %s that does not declare the EntitySet's backend is not refused" % n)
        ctx.need(n in stored, "DeepFeatureSynthesis no longer keeps %s" % n)
    # the backend asked about
    for b in types[:1]:
        b = rewrite(b, canon)
        names = {}
        for cc, x in gated(b):
            lab = libname(p, x)
            names.setdefault(lab, []).append(cc)
        for lab in LIBS:
            ctx.ob("selection", "an EntitySet can be of backend %s" % lab, lab in names, where, "the EntitySet's backend is never %s" % lab)

        def says(lab):
            def pred(a, pol):
                return pol and contains(a, lambda z: z.k in ("glob", "cls") and (lab in str(z.a[0]).lower() or lab == "koalas" and ("koalas" in str(z.a[0]) or str(z.a[0]).endswith(".ks"))))
            return pred
        def other(lab):
            """a test of the data which this backend's data cannot have passed this way"""
            def pred(a, pol):
                if not pol:
                    return says(lab)(a, True)
                return any(says(l)(a, True) for l in ("pandas", "dask", "koalas") if l != lab)
            return pred
        for lab in LIBS:
            for l2 in LIBS:
                if l2 == lab or l2 == "PANDAS":
                    continue
                for cc in names.get(lab, []):
                    ctx.ob("selection", "%s not for %s data" % (lab, l2), cc.exempt(other(l2.lower())), where,
                           "an EntitySet of %s data can be taken to be %s" % (l2, lab))
        for lab in ("DASK", "KOALAS"):
            for cc in names.get(lab, []):
                ctx.ob("selection", "%s only for its own data" % lab, cc.exempt(says(lab.lower())), where, "the EntitySet is taken to be %s without its data being so" % lab)
    # nothing is put on the lists afterwards
    for m in c.methods.values():
        if m.name == "__init__":
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr in LISTS and isinstance(n.value, ast.Name) and n.value.id == "self":
                st = isinstance(n.ctx, (ast.Store, ast.Del))
                ctx.ob("selection", "%s fixed after the check (%s)" % (n.attr, m.name), not st, "%s:%d" % (m.module.rel, n.lineno), "%s changes %s after the backend check" % (m.name, n.attr))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in LISTS:
                ctx.ob("selection", "%s fixed after the check (%s)" % (n.func.value.attr, m.name), False, "%s:%d" % (m.module.rel, n.lineno), "%s adds to %s after the backend check" % (m.name, n.func.value.attr))
    # defaults
    for n in ("agg_primitives", "trans_primitives"):
        defaults = []
        terms = [ev.value for ev in stored[n]] + [g.a[0] for ev in e.evs("call") + e.evs("raise") for g, _ in ev.guards if g.k == "inloop"]
        for t in terms:
            for z in walk(t):
                if z.k == "ite" and z.a[0].k == "cmp" and z.a[0].a[0] in ("is", "is not") and NONE in z.a[0].a[1:] and any(y.k == "param" and y.a[0] == n for y in z.a[0].a[1:]):
                    defaults.append(z.a[1] if z.a[0].a[0] == "is" else z.a[2])
        ctx.need(defaults, "the default of %s was not found" % n)
        ok = True
        for d in set(defaults):
            d = rewrite(d, canon)
            if d.k in ("elem", "mcall", "attr", "cls", "list", "tuple"):
                continue       # one of its elements
            fine = False
            for z in walk(d):
                if z.k == "closure" and any(isinstance(y, ast.Attribute) and y.attr == "compatibility" for y in ast.walk(z.a[1].node)):
                    fine = True
                if z.k == "comp" and any(pos for g in z.a[2] for cnd in g.a[1] for _, _, neg in compat_test(cnd) for pos in [not neg]):
                    fine = True
                if z.k == "ite" and any(not neg for _, _, neg in compat_test(z.a[0])):
                    fine = True
            if d.k in ("comp", "phi", "call", "pcall", "ite") and not fine:
                ok = False
        ctx.ob("selection", "default %s declare the backend" % n, ok, stored[n][0].loc, "the default %s are not restricted to those that declare the backend" % n)
    everywhere(ctx)


def refuses(g, pol):
    """the guard holds whenever some primitive does not declare the backend"""
    if g.k == "not":
        return refuses(g.a[0], not pol)
    if g.k == "call" and g.a[0] in ("any", "all", "len", "bool", "list", "set", "tuple") and len(g.a[1]) == 1:
        c = g.a[1][0]
        if g.a[0] in ("len", "bool", "list", "set", "tuple"):
            return refuses(c, pol)
        if c.k == "comp" and len(c.a[2]) == 1 and not c.a[2][0].a[1] and c.a[1].k == "cmp":
            neg = c.a[1].a[0] == "not in"
            return g.a[0] == "any" and neg and pol or g.a[0] == "all" and not neg and not pol
        if c.k == "comp" and c.a[1].k == "not":
            return g.a[0] == "any" and pol
        return False
    if g.k == "phi":
        # a list filled in a loop: every round that adds an element tests nothing but the declaration
        st, css, seen = [(g, ())], [], set()
        while st:
            x, cs = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "phi":
                st += [(y, cs) for y in x.a[0]]
            elif x.k == "ite":
                st += [(x.a[1], cs + ((x.a[0], True),)), (x.a[2], cs + ((x.a[0], False),))]
            elif x.k == "upd":
                css.append(cs)
                st.append((x.a[1], ()))
            elif x.k not in ("list", "set", "call"):
                return False
        return pol and bool(css) and all(len(cs) == 1 and (neg_test(cs[0][0]) == cs[0][1]) and any(z.k == "attr" and z.a[1] == "compatibility" for z in walk(cs[0][0])) for cs in css)
    if g.k == "comp" and len(g.a[2]) == 1:
        cs = g.a[2][0].a[1]
        return pol and len(cs) == 1 and neg_test(cs[0])
    if g.k == "cmp" and g.a[0] in ("not in", "in") and g.a[2].k == "attr" and g.a[2].a[1] == "compatibility":
        return (g.a[0] == "not in") == pol
    if g.k == "cmp" and g.a[0] in (">", "!=", ">="):
        return refuses(g.a[1], pol)
    if g.k == "cmp" and g.a[0] in ("==",):
        return refuses(g.a[1], not pol)
    if g.k == "bool" and g.a[0] == "or" and pol:
        return any(refuses(x, pol) for x in g.a[1])
    return False


def neg_test(c):
    if c.k == "not":
        return c.a[0].k == "cmp" and c.a[0].a[0] == "in"
    return c.k == "cmp" and c.a[0] == "not in"


def libname(p, x):
    from ..prims import lib_values
    if x.k in ("glob", "attr"):
        return str(x.a[-1]).split(".")[-1] if x.k == "attr" else x.a[0].split(".")[-1]
    if is_const(x):
        for n, v in lib_values(p).items():
            if v == cval(x):
                return n
    return show(x)


def everywhere(ctx):
    """primitives the library itself picks, whatever the backend, declare every backend"""
    p = ctx.p
    used = set()
    dfs = p.cls("DeepFeatureSynthesis")
    for m in dfs.methods.values():
        for n in ast.walk(m.node):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if nm:
                try:
                    c = p.cls(nm)
                except Exception:
                    continue
                if c is not None and c.is_subclass("PrimitiveBase") and c.module.name.startswith("featuretools.primitives.standard"):
                    used.add((c, "%s:%d" % (m.module.rel, n.lineno)))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and m.name.startswith("_build_where"):
                e = Engine(p, inline=lambda g: g.cls is not None and g.cls.is_subclass("FeatureBase"), inline_properties=False, max_depth=4)
                fb = p.cls("FeatureBase").find_method("__eq__")
                r = e.run(fb, self_term=mk("inst", "FeatureBase", "self"))
                for x in walk(r):
                    if x.k == "cls" and str(x.a[0]).endswith("Scalar"):
                        used.add((p.cls(str(x.a[0]).split(".")[-1]), fb.loc))
    for c, loc in sorted(used, key=lambda z: z[0].name):
        ctx.ob("selection", "%s, picked by synthesis itself" % c.name, set(compatibility(p, c) or []) >= set(LIBS), loc, "synthesis picks %s by itself, which does not declare every backend" % c.name)


def calculation(ctx):
    p = ctx.p
    c = p.cls("FeatureSetCalculator")
    n = 0
    for m in c.methods.values():
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get_function" and (x.args or x.keywords) for x in ast.walk(m.node)):
            continue
        ctx.unit(m)
        e = Engine(p, inline=lambda g: False, inline_properties=False)
        e.run(m, self_term=mk("inst", c.name, "self"))
        for ev in e.evs("call"):
            if ev.d.get("name") != "get_function" or not (ev.d.get("args") or ev.d.get("kws")):
                continue
            v = (list(ev.d.get("args") or []) + [b for _, b in (ev.d.get("kws").items() if isinstance(ev.d.get("kws"), dict) else ev.d.get("kws") or [])])[0]
            for cc, x in gated(v):
                lab = libname(p, x)
                n += 1
                lset = [(a, q) for g, pol in ev.guards for a, q in lits(g, pol)] + list(cc.items())

                def mentions(a, lab):
                    return contains(a, lambda z: z.k in ("glob", "cls") and (lab in str(z.a[0]).lower() or lab == "koalas" and str(z.a[0]).endswith(".ks")))
                if lab in ("DASK", "KOALAS"):
                    ok = any(q and mentions(a, lab.lower()) for a, q in lset)
                elif lab == "PANDAS":
                    ok = all(any(not q and mentions(a, l) for a, q in lset) for l in ("dask", "koalas"))
                else:
                    ok = False
                ctx.ob("backend-function", "%s: %s" % (m.name, lab), ok, ev.loc, "the function for %s is used on data of another backend" % lab)
        got = {libname(p, x) for ev in e.evs("call") if ev.d.get("name") == "get_function" and (ev.d.get("args") or ev.d.get("kws"))
               for _, x in gated((list(ev.d.get("args") or []) + [b for _, b in (ev.d.get("kws").items() if isinstance(ev.d.get("kws"), dict) else ev.d.get("kws") or [])])[0])}
        for lab in ("DASK", "KOALAS"):
            ctx.ob("backend-function", "%s asks for %s" % (m.name, lab), lab in got, m.loc, "aggregation never asks for the %s function" % lab)
    ctx.need(n, "the aggregation no longer asks for a backend's function")
