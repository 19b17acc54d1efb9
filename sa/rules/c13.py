"""Nothing observable depends on an order the program does not determine.  Every set (and every dictionary filled by walking
one) is followed through the whole package - variables, arguments, results, attributes, nested functions - to the
places that take its order: lists, tuples, generators and text built by walking it, elements picked from it, sorts by
a key that does not identify the element.  Such an order may not be returned by a function, kept in an attribute,
written out or drawn.  The feature-set calculator keeps its own working order; the columns it returns are taken in the
order of the requested features.  Every random draw outside the demo data has a fixed seed, and object addresses and
hashes appear only in hash methods, identity keys and log texts."""
import ast
from ..order import Orders
from ..index import dotted
from ..flow import Engine, walk, show, alts

TECHNIQUE = "order-taint abstract interpretation of the whole package (sets to observable sequences), plus lints for unseeded randomness and object addresses"
LEVEL_NOTE = "The order in which a dask or koalas backend returns rows, and the determinism of pandas and numpy themselves, are not decided."
MIN_INSTANCES = {"order": 200, "seeded": 1, "columns": 1, "address": 1}
INTERNAL = ("featuretools.computational_backends.feature_set",)
DEMO = ("featuretools.demo",)


def check(ctx):
    p = ctx.p
    o = Orders(p, skip=DEMO, exempt=INTERNAL)
    ctx.stats.update({"rounds": o.rounds, "loops over unordered collections": o.walked})
    ctx.need(o.walked > 5, "no walk over a set found")
    bad = {}
    for f, n, why, v in o.reports.values():
        bad.setdefault(f.fi.qual if f.fi else f.qual, []).append((n, why, v, f))
    for f in o.fns:
        q = f.qual
        ctx.unit(f.fi)
        if q not in bad:
            ctx.ob("order", q, True, f.fi.loc)
    for q, n, why, v, f in sorted(((q,) + x for q, xs in bad.items() for x in xs), key=lambda x: (x[0], x[1].lineno)):
        what = {"return": "the returned value takes its order", "attribute": "the stored attribute takes its order", "write": "what is written takes its order",
                "draw": "what is drawn takes its order"}[why]
        ctx.bad("order", "%s (%s)" % (q, "text" if (v.why or "").endswith(" as text") else "sequence"), "%s:%d" % (f.module.rel, n.lineno), "%s from a set walked at %s" % (what, v.why))
    columns(ctx)
    seeded(ctx)
    addresses(ctx)


# ---- the calculator's result columns -----------------------------------------------------------------------------
def columns(ctx):
    """FeatureSetCalculator.run returns columns in an order walked from the requested features"""
    p = ctx.p
    c = p.cls("FeatureSetCalculator")
    run = c.find_method("run")
    ctx.need(run is not None, "FeatureSetCalculator.run not found")
    e = Engine(p, inline=lambda fi: fi.cls is not None and fi.cls.name in ("FeatureSetCalculator",) and fi.name not in ("_calculate_features_for_entity", "generate_default_df") or fi.cls is None)
    t = e.run(run)
    ok = False
    for x in walk(t):
        if x.k in ("item", "sub", "mcall") and any(y.k == "attr" and y.a[1] == "target_features" for y in walk(x)):
            ok = True
    ctx.unit(run)
    ctx.ob("columns", "FeatureSetCalculator.run", ok, run.loc, "the returned columns are not selected in the order of the requested features (feature_set.target_features)")


# ---- randomness ------------------------------------------------------------------------------------------------
RANDOM = {"sample", "shuffle", "choice", "choices", "rand", "randn", "randint", "random", "permutation", "uniform", "normal", "uuid1", "uuid4", "urandom", "token_hex", "randrange", "random_sample", "default_rng", "RandomState", "Random", "token_bytes", "token_urlsafe", "getrandbits"}
MODS = ("random", "numpy.random", "uuid", "secrets", "os")


def seeded(ctx):
    p = ctx.p
    for m in p.modules.values():
        if m.name.startswith(DEMO):
            continue
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            f = c.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name not in RANDOM:
                continue
            r = p.resolve_expr(m, f)
            ext = r[1] if r and r[0] == "ext" else None
            if ext is not None:
                if not any(ext.startswith(x + ".") for x in MODS):
                    continue
            elif name != "sample" or not isinstance(f, ast.Attribute):
                continue
            kw = {k.arg: k.value for k in c.keywords}
            if name in ("default_rng", "RandomState", "Random"):
                fixed = bool(c.args) and not _none(c.args[0]) or "seed" in kw and not _none(kw["seed"])
            else:
                fixed = name == "sample" and "random_state" in kw and not _none(kw["random_state"]) and not any(isinstance(x, ast.Call) and not x.args and not x.keywords for x in ast.walk(kw["random_state"]))
            where = _scope(m, c)
            if _fixed_in_scope(p, m, c, ext) or name in ("uuid1", "uuid4", "token_hex") and _only_file_name(p, m, c):
                fixed = True
            ctx.ob("seeded", "%s in %s" % (name, where), fixed, "%s:%d" % (m.rel, c.lineno), "random draw without a fixed seed")


PATHS = {"rename", "replace", "move", "makedirs", "mkdir", "to_csv", "to_parquet", "to_pickle", "open", "remove", "unlink", "exists", "TemporaryDirectory"}


def _only_file_name(p, m, c):
    """does the value only serve to name files, never to make up a result?"""
    fs = [f for f in p.functions if f.module is m and any(x is c for x in ast.walk(f.node))]
    if not fs:
        return False
    fn = min(fs, key=lambda f: sum(1 for _ in ast.walk(f.node))).node
    tainted = set()

    def hot(e):
        return any(x is c or isinstance(x, ast.Name) and x.id in tainted for x in ast.walk(e))
    while True:
        n = len(tainted)
        for x in ast.walk(fn):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None and hot(x.value):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if not isinstance(t, ast.Name):
                        return False
                    tainted.add(t.id)
            elif isinstance(x, ast.withitem) and hot(x.context_expr) and isinstance(x.optional_vars, ast.Name):
                tainted.add(x.optional_vars.id)
        if len(tainted) == n:
            break
    used = False
    for x in ast.walk(fn):
        if isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and hot(x.value):
            return False
        if isinstance(x, ast.Call):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
            if any(hot(a) for a in list(x.args) + [k.value for k in x.keywords]):
                r = p.resolve_expr(m, x.func)
                if nm in PATHS:
                    used = True
                elif nm not in ("format", "join", "str", "Path", "joinpath", "uuid4", "uuid1") and not (r and r[0] == "func"):
                    return False
                elif r and r[0] == "func" and not any(isinstance(y, ast.Call) and (y.func.attr if isinstance(y.func, ast.Attribute) else getattr(y.func, "id", "")) in PATHS
                                                      for y in ast.walk(r[1].node)):
                    return False
                elif r and r[0] == "func":
                    used = True
    return used


def _none(x):
    return isinstance(x, ast.Constant) and x.value is None


def _scope(m, node):
    best = None
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.lineno <= node.lineno <= x.end_lineno:
            if best is None or x.lineno >= best.lineno:
                best = x
    return (m.name[len("featuretools."):] + ":" + best.name) if best is not None else m.name


def _fixed_in_scope(p, m, c, ext):
    """random.seed(<constant>) earlier in the same function"""
    if ext is None:
        return False
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.lineno <= c.lineno <= x.end_lineno:
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "seed" and y.args and isinstance(y.args[0], ast.Constant) and not _none(y.args[0]) and y.lineno < c.lineno:
                    return True
    return False


# ---- addresses ---------------------------------------------------------------------------------------------------
def addresses(ctx):
    """id(...) and hash(...) results: only inside hash methods, comparisons, lookups by identity, and the calculator's private function names"""
    p = ctx.p
    n = 0
    for m in p.modules.values():
        par = None
        for c in ast.walk(m.tree):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("id", "hash") and len(c.args) == 1):
                continue
            r = p.lookup(m, c.func.id)
            if r is not None:
                continue
            if par is None:
                par = {id(ch): x for x in ast.walk(m.tree) for ch in ast.iter_child_nodes(x)}
            fn, x = None, c
            use = "other"
            while id(x) in par:
                y = par[id(x)]
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    fn = y
                    break
                if use == "other":
                    if isinstance(y, ast.Compare):
                        use = "compare"
                    elif isinstance(y, (ast.JoinedStr, ast.FormattedValue)) or isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("format", "join") or isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("str", "repr", "hex") or isinstance(y, ast.BinOp) and isinstance(y.op, ast.Mod):
                        use = "text"
                    elif isinstance(y, ast.keyword) and y.arg == "key":
                        use = "sort key"
                x = y
            if isinstance(fn, ast.Lambda):
                q = par.get(id(fn))
                if isinstance(q, ast.keyword) and q.arg == "key":
                    use = "sort key"
            name = getattr(fn, "name", "<lambda>")
            n += 1
            internal = m.name.startswith(INTERNAL)
            ok = name in ("__hash__", "hash") or use == "compare" or internal or use == "other" and not isinstance(par.get(id(c)), (ast.Return,))
            ctx.ob("address", "%s in %s:%s" % (c.func.id, m.name[13:], _scope(m, c).split(":")[-1]), ok, "%s:%d" % (m.rel, c.lineno), "an object address or hash reaches a %s" % use)
    ctx.need(n > 0, "no use of id()/hash() found")
