"""Joint results of a matrix and a feature list.  (1) Every exported selection function is folded into 'matrix[kept columns]'
and a feature list made of parts 'feature f (or slice f[i]) for f in features if condition'; the conditions are evaluated in
a world model (single-output feature kept or not; multi-output feature with all, some or none of its columns kept) and must
add exactly the features whose columns were kept.  (2) In encode_features the list of returned columns and the list of
returned features are built from parts that must pair up one to one, and each new column's value must be the column
translation of the feature it is named after.  (3) dfs hands the very list it returns to the calculation; the calculator
returns exactly the columns of the target features, in order, and chunk assembly neither overwrites nor drops a column
except by the names of passed columns."""
import ast
import itertools
import re
from ..flow import Engine, walk, show, alts, is_const, cval
from ..norm import strip_copy, WRAP
from .. import pred as P
from ..index import AnalysisBroken

TECHNIQUE = "symbolic folding of list construction into quantified parts, decided in a finite world model, plus part pairing"
LEVEL_NOTE = "Names are taken as identities: two features of one list are assumed to have different names."
MIN_INSTANCES = {"selection-columns": 4, "selection-features": 4, "encode-pair": 4, "encode-value": 2, "dfs": 2, "calculated": 2, "chunk": 1}

SINGLE, MULTI = 1, 3


def check(ctx):
    p = ctx.p
    selection(ctx, p)
    encoding(ctx, p)
    results(ctx, p)
    chunks(ctx, p)


# ---------------------------------------------------------------- helpers
def leaves(pr, v, conds=()):
    """(conditions, node) of the returned alternatives"""
    if v.kind == "ite":
        yield from leaves(pr, v.d["a"], conds + (v.d["c"],))
        yield from leaves(pr, v.d["b"], conds + (P.f_not(v.d["c"]),))
        return
    n = pr.as_node(v)
    while isinstance(n, ast.Name) and n.id in pr.vals and pr.vals[n.id].kind in ("ite", "expr"):
        w = pr.vals[n.id]
        if w.kind == "ite":
            yield from leaves(pr, w, conds)
            return
        n = w.d["node"]
    if isinstance(n, ast.IfExp):
        yield from leaves(pr, P.E(n.body), conds + (pr.boolean(n.test, {}),))
        yield from leaves(pr, P.E(n.orelse), conds + (P.f_not(pr.boolean(n.test, {})),))
        return
    yield conds, n


def val(pr, n):
    if isinstance(n, ast.Name) and n.id in pr.vals:
        return pr.vals[n.id]
    return P.E(n)


def parts(pr, n):
    """list parts [(coll, element text, condition)] of a built list, None when it is not understood"""
    ps = pr.vparts(n if isinstance(n, P.V) else val(pr, n))
    return None if ps is None else merge([(c, pr.text(e), f) for c, e, f in ps])


def merge(ps):
    g = {}
    for c, e, f in ps:
        g.setdefault((c, e), []).append(f)
    return [(c, e, P.TRUE if equivalent(P.f_or(*fs), P.TRUE) else P.f_or(*fs)) for (c, e), fs in g.items()]


# ---------------------------------------------------------------- selection
class World(object):
    """one feature f with n output columns, of which those in `kept` are kept"""
    def __init__(self, n, kept):
        self.n, self.kept = n, kept

    def __str__(self):
        return "feature with %d output column%s, %s kept" % (self.n, "" if self.n == 1 else "s", "none" if not self.kept else "all" if len(self.kept) == self.n else "some")


NOF = "number_output_features"


def ev(f, w, is_kept, F, env):
    """three-valued truth of formula f in world w"""
    if f == P.TRUE or f == P.FALSE:
        return f == P.TRUE
    k = f[0]
    if k == "const":
        return bool(f[1])
    if k == "not":
        r = ev(f[1], w, is_kept, F, env)
        return None if r is None else not r
    if k in ("and", "or"):
        rs = [ev(x, w, is_kept, F, env) for x in f[1]]
        if k == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if k == "ex":
        idx = index_of(f[1], F)
        if idx is None:
            return None
        rs = [ev(f[2], w, is_kept, F, dict(env, **{f[1]: i})) for i in range(w.n)]
        return True if True in rs else None if None in rs else False
    if k == "atom":
        return atom(f[1], w, is_kept, F, env)
    return None


def index_of(coll, F):
    """does the collection have one element per output column of F"""
    c = coll.replace(" ", "")
    f = F.replace(" ", "")
    if c in ("range(%s.%s)" % (f, NOF), "range(0,%s.%s)" % (f, NOF), "%s.get_feature_names()" % f, "range(len(%s.get_feature_names()))" % f,
             "range(0,len(%s.get_feature_names()))" % f):
        return True
    return None


def atom(t, w, is_kept, F, env):
    s = t.replace(" ", "")
    f = F.replace(" ", "")
    for c in ("%s.%s" % (f, NOF), "len(%s.get_feature_names())" % f):
        m = re.match(r"^%s(==|!=|>=|<=|>|<)(\d+)$" % re.escape(c), s)
        if m:
            return eval("%d%s%s" % (w.n, m.group(1), m.group(2)))
        m = re.match(r"^(\d+)(==|!=|>=|<=|>|<)%s$" % re.escape(c), s)
        if m:
            return eval("%s%s%d" % (m.group(1), m.group(2), w.n))
    m = re.match(r"^(.*) in (.*)$", t)
    if not m:
        m2 = re.match(r"^set\((.*)\)\.issubset\((.*)\)$", t) or re.match(r"^set\((.*)\) <= (?:set\()?(.*?)\)?$", t)
        if m2 and m2.group(1) == F + ".get_feature_names()" and is_kept(m2.group(2)):
            return len(w.kept) == w.n
        return None
    # the last " in " that splits into balanced halves
    for x in re.finditer(" in ", t):
        left, right = t[:x.start()], t[x.end():]
        if left.count("(") == left.count(")") and left.count("[") == left.count("]"):
            if not is_kept(right):
                continue
            n = name_index(left, w, F, env)
            if n is None:
                return None
            if n == "own":
                return w.n == 1 and 0 in w.kept
            return n in w.kept
    return None


def name_index(left, w, F, env):
    if left == F + ".get_name()":
        return "own"
    m = re.match(r"^%s\[(.*)\]\.get_name\(\)$" % re.escape(F), left) or re.match(r"^%s\.get_feature_names\(\)\[(.*)\]$" % re.escape(F), left)
    if m:
        i = m.group(1)
        if re.match(r"^-?\d+$", i):
            return int(i) % w.n
        for c, v in env.items():
            if i == "elem(%s)" % c:
                return v
        return None
    for c, v in env.items():
        if left == "elem(%s)" % c and c == F + ".get_feature_names()":
            return v
    return None


def selection(ctx, p):
    api = [m for m in p.modules.values() if m.name.startswith("featuretools.selection")]
    ctx.need(api, "selection modules")
    fns = [x[1] for m in api for x in m.symbols.values() if x[0] == "func"]
    fns = [f for f in fns if not f.name.startswith("_") and "features" in params(f)]
    for fi in sorted(fns, key=lambda f: f.name):
        ctx.unit(fi.module.name + ":" + fi.name)
        pr = P.Pred(p)
        v = pr.returns_value(fi)
        prm = params(fi)
        matrix_param, list_param = prm[0], "features"
        name = fi.module.name.replace("featuretools.", "") + ":" + fi.name
        got = 0
        for conds, n in leaves(pr, v):
            if not (isinstance(n, ast.Tuple) and len(n.elts) == 2):
                if P.sat(P.f_and(*conds), {"%s is None" % list_param: False}) and isinstance(n, ast.AST) and not isinstance(n, ast.Tuple):
                    # the single-result form belongs to calls without a feature list
                    if not given(conds, list_param):
                        continue
                    ctx.ob("selection-features", name + " (single result)", False, fi_loc(fi), "with a feature list given only the matrix is returned")
                continue
            got += 1
            m, fl = n.elts
            M = pr.text(m)
            sub = matrix_of(pr, m, matrix_param)
            ctx.ob("selection-columns", name, sub is not None, fi_loc(fi), "the returned matrix is not a choice of columns of %s: %s" % (matrix_param, M[:80]))
            if sub is None:
                continue
            K = sub

            def is_kept(t, M=M, K=K):
                t = t.strip()
                while True:
                    mm = re.match(r"^(?:set|list|tuple|frozenset|sorted)\((.*)\)$", t)
                    if not mm:
                        break
                    t = mm.group(1)
                if t.endswith(".tolist()"):
                    t = t[:-9]
                return t in K or any(t in (x, x + ".columns", x + ".columns.values") for x in M_texts(M))
            ps = parts(pr, fl)
            ctx.need(ps is not None, "feature list of %s" % name)
            problems = decide(ps, list_param, is_kept)
            ctx.ob("selection-features", name, not problems, fi_loc(fi), "; ".join(problems)[:400])
        ctx.need(got, "a (matrix, features) result of %s" % name)


def M_texts(M):
    return (M,)


def given(conds, lp):
    return any(P.show(c) in ("not(%s is None)" % lp, lp) for c in conds)


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def fi_loc(fi):
    return fi.loc


def matrix_of(pr, n, matrix_param):
    """texts of the kept-column list K when the node is matrix[K] / matrix.loc[:, K] / matrix.drop(columns=..)"""
    if isinstance(n, ast.Name) and n.id in pr.vals:
        return matrix_of(pr, pr.as_node(pr.vals[n.id]), matrix_param) if pr.vals[n.id].kind == "expr" else None
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy":
        n = n.func.value
    if isinstance(n, ast.Subscript):
        b, s = n.value, n.slice
        if isinstance(b, ast.Attribute) and b.attr == "loc" and isinstance(s, ast.Tuple) and len(s.elts) == 2 and isinstance(s.elts[0], ast.Slice) \
                and not (s.elts[0].lower or s.elts[0].upper):
            b, s = b.value, s.elts[1]
        if isinstance(b, ast.Name) and b.id == matrix_param:
            return {pr.text(s)}
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("reindex", "filter") and pr.text(n.func.value) == matrix_param:
        ks = [k.value for k in n.keywords if k.arg in ("columns", "items")] or n.args[:1]
        return {pr.text(k) for k in ks} or None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "drop" and pr.text(n.func.value) == matrix_param:
        return set()
    return None


def decide(ps, lp, is_kept):
    """problems of a feature list made of parts, over the world model"""
    F = "elem(%s)" % lp
    out = []
    worlds = [World(SINGLE, {0}), World(SINGLE, set()), World(MULTI, {0, 1, 2}), World(MULTI, set())] + \
        [World(MULTI, set(s)) for r in (1, 2) for s in itertools.combinations(range(3), r)]
    for w in worlds:
        whole, slices, unknown = 0, {}, []
        for coll, el, cond in ps:
            if coll == lp and el == F:
                r = ev(cond, w, is_kept, F, {})
                if r is None:
                    unknown.append(P.show(cond))
                whole += 1 if r else 0
                continue
            if coll.startswith(lp + " x "):
                inner = coll[len(lp) + 3:]
                if index_of(inner, F) and el == "%s[elem(%s)]" % (F, inner):
                    for i in range(w.n):
                        r = ev(cond, w, is_kept, F, {inner: i})
                        if r is None:
                            unknown.append(P.show(cond))
                        if r:
                            slices[i] = slices.get(i, 0) + 1
                    continue
            out.append("part not understood: %s for %s" % (el[:80], coll[:80]))
        if unknown:
            out.append("%s: condition not understood: %s" % (w, unknown[0][:150]))
            continue
        if w.n == 1:
            ok = (whole == len(w.kept)) and not slices
        elif len(w.kept) == w.n:
            ok = whole == 1 and not slices or whole == 0 and slices == {i: 1 for i in range(w.n)}
        else:
            ok = whole == 0 and slices == {i: 1 for i in w.kept}
        if not ok:
            got = "the feature" if whole else "slices %s" % sorted(slices) if slices else "nothing"
            out.append("%s (%s): %s is returned" % (w, sorted(w.kept), got + (" and slices %s" % sorted(slices) if whole and slices else "") +
                                                    (" twice" if whole > 1 else "")))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


# ---------------------------------------------------------------- encoding
def equivalent(a, b):
    if a == b:
        return True
    names = sorted(set(opaque_atoms(a)) | set(opaque_atoms(b)))
    if len(names) > 12:
        return P.show(a) == P.show(b)
    for vals in itertools.product((True, False), repeat=len(names)):
        env = dict(zip(names, vals))
        if truth(a, env) != truth(b, env):
            return False
    return True


def implies(a, b):
    names = sorted(set(opaque_atoms(a)) | set(opaque_atoms(b)))
    if len(names) > 12:
        return False
    for vals in itertools.product((True, False), repeat=len(names)):
        env = dict(zip(names, vals))
        if truth(a, env) and not truth(b, env):
            return False
    return True


def opaque_atoms(f):
    if f[0] == "const" or f in (P.TRUE, P.FALSE):
        return []
    if f[0] == "not":
        return opaque_atoms(f[1])
    if f[0] in ("and", "or"):
        return [x for y in f[1] for x in opaque_atoms(y)]
    return [P.show(f)]


def truth(f, env):
    if f in (P.TRUE, P.FALSE):
        return f == P.TRUE
    if f[0] == "not":
        return not truth(f[1], env)
    if f[0] == "and":
        return all(truth(x, env) for x in f[1])
    if f[0] == "or":
        return any(truth(x, env) for x in f[1])
    return env[P.show(f)]


def encoding(ctx, p):
    fis = p.func_by_name("encode_features", None)
    ctx.need(len(fis) == 1, "encode_features")
    fi = fis[0]
    ctx.unit(fi.module.name + ":encode_features")
    pr = P.Pred(p)
    v = pr.returns_value(fi)
    prm = params(fi)
    lp, mp = "features", prm[0]
    n_pairs = 0
    for conds, n in leaves(pr, v):
        if not (isinstance(n, ast.Tuple) and len(n.elts) == 2):
            ctx.ob("encode-pair", "encode_features (result)", False, fi_loc(fi), "a result is not a matrix with a feature list")
            continue
        m, fl = n.elts
        m0 = m
        if isinstance(m, ast.Name) and m.id in pr.vals and pr.vals[m.id].kind == "expr":
            m0 = pr.vals[m.id].d["node"]
        while isinstance(m0, ast.Call) and isinstance(m0.func, ast.Attribute) and m0.func.attr == "copy":
            m0 = m0.func.value
        ok = isinstance(m0, ast.Subscript)
        ctx.ob("encode-pair", "encode_features (columns chosen)", ok, fi_loc(fi), "the returned matrix is not the chosen columns of the encoded matrix: %s" % pr.text(m)[:80])
        if not ok:
            continue
        sl = m0.slice
        if isinstance(m0.value, ast.Attribute) and m0.value.attr == "loc" and isinstance(sl, ast.Tuple):
            sl = sl.elts[1]
        cols, feats = parts(pr, sl), parts(pr, fl)
        ctx.need(cols is not None and feats is not None, "column and feature lists of encode_features")
        used = set()
        for c, el, f in feats:
            n_pairs += 1
            hits, bare = [], el == "elem(%s)" % c
            inner = el + ".get_feature_names()"
            for i, (c2, el2, f2) in enumerate(cols):
                if c2 == c and el2 == el + ".get_name()":
                    if not bare or implies(f2, ("not", ("atom", "%s.%s > 1" % (el, NOF)))):
                        hits.append(i)
                elif c2 == (c + " x " if c else "") + inner and el2 == "elem(%s)" % inner:
                    hits.append(i)
            fs = [cols[i][2] for i in hits]
            ok = bool(hits) and equivalent(f, P.f_or(*fs)) and not any(not equivalent(P.f_and(x, y), P.FALSE) for x, y in itertools.combinations(fs, 2))
            if ok:
                used.update(hits)
            ctx.ob("encode-pair", "encode_features feature %d" % n_pairs, ok, fi_loc(fi),
                   "no column is returned for %s (for %s) under the same condition" % (el[-60:], c[:40]))
        k = 0
        for i, (c, el, f) in enumerate(cols):
            if i in used:
                continue
            k += 1
            # pass-through: columns of the matrix that belong to no feature
            m_ = re.match(r"^(.*?)(\.columns)?$", c)
            ok = el == "elem(%s)" % c and pass_through(pr, c, f, el, mp, lp)
            ctx.ob("encode-pair", "encode_features other columns %d" % k, ok, fi_loc(fi), "column %s is returned without a feature (when %s)" % (el[-80:], P.show(f)[:220]))
    values(ctx, p, fi)


def pass_through(pr, coll, f, el, mp, lp):
    """el ranges over the columns of the matrix and f excludes the column names of every feature"""
    if not re.search(r"\b%s\b" % re.escape(mp), coll) or "value_counts" in coll or " x " in coll:
        return False
    column = re.compile(r"elem\(%s(\.copy\(\))?(\.columns)?\)" % re.escape(mp))

    def member(x):
        s = P.show(x)
        if x[0] == "ex":
            return "get_feature_names()" in s and "elem(%s)" % lp in s and column.search(s) is not None
        m = re.match(r"^(.*) in (@\w+)$", s)
        if m and m.group(2) in pr.vals:
            ps = parts(pr, pr.vals[m.group(2)])
            names = "%s x elem(%s).get_feature_names()" % (lp, lp)
            return bool(ps) and any(q == names and e == "elem(elem(%s).get_feature_names())" % lp and g == P.TRUE for q, e, g in ps) and \
                (m.group(1) == el or column.match(m.group(1)) is not None)
        m = re.match(r"^(.*?) in .*get_feature_names\(\)", s)
        return m is not None and (m.group(1) == el or column.match(m.group(1)) is not None)

    def fix(x, v):
        if x[0] in ("and", "or"):
            return (P.f_and if x[0] == "and" else P.f_or)(*[fix(y, v) for y in x[1]])
        if x[0] == "not":
            return P.f_not(fix(x[1], v))
        if x[0] in ("ex", "atom"):
            return (P.TRUE if v else P.FALSE) if member(x) else x
        return x
    return equivalent(fix(f, True), P.FALSE) and equivalent(fix(f, False), P.TRUE)


FEATURE_METHODS = {"NOT": "~", "isin": "isin", "is_null": "isnull"}


def values(ctx, p, fi):
    """each new column is the column translation of the feature it is named after"""
    def inline(f):
        return f.module is fi.module and f is not fi
    e = Engine(p, inline=inline)
    e.run(fi)
    n = 0
    for x in e.events:
        if x.kind not in ("setitem", "mcall", "call"):
            continue
        pairs = []
        if x.kind == "setitem":
            pairs = [(x.d["key"], x.d["value"])]
        for key, value in pairs:
            f = named(key)
            if f is None:
                continue
            n += 1
            a, b = ftrans(f), vtrans(value)
            ctx.ob("encode-value", "encode_features column %d" % n, a is not None and a == b, x.loc.split(" ")[0],
                   "the column named after %s holds %s" % (text(a), text(b)))
    ctx.need(n, "columns assigned under a feature's name")


def text(t):
    if isinstance(t, tuple):
        return "%s(%s)" % (t[0], ", ".join(text(x) for x in t[1:]))
    return show(t)[:40] if hasattr(t, "k") else str(t)


def _name(t):
    n = t.a[1] if t.k == "mcall" else t.a[0]
    n = n if isinstance(n, str) else getattr(n, "name", str(n))
    return n.split(".")[-1].split(":")[-1]


def named(k):
    """the feature term whose name the key is"""
    if k.k == "mcall" and k.a[1] == "get_name":
        return k.a[0]
    if k.k == "pcall" and _name(k) == "get_name":
        return dict(k.a[1]).get("self")
    if k.k == "item" and k.a[0].k in ("mcall", "pcall") and _name(k.a[0]) == "get_feature_names":
        return k.a[0].a[0] if k.a[0].k == "mcall" else dict(k.a[0].a[1]).get("self")
    return None


def ftrans(t):
    if t.k == "cmp":
        return (t.a[0], ftrans(t.a[1]), t.a[2])
    if t.k == "un" and t.a[0] in ("~", "not"):
        return ("~", ftrans(t.a[1]))
    if t.k in ("mcall", "pcall"):
        n = _name(t)
        r = t.a[0] if t.k == "mcall" else dict(t.a[1]).get("self")
        args = list(t.a[2]) if t.k == "mcall" else [v for k, v in t.a[1] if k != "self"]
        if n in ("rename", "copy") and r is not None:
            return ftrans(r)
        if n in FEATURE_METHODS and r is not None:
            return (FEATURE_METHODS[n], ftrans(r)) + tuple(args)
        if n in ("__eq__", "__ne__") and r is not None:
            return ("==" if n == "__eq__" else "!=", ftrans(r)) + tuple(args)
    if t.k == "new" and len(t.a) > 2:
        prim = dict(t.a[3]).get("primitive") if len(t.a) > 3 else None
        nm = getattr(prim.a[0], "name", None) if prim is not None and prim.k == "cls" else None
        if nm == "Not" and t.a[2] and t.a[2][0].k == "list":
            xs = t.a[2][0].a[1]
            if len(xs) == 1:
                return ("~", ftrans(xs[0]))
    return ("col", t)


def vtrans(t):
    if t.k == "cmp":
        return (t.a[0], vtrans(t.a[1]), t.a[2])
    if t.k == "un" and t.a[0] in ("~", "not"):
        return ("~", vtrans(t.a[1]))
    if t.k == "bin" and t.a[0] == "^" and is_const(t.a[2], True):
        return ("~", vtrans(t.a[1]))
    if t.k == "cmp" and is_const(t.a[2], False):
        return ("~", vtrans(t.a[1]))
    if t.k == "mcall":
        n = t.a[1]
        if n == "isin":
            return ("isin", vtrans(t.a[0])) + tuple(t.a[2])
        if n in ("eq", "ne"):
            return ("==" if n == "eq" else "!=", vtrans(t.a[0])) + tuple(t.a[2])
        if n in ("astype", "copy"):
            return vtrans(t.a[0])
        if n in ("isnull", "isna"):
            return ("isnull", vtrans(t.a[0]))
    if t.k == "item":
        f = named(t.a[1])
        if f is not None:
            return ("col", f)
    return ("?", t)


# ---------------------------------------------------------------- dfs and calculator
def results(ctx, p):
    fis = p.func_by_name("dfs", None)
    fi = [f for f in fis if f.module.name.startswith("featuretools.synthesis")]
    ctx.need(len(fi) == 1, "dfs")
    fi = fi[0]
    ctx.unit(fi.module.name + ":dfs")
    e = Engine(p, inline=lambda f: f.module is fi.module and f is not fi and f.name != "calculate_feature_matrix")
    r = e.run(fi)
    k = 0
    for a in returned(r):
        if a.k == "tuple":
            k += 1
            xs = a.a[1]
            m, fl = xs[0], xs[1]
            calls = [c for c in walk(m) if c.k in ("pcall", "call") and _name(c) == "calculate_feature_matrix"]
            same = m.k in ("pcall", "call") and _name(m) == "calculate_feature_matrix"
            arg = None
            if calls:
                arg = dict(calls[0].a[1]).get("features") if calls[0].k == "pcall" else (calls[0].a[1][0] if calls[0].a[1] else None)
            ctx.ob("dfs", "matrix returned by dfs", same, fi_loc(fi), "the matrix returned is not the calculated one: %s" % show(m)[:80])
            ctx.ob("dfs", "features returned by dfs", arg is not None and arg == fl, fi_loc(fi), "the features returned are not the ones calculated: %s against %s" % (show(fl)[:60], show(arg)[:60] if arg is not None else None))
    ctx.need(k, "the (matrix, features) result of dfs")
    # calculator
    run = p.func_by_name("run", "FeatureSetCalculator")
    ctx.need(len(run) == 1, "FeatureSetCalculator.run")
    fi = run[0]
    ctx.unit("FeatureSetCalculator.run")
    pr = P.Pred(p, stop=("generate_default_df", "_calculate_features_for_entity"))
    v = pr.returns_value(fi)
    k = 0
    own = "self.feature_set.target_features"
    for conds, n in leaves(pr, v):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "generate_default_df":
            continue
        k += 1
        if isinstance(n, ast.Name) and n.id in pr.vals:
            n = pr.as_node(pr.vals[n.id])
        ok = isinstance(n, ast.Subscript)
        ps = parts(pr, n.slice) if ok else None
        want = [x for x in ps or [] if x[0] == "%s x elem(%s).get_feature_names()" % (own, own) and x[2] == P.TRUE]
        rest = [x for x in ps or [] if x not in want]
        extra = [x for x in rest if not (re.match(r"^elem\(\[.*\.index\]\)$", x[1]) or re.search(r"\.index$", x[1]))]
        ctx.ob("calculated", "columns of the calculated matrix", bool(want), fi_loc(fi), "the matrix returned is not the columns of all target features: %s" % pr.text(n)[:100])
        ctx.ob("calculated", "other columns of the calculated matrix", not extra, fi_loc(fi), "columns beyond the features' own: %s" % [x[1] for x in extra][:2])
        for x in rest:
            if x in extra:
                continue
            t = P.show(x[2])
            nm = re.sub(r"^elem\(\[(.*)\]\)$", r"\1", x[1])
            ctx.ob("calculated", "index column is not repeated", "not(%s in " % nm in t or "not(%s in " % nm in t.replace("'", ""), fi_loc(fi),
                   "the index column is added also when it is already the column of a feature (when %s)" % t[:100])
    ctx.need(k, "the result of FeatureSetCalculator.run")
    # default rows
    d = p.func_by_name("generate_default_df", "FeatureSetCalculator")
    if d:
        fi = d[0]
        e = Engine(p)
        r = e.run(fi)


def returned(r):
    out = []

    def go(t):
        if t.k == "ite":
            go(t.a[1])
            go(t.a[2])
        elif t.k in ("phi", "alt"):
            for x in alts(t):
                if x is t:
                    out.append(t)
                    return
                go(x)
        else:
            out.append(t)
    go(r)
    return out


# ---------------------------------------------------------------- chunk assembly
def chunks(ctx, p):
    fis = [f for f in p.func_by_name("calculate_chunk", None)]
    ctx.need(len(fis) == 1, "calculate_chunk")
    fi = fis[0]
    ctx.unit("calculate_chunk")
    e = Engine(p, inline=lambda f: f.module is fi.module and f is not fi and f.name not in ("approximate_features", "bin_cutoff_times"))
    e.run(fi)
    n = 0
    for x in e.events:
        if x.kind in ("setitem", "call"):
            r = x.d.get("recv")
            if r is None or not from_run(r):
                continue
            if x.kind == "setitem":
                n += 1
                ok = passed(x.d["key"])
                ctx.ob("chunk", "column assigned to a calculated matrix", ok, x.loc.split(" ")[0], "the column %s, which may be a feature's, is overwritten" % show(x.d["key"])[:60])
            elif x.d.get("name") in ("drop", "pop"):
                n += 1
                args = list(x.d.get("args") or []) + [v for k, v in x.d.get("kws") or ()]
                cols = [t for a in args for t in walk(a) if t.k == "const" and isinstance(cval(t), str) and cval(t) not in ("columns", "index", "ignore", "raise")]
                ctx.ob("chunk", "column dropped from a calculated matrix", not cols, x.loc.split(" ")[0], "the column %s, which may be a feature's, is dropped" % [cval(c) for c in cols][:2])
    ctx.need(n, "columns added while assembling a chunk")


def from_run(t):
    """the term is (a later version of) what FeatureSetCalculator.run returned"""
    return any(c.k in ("mcall", "pcall") and _name(c) == "run" for c in walk(t)) or any(c.k == "call" and _name(c) == "calc_results" for c in walk(t))


def passed(k):
    """the name is one of the passed columns"""
    return any(t.k == "elem" and any(y.k == "param" and str(y.a[0]) == "pass_columns" or y.k == "attr" for y in walk(t)) for t in walk(k))
