"""Features computed in one batch are each computed by their own definition.  The batch handlers of the feature-set calculator are
run by the path-sensitive interpreter with the batch as an abstract list: whatever they read from one member on behalf of all
(first element, element left over after a loop, any picked element) must be determined by the key features are grouped by, and
the key must identify each such attribute completely on every path of its own computation.  Dependencies come first: the key
starts with the depth, the depth walk lowers and revisits every dependency on the same entity, dependencies of features that
need all rows are computed on all rows, those rows first, and child entities before both."""
import ast
from ..paths import Paths, Client, TooBig, NONE, has, St

TECHNIQUE = "path-sensitive dataflow: attributes the batch handlers read from a representative against the attributes the grouping key identifies; order checks on the depth walk and the trie"
LEVEL_NOTE = "Names given to intermediate columns and the aggregation pandas performs are not decided here."
MIN_INSTANCES = {"key": 3, "reads": 4, "order": 4}
PICK = ("next", "min", "max", "pop", "choice")
WRAP = ("tuple", "list", "sorted", "frozenset", "str", "repr", "items", "set", "dict", "iter", "join", "format", "copy")
F = ("feature",)


def strip(v):
    """values of a loop element"""
    return v


class Batch(Client):
    """handlers: P is the batch"""
    max_depth = 3

    def __init__(self, param, cls):
        self.param, self.cls, self.reads, self.passed = ("param", param), cls, [], []

    def of_batch(self, v):
        """is v (a view of) the batch list?"""
        if v == self.param:
            return True
        if v[0] == "call" and v[1] in ("list", "tuple", "iter", "sorted", "reversed", "enumerate", "set") and v[3]:
            return self.of_batch(v[3][0])
        if v[0] in ("list", "set", "tuple") and v[1]:
            return any(self.member(x) for x in v[1])
        if v[0] in ("phi", "slice_of", "comp"):
            return any(self.member(x) or self.of_batch(x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
        if v[0] == "sub" and v[2][0] == "slice":
            return self.of_batch(v[1])
        return False

    def member(self, v):
        return v[0] in ("elem", "mine") and self.of_batch(v[1])

    def rep(self, v):
        if v[0] == "sub" and v[2][0] != "slice":
            return self.of_batch(v[1])
        if v[0] == "last":
            return self.of_batch(v[1])
        if v[0] == "call" and v[1] in PICK:
            return (v[3] and self.of_batch(v[3][0])) or (v[2] is not None and self.of_batch(v[2]))
        return False

    def elements(self, val, st):
        if self.of_batch(val):
            return [("elem", self.param)]
        return None

    def keep(self, st):
        """only variables that hold the batch or members of it matter"""
        env = {}
        for k, v in st.env.items():
            if v[0] in ("param", "closure", "name", "const") or self.of_batch(v) or self.member(v) or self.rep(v) or v[0] == "attr" and self.rep(v[1]) or \
                    v[0] in ("list", "set") and not v[1]:
                env[k] = v
            else:
                env[k] = ("any",)
        n = St(env)
        return n

    def attribute(self, paths, e, base, st):
        if self.rep(base):
            if e.attr != "base_features":
                self.reads.append((e.attr, paths.loc(e)))
        elif base[0] in ("sub", "elem") and base[1][0] == "attr" and base[1][2] == "base_features" and self.rep(base[1][1]):
            self.reads.append(("base_features." + e.attr, paths.loc(e)))
        return None

    def call(self, paths, e, name, fval, recv, args, kws, st):
        vals = list(args) + [v for k, v in kws]
        if name in ("isinstance", "type", "hasattr") and recv is None:
            return None
        if recv is not None and self.rep(recv):
            self.reads.append((name, paths.loc(e)))
        clo = [v for v in vals if v[0] == "closure"]
        if fval is not None and fval[0] == "closure":
            return None
        fi = paths.target(e.func, st)
        if clo and fi is None:
            for c in clo:
                node, m, f = paths.closures[c[1]]
                a = node.args
                paths.enter(node, m, f, None, [("any",)] * len(a.args), (), st, dict(st.env))
            return None
        if fi is None or not self.enter(fi):
            for v in vals:
                if self.rep(v) and not (recv is not None and name in ("append", "add")):
                    self.passed.append((name, paths.loc(e)))
        return None


class Key(Client):
    def __init__(self, kind=None):
        self.kind = kind

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if name == "isinstance" and len(args) == 2:
            n = tuple(sorted(x[1] if x[0] == "name" else repr(x) for x in (args[1][1] if args[1][0] == "tuple" else (args[1],))))
            return [("next", st, ("isinst", args[0], n))]
        if name == "hasattr" and len(args) == 2:
            return [("next", st, ("hasattr", args[0], args[1][1].strip("'")))]
        if name == "getattr" and len(args) >= 2 and args[1][0] == "const":
            v = ("attr", args[0], args[1][1].strip("'"))
            return [("next", st, v)]
        if recv is None and name in ("len",):
            return [("next", st, ("len", args[0]))]
        return None


def clean(v):
    """values without call locations"""
    if isinstance(v, tuple):
        if v and v[0] == "call" and len(v) == 6:
            return ("call", v[1], clean(v[2]), clean(v[3]), clean(v[4]))
        return tuple(clean(x) for x in v)
    return v


OWNERS = {"where": "AggregationFeature", "use_previous": "AggregationFeature", "groupby": "GroupByTransformFeature"}


def identifies(v, attr, conds):
    """does the value v tell apart features with different values of attr?"""
    a = ("attr", F, attr)

    def whole(x):
        """x determines the attribute"""
        if x == a:
            return attr not in ("where", "groupby")
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] == "call":
            if attr == "relationship_path" and x[1] == "relationship_path_name" and x[2] == F:
                return True
            base = x[2] if x[2] is not None else None
            if x[1] in ("unique_name", "get_name", "to_dictionary", "get_arguments", "hash") and base == a:
                return True
            if x[1] in WRAP:
                args = list(x[3]) + ([base] if base is not None else [])
                return any(part(y) for y in args)
        if x[0] == "attr" and x[1] == a and (x[2] in ("times", "name", "_relationships_with_direction") or x[2] == "_name"):
            return True
        if x[0] == "text":
            return any(part(y) for y in x[1:])
        if x[0] == "comp":
            return any(has(y, lambda z: z == ("attr", a, "times")) for y in x[1:])
        return False

    def part(x):
        if x == a:
            return True
        return whole(x)

    if whole(v):
        return True
    # the path has compared the attribute with the constant it puts in the key
    if v[0] == "const" and any(b and c[0] == "cmp" and c[1] == ("Eq",) and v in c[2] and any(whole(x) for x in c[2]) for c, b in conds.items()):
        return True
    if v[0] in ("tuple", "list"):
        if any(identifies(x, attr, conds) for x in v[1]):
            return True
        # the only item of a mapping of one: its key and its value
        t = ("attr", a, "times")
        single = any(single_item(c, b, t) for c, b in conds.items())
        if single and any(x[0] == "sub" and x[1] == t for x in v[1]) and len(v[1]) >= 2:
            return True
    return False


def single_item(c, b, t):
    if c[0] == "cmp" and len(c[1]) == 1 and c[2][0][0] == "len" and has(c[2][0], lambda z: z == t) and c[2][1] == ("const", "1"):
        return (c[1][0] == "Gt" and not b) or (c[1][0] == "Eq" and b) or (c[1][0] == "LtE" and b)
    return False


def absent(attr, conds):
    """the path's conditions say the feature has no such attribute"""
    a = ("attr", F, attr)
    for c, b in conds.items():
        if c[0] == "isinst" and c[1] == F and not b and OWNERS.get(attr) in c[2]:
            return True
        if c[0] == "isinst" and c[1] == F and b and OWNERS.get(attr) is not None and OWNERS[attr] not in c[2] and not any(x in ("FeatureBase",) for x in c[2]):
            return True
        if c[0] == "hasattr" and c[1] == F and c[2] == attr and not b:
            return True
        if c == ("cmp", ("Is",), (a, NONE)) and b:
            return True
        if c == a and not b:
            return True
        if c[0] == "cmp" and c[1] == ("Is",) and has(c[2][0], lambda z: z == ("name", OWNERS.get(attr, ""))) and not b:
            return True
        if c[0] == "cmp" and c[1] in (("Is",), ("Eq",)) and has(c, lambda z: z == ("name", OWNERS.get(attr, ""))) and not b:
            return True
    return False


def grouping(ctx):
    """the function that splits features into batches and the function computing their key"""
    p = ctx.p
    cls = p.cls("FeatureSet")
    ctx.need(cls is not None, "FeatureSet")
    for f in p.functions:
        if f.cls is not cls:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")) == "groupby" and (len(x.args) > 1 or x.keywords):
                k = x.args[1] if len(x.args) > 1 else [y.value for y in x.keywords if y.arg == "key"][0]
                return f, k, x
    # a dictionary of lists: groups.setdefault(key, []).append(f) / groups[key].append(f)
    for f in p.functions:
        if f.cls is cls and f.name == "group_features":
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append":
                    b = x.func.value
                    if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "setdefault" and b.args:
                        return f, b.args[0], x
                    if isinstance(b, ast.Subscript):
                        return f, b.slice, x
    return None, None, None


class Grab(Client):
    """runs the grouping function and collects what the key is"""
    def __init__(self):
        self.keys, self.sorts = [], []

    def elements(self, val, st):
        return None

    def call(self, paths, e, name, fval, recv, args, kws, st):
        r = Key().call(paths, e, name, fval, recv, args, kws, st)
        if r is not None:
            return r
        kw = dict(kws)
        if name in ("sorted", "sort"):
            self.sorts.append((kw.get("key"), kw.get("reverse"), paths.loc(e), self.runkey(paths, kw.get("key"), st)))
        if name == "groupby":
            k = args[1] if len(args) > 1 else kw.get("key")
            self.keys.append((k, paths.loc(e), self.runkey(paths, k, st)))
        if name == "setdefault" and len(args) == 2 and args[1][0] == "list" and recv is not None:
            self.keys.append((None, paths.loc(e), [(dict(st.conds), args[0])]))
        return None

    def runkey(self, paths, k, st):
        if k is None:
            return []
        if k[0] == "closure":
            node, m, fi = paths.closures[k[1]]
            outs = paths.enter(node, m, fi, None, [F], (), st, dict(st.env))
            return [(dict(n.conds), v) for kind, n, v in outs if kind == "next"]
        if k[0] == "attr" and k[1] == ("param", "self") and paths.func is not None and paths.func.cls is not None:
            g = paths.func.cls.find_method(k[2])
            if g is not None:
                outs = paths.enter(g.node, g.module, g, k[1], [F], (), st, None)
                return [(dict(n.conds), v) for kind, n, v in outs if kind == "next"]
        if k[0] == "name":
            r = paths.module.symbols.get(k[1])
            if r is not None and r[0] == "func":
                outs = paths.enter(r[1].node, r[1].module, r[1], None, [F], (), st, None)
                return [(dict(n.conds), v) for kind, n, v in outs if kind == "next"]
        return []


def refer(v):
    """the loop element standing for a feature, named F"""
    if isinstance(v, tuple):
        if v and v[0] == "elem":
            return F
        return tuple(refer(x) for x in v)
    return v


def check(ctx):
    p = ctx.p
    fs = p.cls("FeatureSet")
    calc = p.cls("FeatureSetCalculator")
    ctx.need(fs is not None and calc is not None, "FeatureSet and FeatureSetCalculator")
    gf = fs.find_method("group_features")
    ctx.need(gf is not None, "FeatureSet.group_features")
    ctx.unit(gf)
    g = Grab()
    Paths(p, g).run(gf.module, gf.node, gf)
    keys = [x for x in g.keys if x[2]]
    ctx.need(keys, "the key features are grouped by")
    covered, loc = {}, keys[0][1]
    for attr in ("relationship_path", "where", "use_previous", "groupby", "__class__"):
        bad = None
        n = 0
        for k, l, runs in keys:
            for conds, v in runs:
                conds = {clean(c): b for c, b in conds.items()}
                v = clean(v)
                if k is None:
                    v, conds = refer(v), {refer(c): b for c, b in conds.items()}
                if attr in OWNERS and absent(attr, conds):
                    continue
                n += 1
                ok = klass(v) if attr == "__class__" else identifies(v, attr, conds)
                if not ok:
                    bad = l
        covered[attr] = bad is None and n > 0
        if attr in OWNERS or attr in ("relationship_path", "__class__"):
            ctx.stats["key paths for %s" % attr] = n
    ctx.ob("key", "kind in the batch key", covered["__class__"], loc, "features of different kinds can share a batch, but one handler is chosen for the whole batch")
    # what handlers take from one feature for all
    used = {}
    for h in handlers(p, calc):
        ctx.unit(h)
        params = [a.arg for a in h.node.args.args if a.arg not in ("self", "cls")]
        if not params:
            continue
        b = Batch(params[0], calc)
        try:
            ps = Paths(p, LastClient(b), budget=200000)
            for k, st, v in ps.run(h.module, h.node, h):
                if v[0] == "closure":
                    node, m, f = ps.closures[v[1]]
                    ps.enter(node, m, f, None, [("any",)] * len(node.args.args), (), st, dict(st.env))
        except TooBig:
            ctx.stats.setdefault("functions too large", []).append(h.qual)
            continue
        own = []
        for a, l in b.reads:
            a0 = {"relationship_path_name": "relationship_path"}.get(a, a)
            if a0 in ("entity", "entity_id", "entityset", "base_features.entity", "base_features.entity_id"):
                continue
            if a0 in covered:
                used.setdefault(a0, (h, l))
                continue
            own.append((a, l))
        own += [("argument of %s" % n, l) for n, l in b.passed if n not in ("type", "isinstance", "str", "repr", "len", "print", "append", "add")]
        ctx.ob("reads", h.qual, not own, own[0][1] if own else h.loc, "%s is taken from one feature for the whole batch, but features are not grouped by it" % (own[0][0] if own else ""))
    for a in sorted(used):
        h, l = used[a]
        ctx.ob("key", "%s in the batch key" % a, covered[a], loc, "%s takes %s from one feature of the batch (%s), but the key does not tell features with different values apart" % (h.qual, a, l))
    order(ctx, fs, calc, gf, g)


def klass(v):
    return has(v, lambda z: z == ("attr", F, "__class__") or z[0] == "call" and z[1] == "type" and len(z) > 3 and z[3] == (F,))


class LastClient(Batch):
    """after a loop its variable holds just the last element"""
    def __init__(self, b):
        self.__dict__ = b.__dict__

    def after_loop(self, st, names, before):
        out = st.copy()
        for n in names:
            v = out.env.get(n)
            if v is not None and v == ("elem", self.param):
                out.env[n] = ("last", self.param)
        return out


def handlers(p, calc):
    """methods the batches are handed to: referenced, directly or through a dispatcher, from the function that makes the batches"""
    start = calc.find_method("_calculate_features")
    if start is None:
        cands = [f for f in p.functions if f.cls is calc and any(isinstance(x, ast.Attribute) and x.attr == "group_features" for x in ast.walk(f.node))]
        start = cands[0] if cands else None
    if start is None:
        return []
    seen, todo, out = {id(start.node)}, [start], []
    while todo:
        f = todo.pop()
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                t = calc.find_method(x.attr)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r = f.module.symbols.get(x.id)
                t = r[1] if r is not None and r[0] == "func" else None
            if t is not None and id(t.node) not in seen and t.name != "feature_trie":
                seen.add(id(t.node))
                out.append(t)
                todo.append(t)
    return [f for f in out if walks_param(f)]


def walks_param(f):
    params = [a.arg for a in f.node.args.args if a.arg not in ("self", "cls")]
    if not params:
        return False
    return any(isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == params[0] for y in ast.walk(x.iter)) for x in ast.walk(f.node))


# ---- order ---------------------------------------------------------------------------
class Walk(Client):
    loops = 1

    def traced(self, name):
        return name in ("append", "appendleft", "extend", "add", "_add_feature_to_trie", "_calculate_features", "_calculate_features_for_entity", "insert", "heappush", "discard", "remove")

    def __init__(self, names=()):
        self.names = names

    def enter(self, fi):
        return fi.name not in self.names

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if name in self.names:
            return [("next", st.ev("rec", name, args, kws, paths.loc(e)), ("call", name, recv, args, kws, ""))]
        f = e.func
        if isinstance(f, ast.Attribute) and name in ("append", "add", "appendleft", "insert", "extend") and isinstance(f.value, ast.Name):
            return [("next", st.ev("put", recv, args[-1] if args else None, paths.loc(e)), NONE)]
        return Key().call(paths, e, name, fval, recv, args, kws, st)

    def elements(self, val, st):
        v = val
        while v[0] == "call" and v[1] in ("list", "tuple", "iter", "sorted", "reversed") and v[3]:
            v = v[3][0]
        if v[0] == "call" and v[1] == "get_dependencies":
            return [("elem", clean(v))]
        if v[0] == "call" and v[1] == "children":
            return [("elem", clean(v))]
        return None


def order(ctx, fs, calc, gf, g):
    p = ctx.p
    sign = depth_walk(ctx, fs)
    # the sort starts with the depth
    srt = [x for x in g.sorts if x[3]]
    if srt:
        key, rev, loc, runs = srt[0]
        first = all(leads_with_depth(clean(v)) for c, v in runs)
        ctx.ob("order", "batches are sorted by depth first", first, loc, "the sort key does not start with the feature's depth")
        up = rev is None or rev == ("const", "False")
        neg = any(clean(v)[0] == "tuple" and clean(v)[1] and clean(v)[1][0][0] == "op" and clean(v)[1][0][1] == "USub" for c, v in runs)
        if sign is not None and first:
            ctx.ob("order", "dependencies sort first", (sign < 0) == (up != neg), loc, "the sort puts features before what they depend on")
    # features that need all rows: their dependencies too
    f = fs.find_method("_add_feature_to_trie")
    if f is not None:
        ctx.unit(f)
        w = Walk((f.name,))
        outs = Paths(p, w, budget=200000).run(f.module, f.node, f)
        names = [a.arg for a in f.node.args.args]
        anc = names[-1]
        a = ("param", anc)
        bad, n = None, 0
        for k, st, v in outs:
            conds = {clean(c): b for c, b in st.conds.items()}
            full = conds.get(a) is True or any(b for c, b in conds.items() if has(c, lambda z: z[0] == "attr" and z[2] == "uses_full_entity") or c[0] == "call" and c[1] == "uses_full_entity")
            for e in st.trace:
                if e[0] != "rec":
                    continue
                n += 1
                if not full and conds.get(a) is False:
                    continue
                kw = dict(e[3])
                x = kw.get(anc)
                if x is None and len(e[2]) >= len(names) - 1:
                    x = e[2][len(names) - 2]
                x = clean(x) if x is not None else None
                if not full:
                    # the path does not say: the ancestor's need must be handed on
                    if x is None or not (truthy(x, conds) or has(x, lambda z: z == a)):
                        bad = e[4]
                elif x is None or not truthy(x, conds):
                    bad = e[4]
        ctx.ob("order", "dependencies of features that need all rows are computed on all rows", bad is None and n > 0, bad or f.loc,
               "a dependency is not computed on all rows although the feature needs them")
        # every dependency is added
        miss = [1 for k, st, v in outs if k in ("next", "return") and any(e[0] == "put" for e in st.trace) and not any(e[0] == "rec" for e in st.trace)]
        ctx.ob("order", "every dependency joins the computation", not miss and n > 0, f.loc, "a feature is added without its dependencies")
    f = calc.find_method("_calculate_features_for_entity")
    if f is not None:
        ctx.unit(f)
        w = Walk((f.name, "_calculate_features", "_add_ancestor_relationship_variables", "_necessary_columns", "query_by_values"))
        try:
            outs = Paths(p, w, budget=200000).run(f.module, f.node, f)
        except TooBig:
            outs = []
            ctx.stats.setdefault("functions too large", []).append(f.qual)
        late, swapped, n = None, None, 0
        for k, st, v in outs:
            ev = [e for e in st.trace if e[0] == "rec" and e[1] in (f.name, "_calculate_features")]
            calcs = [i for i, e in enumerate(ev) if e[1] == "_calculate_features"]
            for i, e in enumerate(ev):
                if e[1] == f.name and calcs and i > calcs[0]:
                    late = e[4]
            kinds = []
            for i in calcs:
                s = [direct(clean(x)) for x in list(ev[i][2]) + [y for kk, y in ev[i][3]]]
                kinds.append(([x for x in s if x] or [None])[0])
            if "full" in kinds and "part" in kinds:
                n += 1
                if kinds.index("part") < kinds.index("full"):
                    swapped = ev[calcs[0]][4]
        if n:
            ctx.ob("order", "features on all rows are computed before those on the selected rows", swapped is None, swapped or f.loc, "features are computed before their dependencies on all rows")
        if outs:
            ctx.ob("order", "child entities are computed first", late is None, late or f.loc, "a child entity is computed after the features that use it")


def direct(v):
    """element 1 / 2 of a trie node's value"""
    while v[0] == "call" and v[1] in ("list", "tuple", "set", "sorted", "frozenset") and v[3]:
        v = v[3][0]
    if v[0] == "sub" and v[1][0] == "attr" and v[1][2] == "value" and v[2] in (("const", "1"), ("const", "2")):
        return "full" if v[2] == ("const", "1") else "part"
    return None


def truthy(x, conds):
    if x == ("const", "True"):
        return True
    if conds.get(x) is True:
        return True
    return False


def leads_with_depth(v):
    if v[0] != "tuple" or not v[1]:
        return False
    x = v[1][0]
    if x[0] == "op" and x[1] == "USub":
        x = x[2]
    return has(x, lambda z: z[0] in ("sub", "call", "attr")) and any(has(x, lambda z, n=n: (z[0] == "call" and z[1] == n) or (z[0] == "attr" and z[2] == n)) for n in ("unique_name",)) and x[0] in ("sub", "call")


def depth_walk(ctx, fs):
    """-1 when dependencies get smaller depths than the features that need them, +1 when larger"""
    p = ctx.p
    f = fs.find_method("_get_feature_depths")
    if f is None:
        return None
    ctx.unit(f)
    outs = Paths(p, Walk(), budget=200000).run(f.module, f.node, f)
    steps, lowered, queued, unvisited, sign = 0, True, True, False, None
    shape = False
    for k, st, v in outs:
        tr = st.trace
        conds = {clean(c): b for c, b in st.conds.items()}
        sets = [e for e in tr if e[0] == "setitem" and has(clean(e[2]), lambda z: z[0] == "elem" and has(z, lambda y: y[0] == "call" and y[1] == "get_dependencies"))]
        visited = any(has(clean(e), lambda z: z[0] == "elem" and has(z, lambda y: y[0] == "call" and y[1] == "get_dependencies")) for e in tr)
        if not visited:
            popped = any(e[0] == "setitem" for e in tr)
            if popped and not any(elsewhere(c, b) for c, b in conds.items()):
                unvisited = True
            continue
        shape = True
        steps += 1
        if not sets:
            # nothing to lower: allowed only when a comparison said so
            if not any(has(c, lambda z: z[0] == "cmp" and z[1][0] in ("Lt", "Gt", "LtE", "GtE")) for c in conds):
                lowered = False
            continue
        for e in sets:
            s = step(clean(e[3]), conds)
            if s is None:
                lowered = False
            else:
                sign = s
        put = [e for e in tr if e[0] == "put" and has(clean(e[2]), lambda z: z[0] == "elem")]
        if not put:
            queued = False
    if not shape:
        ctx.stats["depth walk"] = "not recognised"
        return None
    ctx.ob("order", "dependencies on the same entity are looked at", not unvisited, f.loc, "a feature whose dependencies are on its own entity gets a depth without them")
    ctx.ob("order", "the depth of a dependency stays below every feature that needs it", lowered, f.loc, "a dependency on the same entity can keep or get a depth that is not below the feature's")
    ctx.ob("order", "dependencies of dependencies are visited again", queued, f.loc, "a dependency whose depth changed is not visited again")
    return sign


def elsewhere(c, b):
    """the condition says that the dependencies are on another entity, or contradicts itself"""
    if c[0] == "attr":
        return c[2] == "relationship_path" and b
    if c[0] == "call" and c[1] == "RelationshipPath":
        return b and c[3] in ((("list", ()),), (("tuple", ()),))
    return c[0] == "cmp" and has(c, lambda z: z[0] == "attr" and z[2] == "relationship_path")


def step(v, conds):
    """the sign by which v is beyond the feature's own depth, if it also never undoes an earlier step"""
    if v[0] == "call" and v[1] in ("min", "max") and v[2] is None:
        args = v[3][0][1] if len(v[3]) == 1 and v[3][0][0] in ("tuple", "list") else v[3]
        ok = [x for x in args if x[0] == "op" and x[1] in ("Sub", "Add") and x[3] == ("const", "1")]
        rest = [x for x in args if x not in ok]
        if len(ok) == 1 and rest:
            s = -1 if ok[0][1] == "Sub" else 1
            return s if (v[1] == "min") == (s < 0) else None
        return None
    if v[0] == "op" and v[1] in ("Sub", "Add") and v[3] == ("const", "1"):
        s = -1 if v[1] == "Sub" else 1
        if any(has(c, lambda z: z[0] == "cmp" and z[1][0] in ("Lt", "Gt", "LtE", "GtE")) for c in conds):
            return s
    return None
