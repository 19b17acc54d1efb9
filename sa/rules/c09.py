"""Every part of a feature's definition reaches its generated name.  For each kind of feature the name is evaluated
symbolically and every way of building it must carry: all input names in order, the relationship path, the where
feature's name, the use_previous span, the group-by name; each primitive's own naming must carry all of those plus every
constructor argument (get_args_string names every recorded argument with its value); a hop of a path is disambiguated by
its child variable unless the pair of entities is linked once; multi-output names differ by their index; the identity key
is entity and name; no two primitives that accept the same inputs build names of the same shape."""
import ast
from ..flow import Engine, mk, is_const, cval, contains, walk, identity, show, NONE
from ..index import AnalysisBroken
from ..prims import primitives, kind, attr_ast
from ..strs import carry, normal, shape, seq_items
from ..norm import strip_copy
from ..util import gated, Conds, lits, exempt

TECHNIQUE = "symbolic evaluation of every name-building method to the set of definition parts it carries on each path"
LEVEL_NOTE = "Separators inside user-chosen column names are not modelled: parts are carried, not proved uniquely parseable."
MIN_INSTANCES = {"feature-part": 14, "primitive-part": 60, "args-string": 2, "path-name": 4, "indexed": 6, "identity": 2, "shape": 1}

AGG = ("base_feature_names", "relationship_path_name", "parent_entity_id", "where_str", "use_prev_str")
TRANS = ("base_feature_names",)


def calls(t, *names):
    """t is a call of one of these methods or functions"""
    if t.k == "mcall":
        return t.a[1] in names
    if t.k == "pcall":
        return getattr(t.a[0], "name", str(t.a[0]).split(".")[-1]) in names
    return t.k == "call" and str(t.a[0]).split(".")[-1] in names


def is_name_of(t, pred):
    """t is X.get_name() with pred(X)"""
    if not calls(t, "get_name", "unique_name"):
        return False
    r = t.a[0] if t.k == "mcall" else dict(t.a[1]).get("self") if t.k == "pcall" else None
    return r is not None and pred(r)


def me_attr(me, name):
    return lambda x: x.k == "attr" and identity(x.a[0]) is me and x.a[1] == name


def run(p, c, m, stop=(), props=True, **kw):
    f = c.find_method(m)
    if f is None:
        raise AnalysisBroken("%s has no %s" % (c.name, m))
    e = Engine(p, inline=lambda g: g.name not in stop, inline_properties=props, max_depth=6, **kw)
    me = mk("inst", c.name, "self")
    return f, e, me, e.run(f, self_term=me)


def bound_args(t, names):
    """arguments of a call to a primitive's naming method, by name"""
    if t.k == "mcall":
        d = dict(zip(names, t.a[2]))
        d.update({k: v for k, v in t.a[3]})
        return d
    return {}


def prim_call(t, me, method):
    return t.k == "mcall" and t.a[1] == method and t.a[0].k == "attr" and t.a[0].a[1] == "primitive"


def all_names(t, me, drop_last=False):
    """the list of every base feature's name, in order"""
    t = normal(t)
    s = seq_items(t)
    if not s or s[0] != "each" or s[3]:
        return False
    _, coll, elt, _cs = s
    base = coll
    if drop_last:
        if not (coll.k == "item" and coll.a[1].k == "slice" and coll.a[1].a[0] is NONE and is_const(coll.a[1].a[1]) and cval(coll.a[1].a[1]) == -1 and coll.a[1].a[2] is NONE):
            return False
        base = coll.a[0]
    ok = base.k == "attr" and base.a[1] == "base_features" and identity(base.a[0]) is me
    return ok and is_name_of(elt, lambda x: x.k == "elem" and x.a[0] is coll)


def part(ctx, what, ways, need, loc, msg, skip=None):
    """every way carries a leaf accepted by need, unless its conditions are accepted by skip"""
    bad = [c for c, lv in ways if not any(need(x) for x in lv) and not (skip and c.exempt(skip))]
    ctx.ob("feature-part", what, bool(ways) and not bad, loc, msg)


def opt_skip(me, name):
    """the optional part is absent"""
    a = me_attr(me, name)

    def pred(c, pol):
        if c.k == "cmp" and c.a[0] in ("is", "==") and NONE in c.a[1:] and pol:
            return a(c.a[1]) or a(c.a[2])
        if a(c):
            return not pol
        if c.k == "call" and c.a[0] == "hasattr" and not pol:
            return a(c.a[1][0])      # not a time span
        if c.k == "call" and c.a[0] == "isinstance" and not pol:
            return a(c.a[1][0])
        return False
    return pred


def features(ctx):
    p = ctx.p
    base = p.cls("FeatureBase")
    kinds = [c for c in sorted(p.subclasses("FeatureBase"), key=lambda c: c.qual) if c.name not in ("FeatureBase", "Feature") and "generate_name" in c.methods]
    ctx.need(len(kinds) >= 5, "feature kinds with their own names not found")
    for c in kinds:
        f, e, me, t = run(p, c, "generate_name", stop=("get_name",))
        ctx.unit(f)
        ways = carry(t, leaf=lambda x: prim_call(x, me, "generate_name"))
        if c.is_subclass("IdentityFeature"):
            part(ctx, "%s: variable" % c.name, ways, lambda x: x.k == "attr" and x.a[1] in ("name", "id") and me_attr(me, "variable")(x.a[0]), f.loc, "the name of an identity feature is not its variable's name")
            continue
        if c.is_subclass("DirectFeature"):
            path_part(ctx, c, me, ways, f, unique=False)
            part(ctx, "%s: input" % c.name, ways, lambda x: is_name_of(x, lambda y: contains(y, me_attr(me, "base_features")) or me_attr(me, "base_feature")(y)), f.loc, "the name of a direct feature leaves out its base feature")
            direct_names(ctx, c)
            continue
        if c.is_subclass("FeatureOutputSlice"):
            t = run(p, c, "generate_name", stop=("get_name", "get_feature_names"))[3]
            bad = [x for cc, x in gated(normal(t)) if not slice_name(x, me)]
            ctx.ob("feature-part", "%s: output" % c.name, not bad, f.loc, "the name of an output slice is not the name of that output of its base feature")
            continue
        # primitive based
        pcs = [x for _, lv in ways for x in lv if prim_call(x, me, "generate_name")]
        ctx.ob("feature-part", "%s: primitive" % c.name, bool(ways) and all(any(prim_call(x, me, "generate_name") for x in lv) for _, lv in ways), f.loc, "the name of a %s does not come from its primitive" % c.name)
        grouped = c.is_subclass("GroupByTransformFeature")
        agg = c.is_subclass("AggregationFeature")
        names = AGG if agg else TRANS
        for m in ("generate_name", "generate_names"):
            f, e, me, t = run(p, c, m, stop=("get_name",))
            cs = [x for x in walk(normal(t)) if prim_call(x, me, m)]
            ctx.ob("feature-part", "%s.%s asks its primitive" % (c.name, m), bool(cs), f.loc, "%s does not ask the primitive for its name" % f.name)
            for x in cs:
                d = bound_args(x, names)
                b = d.get("base_feature_names")
                ctx.ob("feature-part", "%s.%s: inputs" % (c.name, m), b is not None and (all_names(b, me, grouped) or grouped and all_names(b, me)), f.loc, "%s does not pass every input's name, in order" % m)
                if agg:
                    w = carry(d["where_str"]) if "where_str" in d else []
                    part(ctx, "%s.%s: where" % (c.name, m), w, lambda y: is_name_of(y, me_attr(me, "where")), f.loc, "the where-condition is not in the name", opt_skip(me, "where"))
                    w = carry(d["use_prev_str"]) if "use_prev_str" in d else []
                    part(ctx, "%s.%s: use_previous" % (c.name, m), w, lambda y: is_name_of(y, me_attr(me, "use_previous")), f.loc, "use_previous is not in the name", opt_skip(me, "use_previous"))
                    path_part(ctx, c, me, carry(d["relationship_path_name"]) if "relationship_path_name" in d else [], f, True, m)
            if grouped:
                tt = normal(t)
                if m == "generate_name":
                    ways = carry(tt, leaf=lambda x: prim_call(x, me, m))
                else:
                    s = seq_items(tt)
                    ways = []
                    if s and s[0] == "each" and not s[3] and prim_call(s[1], me, m):
                        ways = [w for w in carry(s[2])]
                        ways = [w for w in ways if any(x.k == "elem" and x.a[0] is s[1] for x in w[1])]
                part(ctx, "%s.%s: groupby" % (c.name, m), ways, lambda y: is_name_of(y, lambda z: me_attr(me, "groupby")(z) or z.k == "item" and me_attr(me, "base_features")(z.a[0])), f.loc, "the group-by feature is not in the name")
            elif m == "generate_names":
                bad = [x for _, x in gated(normal(t)) if not prim_call(strip_copy(x), me, m)]
                ctx.ob("feature-part", "%s.generate_names as the primitive builds them" % c.name, not bad, f.loc, "the names of the outputs are not those the primitive builds")
    # generic
    f, e, me, t = run(p, base, "get_name", stop=("generate_name",))
    ctx.unit(f)
    ok = all(me_attr(me, "_name")(x) or calls(x, "generate_name") for _, x in gated(normal(t)))
    ctx.ob("identity", "get_name", ok, f.loc, "get_name is neither the custom nor the generated name")
    f, e, me, t = run(p, base, "unique_name", stop=("get_name",))
    for m, lab in (("unique_name", "unique_name"), ("hash", "hash")):
        f = base.find_method(m)
        if f is None:
            continue
        f, e, me, t = run(p, base, m, stop=("get_name",))
        ctx.unit(f)
        t = normal(t)
        if t.k == "call" and t.a[0] == "hash" and t.a[1]:
            t = t.a[1][0]
        if t.k == "tuple":
            t = mk("fstr", t.a[1])
        ways = carry(t)
        ent = lambda x: x.k == "attr" and (x.a[1] == "entity_id" or x.a[1] == "id" and x.a[0].k == "attr" and x.a[0].a[1] == "entity")  # noqa
        ent2 = lambda x: ent(x) or x.k == "attr" and x.a[1] == "id" and contains(x, lambda z: z.k == "attr" and z.a[1] in ("entity_id", "entity"))  # noqa
        for lb, pr in (("entity", ent2), ("name", lambda x: is_name_of(x, lambda y: identity(y) is me))):
            bad = [c for c, lv in ways if not any(pr(x) for x in lv)]
            ctx.ob("identity", "%s: %s" % (lab, lb), bool(ways) and not bad, f.loc, "%s does not identify the feature by its %s" % (lab, lb))
    output_names(ctx, base)


def slice_name(x, me):
    if x.k == "item" and me_attr(me, "n")(x.a[1]):
        b = x.a[0]
        return calls(b, "get_feature_names") and contains(b, me_attr(me, "base_feature"))
    ways = carry(x)
    return bool(ways) and all(any(is_name_of(y, me_attr(me, "base_feature")) for y in lv) and any(me_attr(me, "n")(y) for y in lv) for _, lv in ways)


def path_part(ctx, c, me, ways, f, unique, m="generate_name"):
    def whole(x):
        return x.k == "attr" and x.a[1] == "name" and me_attr(me, "relationship_path")(x.a[0]) or \
            x.k == "each" and me_attr(me, "relationship_path")(strip_copy(x.a[0]))

    def skip(cnd, pol):
        return unique and me_attr(me, "_path_is_unique")(cnd) and pol
    bad = []
    for cc, lv in ways:
        if any(whole(x) for x in lv):
            continue
        if cc.exempt(skip) and any(x.k == "attr" and x.a[1] in ("id", "name") and (me_attr(me, "child_entity")(x.a[0]) or contains(x, me_attr(me, "base_features"))) for x in lv):
            continue
        bad.append(cc)
    ctx.ob("feature-part", "%s.%s: path" % (c.name, m), bool(ways) and not bad, f.loc, "the relationship path is not in the name of a %s" % c.name)


def direct_names(ctx, c):
    p = ctx.p
    f, e, me, t = run(p, c, "generate_names", stop=("get_name", "get_feature_names"))
    ctx.unit(f)
    for _, x in gated(normal(t)):
        s = seq_items(x)
        ok = bool(s) and s[0] == "each" and not s[3] and calls(s[1], "get_feature_names") and contains(s[1], me_attr(me, "base_features"))
        if ok:
            ways = carry(s[2])
            ok = all(any(y.k == "elem" and y.a[0] is s[1] for y in lv) for _, lv in ways)
            path_part(ctx, c, me, ways, f, False, "generate_names")
        ctx.ob("indexed", "%s outputs" % c.name, ok, f.loc, "a direct feature of a multi-output feature does not name each of its columns")


def indexed_comp(x, need, count=None):
    """one name per position: a sequence over a range/enumeration whose element carries the position"""
    s = seq_items(x)
    if not s or s[0] != "each" or s[3]:
        return False
    ways = carry(s[2])
    def idx(y):
        return y.k == "idx" or y.k == "elem" and y.a[0] is s[1] and y.a[0].k == "call" and y.a[0].a[0] == "range" or \
            y.k == "item" and y.a[0].k == "elem" and y.a[0].a[0] is s[1] and s[1].k == "call" and s[1].a[0] == "enumerate" and is_const(y.a[1]) and cval(y.a[1]) == 0 or \
            y.k in ("keyof", "elem") and y.a[0].k == "call" and y.a[0].a[0] in ("range", "enumerate")
    return bool(ways) and all(any(idx(y) for y in lv) and any(need(y) for y in lv) for _, lv in ways)


def output_names(ctx, base):
    p = ctx.p
    f, e, me, t = run(p, base, "get_feature_names", stop=("get_name", "generate_names", "generate_name"))
    ctx.unit(f)

    def single(c, pol):
        if c.k == "cmp" and c.a[0] == "==" and pol:
            return any(is_const(x) and cval(x) == 1 for x in c.a[1:]) and contains(c, lambda z: z.k == "attr" and z.a[1] == "number_output_features")
        if c.k == "cmp" and c.a[0] == ">" and not pol:
            return is_const(c.a[2]) and cval(c.a[2]) == 1
        if c.k == "cmp" and c.a[0] == "<" and pol:
            return is_const(c.a[2]) and cval(c.a[2]) == 2
        return False
    for c, x in gated(normal(t)):
        if me_attr(me, "_names")(x):
            continue
        if c.exempt(single):
            ok = x.k in ("list", "tuple") and len(x.a[1]) == 1 and is_name_of(x.a[1][0], lambda y: identity(y) is me)
            ctx.ob("indexed", "get_feature_names: single output", ok, f.loc, "the only column of a feature is not named after it")
            continue
        own = calls(strip_copy(x), "generate_names")
        if own:
            # generated names are only right while the name is the generated one
            ok = c.exempt(lambda a, pol: a.k == "cmp" and a.a[0] == "==" and pol and contains(a, lambda z: calls(z, "generate_name")) or me_attr(me, "_name")(a) and not pol)
            ctx.ob("indexed", "get_feature_names: generated outputs", ok, f.loc, "the outputs of a renamed feature keep the generated names")
        else:
            ctx.ob("indexed", "get_feature_names: renamed outputs", indexed_comp(x, lambda y: is_name_of(y, lambda z: identity(z) is me)), f.loc, "the outputs of a renamed feature are not numbered after its name")


# ---- primitives --------------------------------------------------------------------------------------------------
def arities(c):
    """[[type name,...]] accepted signatures, from the declaration"""
    a = attr_ast(c, "input_types")
    if not isinstance(a, (ast.List, ast.Tuple)):
        return None
    def nm(n):
        return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
    if a.elts and isinstance(a.elts[0], (ast.List, ast.Tuple)):
        return [[nm(x) for x in s.elts] for s in a.elts]
    return [[nm(x) for x in a.elts]]


def prims(ctx):
    p = ctx.p
    declared = set()
    for b in ("PrimitiveBase", "AggregationPrimitive", "TransformPrimitive"):
        declared |= set(p.cls(b).attrs)
    shapes = []
    for c in [p.cls("AggregationPrimitive"), p.cls("TransformPrimitive")] + primitives(p):
        k = kind(c) or ("aggregation" if c.name.startswith("Agg") else "transform")
        names = AGG if k == "aggregation" else TRANS
        f, e, me, t = run(p, c, "generate_name", stop=("get_args_string", "get_arguments"))
        ctx.unit(f)
        pn = [a.arg for a in f.node.args.posonlyargs + f.node.args.args][1:]
        ctx.need(len(pn) >= len(names), "%s.generate_name no longer takes %s" % (c.name, ", ".join(names)))
        pr = dict(zip(names, pn))
        ways = carry(t)
        init = c.find_method("__init__")
        qs = []
        if init is not None and init.cls.name != "PrimitiveBase":
            qs = [a.arg for a in init.node.args.posonlyargs + init.node.args.args][1:]
        qs = [q for q in qs if q not in declared]
        own = "generate_name" in c.methods
        sigs = arities(c)
        generic = c.name in ("AggregationPrimitive", "TransformPrimitive")
        if not own and not generic:
            fm = c.find_method("generate_name")
            if fm.cls.name in ("AggregationPrimitive", "TransformPrimitive"):
                own = False

        def ob(what, need, skip=None, msg=None):
            bad = [cc for cc, lv in ways if not any(need(x) for x in lv) and not (skip and cc.exempt(skip))]
            ctx.ob("primitive-part", "%s: %s" % (c.name, what), bool(ways) and not bad, f.loc, msg or "the name %s builds leaves out %s" % (c.name, what))
        if k == "aggregation":
            for q in ("relationship_path_name", "where_str", "use_prev_str"):
                ob(q, lambda x: x.k == "param" and x.a[0] == pr[q])
        bn = pr["base_feature_names"]

        def each(x):
            return x.k == "each" and x.a[0].k == "param" and x.a[0].a[0] == bn and x.a[1].k == "elem"
        n = max([len(s) for s in sigs]) if sigs and all(sigs) else None
        only_index = bool(sigs) and all(s == ["Index"] for s in sigs)
        if not (k == "aggregation" and only_index):
            bad = []
            for cc, lv in ways:
                if any(each(x) for x in lv):
                    continue
                got = {cval(x.a[1]) for x in lv if x.k == "item" and x.a[0].k == "param" and x.a[0].a[0] == bn and is_const(x.a[1])}
                if n is None or not all(i in got or i - n in got for i in range(n)):
                    bad.append(cc)
            ctx.ob("primitive-part", "%s: inputs" % c.name, bool(ways) and not bad, f.loc, "the name %s builds leaves out one of its inputs" % c.name)

        def args_string(x):
            return calls(x, "get_args_string")
        if generic:
            ob("arguments", args_string)
            ob("its own name", lambda x: x.k == "attr" and x.a[1] == "name" and identity(x.a[0]) is me)
        for q in qs:
            ob("argument %s" % q, lambda x: args_string(x) or me_attr(me, q)(x),
               lambda a, pol: a.k == "cmp" and a.a[0] == "==" and pol and any(me_attr(me, q)(y) for y in a.a[1:]) and any(is_const(y) for y in a.a[1:]))
        # output names
        fs, e, me2, ts = run(p, c, "generate_names", stop=("generate_name",))
        spn = [a.arg for a in fs.node.args.posonlyargs + fs.node.args.args][1:]

        def own_name(x):
            if x.k == "mcall" and x.a[1] == "generate_name":
                d = dict(zip(names, x.a[2]))
                d.update(dict(x.a[3]))
            elif calls(x, "generate_name"):
                d = {a: b for a, b in x.a[1]}
            else:
                return False
            return all(d.get(pr.get(q, q), d.get(q)) is not None and d.get(pr.get(q, q), d.get(q)).k == "param" and d.get(pr.get(q, q), d.get(q)).a[0] == spn[i] for i, q in enumerate(names))
        if generic or "generate_names" in c.methods:
            ctx.unit(fs)
            for _, x in gated(normal(ts)):
                s = seq_items(x)
                ctx.ob("indexed", "%s.generate_names" % c.name, indexed_comp(x, own_name), fs.loc, "%s does not give each output its own name" % c.name)
                ok = bool(s) and s[0] == "each" and s[1].k == "call" and s[1].a[0] == "range" and len(s[1].a[1]) == 1 and contains(s[1], lambda z: z.k == "attr" and z.a[1] == "number_output_features")
                ctx.ob("indexed", "%s.generate_names: as many as outputs" % c.name, ok, fs.loc, "%s does not name exactly its outputs" % c.name)
        if generic:
            continue
        # shape
        nm = attr_ast(c, "name")
        nm = nm.value if isinstance(nm, ast.Constant) else None
        for s in sigs or []:
            def hole(x, s=s):
                if x.k == "attr" and identity(x.a[0]) is me and x.a[1] == "name":
                    return nm or "?" + c.name
                if args_string(x):
                    return ""
                if x.k == "attr" and identity(x.a[0]) is me:
                    return "{arg}"
                if x.k == "param" and x.a[0] in pn:
                    return "{%s}" % x.a[0]
                if x.k == "item" and x.a[0].k == "param" and x.a[0].a[0] == bn and is_const(x.a[1]):
                    return "{in%d}" % (cval(x.a[1]) % len(s))
                if x.k == "mcall" and x.a[1] == "join" and is_const(x.a[0]) and x.a[2] and x.a[2][0].k == "param" and x.a[2][0].a[0] == bn:
                    return str(cval(x.a[0])).join("{in%d}" % i for i in range(len(s)))
                if x.k == "mcall" and x.a[1] == "upper" and x.a[0].k == "attr" and x.a[0].a[1] == "name" and identity(x.a[0].a[0]) is me:
                    return (nm or "?" + c.name).upper()
                return None
            sh = shape(t, hole)
            if sh:
                shapes.append((c, k, tuple(s), sh, f.loc))
    # collisions
    groups = {}
    for c, k, s, sh, loc in shapes:
        for x in sh:
            groups.setdefault((k, len(s), x), []).append((c, s, loc))
    vt = {v.name: v for v in p.subclasses("Variable")}

    def compat(a, b):
        if a == b:
            return True
        x, y = vt.get(a), vt.get(b)
        if x is None or y is None:
            return False
        return x.is_subclass(b) or y.is_subclass(a)
    n = 0
    for key, cs in sorted(groups.items()):
        for i, (c, s, loc) in enumerate(cs):
            for d, s2, loc2 in cs[i + 1:]:
                if d is c:
                    continue
                if all(compat(a, b) for a, b in zip(s, s2)):
                    n += 1
                    ctx.ob("shape", "%s and %s" % (c.name, d.name), False, loc2, "%s and %s build the same name %r for the same inputs" % (c.name, d.name, key[2]))
    ctx.ob("shape", "%d primitive signatures, %d name shapes" % (len(shapes), len(groups)), True, "featuretools/primitives", "")


def args_string(ctx):
    p = ctx.p
    seen = set()
    for c in [p.cls("PrimitiveBase")] + sorted(p.subclasses("PrimitiveBase"), key=lambda c: c.qual):
        if "get_args_string" not in c.methods or c.qual in seen:
            continue
        seen.add(c.qual)
        f, e, me, t = run(p, c, "get_args_string", stop=("get_arguments",))
        ctx.unit(f)
        ways = carry(t)

        def src(x):
            x = strip_copy(x)
            return calls(x, "get_arguments")

        def empty(a, pol):
            if a.k == "cmp" and a.a[0] == "==" and pol:
                return any(is_const(y) and cval(y) == 0 for y in a.a[1:]) and any(y.k == "call" and y.a[0] == "len" for y in a.a[1:])
            if a.k == "cmp" and a.a[0] in ("<", ">", ">="):
                return any(y.k == "call" and y.a[0] == "len" for y in a.a[1:]) and (a.a[0] == "<") == pol
            return not pol and (a.k in ("comp", "phi", "list") or src(a) or a.k == "mcall" and a.a[1] == "join")

        def has(lv, i):
            for y in lv:
                if y.k == "each":
                    y = y.a[1]
                if any(src(z.a[0]) for z in walk(y) if z.k in ("elem", "keyof", "valof")):
                    if y.k == "item" and is_const(y.a[1]) and cval(y.a[1]) == i and y.a[0].k == "elem":
                        return True
                    if y.k == "keyof" and i == 0 or y.k == "valof" and i == 1:
                        return True
            return False
        for i, lab in enumerate(("name", "value")):
            bad = [cc for cc, lv in ways if not has(lv, i) and not cc.exempt(empty)]
            ctx.ob("args-string", "%s: %s of every argument" % (c.name, lab), bool(ways) and not bad, f.loc, "the argument string leaves out the %s of an argument" % lab)


def paths(ctx):
    p = ctx.p
    c = p.cls("RelationshipPath")
    f, e, me, t = run(p, c, "name", props=False)
    ctx.unit(f)

    def hop(y):
        return y.k == "attr" and y.a[1] in ("parent_name", "child_name") or calls(y, "parent_name", "child_name")

    def hops(x):
        return x.k == "each" and (identity(strip_copy(x.a[0])) is me or strip_copy(x.a[0]).k == "attr" and identity(strip_copy(x.a[0]).a[0]) is me) and hop(x.a[1])
    ways = carry(t)
    ctx.ob("path-name", "every hop", bool(ways) and all(any(hops(x) for x in lv) for _, lv in ways), f.loc, "the name of a path leaves out a hop or does not use the hop's own name")
    c = p.cls("Relationship")
    for m in ("parent_name", "child_name"):
        f, e, me, t = run(p, c, m)
        ctx.unit(f)
        ways = carry(t)
        ent = m.split("_")[0]

        def entity(x):
            return x.k == "attr" and (x.a[1] == "_%s_entity_id" % ent or x.a[1] == "id" and contains(x, lambda z: z.k == "attr" and ent in z.a[1])) or x.k == "attr" and x.a[1] == "id" and contains(x, lambda z: z.k == "attr" and z.a[1] == "_%s_entity_id" % ent)

        def var(x):
            return x.k == "attr" and x.a[1] == "_child_variable_id" or x.k == "attr" and x.a[1] == "id" and contains(x, lambda z: z.k == "attr" and z.a[1] in ("_child_variable_id", "child_variable"))
        ctx.ob("path-name", "%s: entity" % m, bool(ways) and all(any(entity(x) for x in lv) for _, lv in ways), f.loc, "%s does not name the %s entity" % (m, ent))
        bad = [cc for cc, lv in ways if not any(var(x) for x in lv) and not cc.exempt(lambda a, pol: only_link(a, pol, me))]
        ctx.ob("path-name", "%s: which relationship" % m, bool(ways) and not bad, f.loc, "%s is the same for two relationships between the same entities" % m)
    # aggregation over the only path
    c = p.cls("AggregationFeature")
    f = c.find_method("__init__")
    e = Engine(p, inline=lambda g: g.cls is not None and g.cls.is_subclass("FeatureBase") or g.cls is None and g.module is c.module and not g.name.startswith("_check"), inline_properties=False, max_depth=6)
    me = mk("inst", c.name, "self")
    e.run(f, self_term=me)
    evs = [ev for ev in e.evs("setattr") if ev.attr == "_path_is_unique" and identity(ev.recv) is me]
    ctx.need(evs, "AggregationFeature no longer records whether its path is unique")
    for ev in evs:
        for cc, x in gated(normal(ev.value)):
            ok = False
            if calls(x, "has_unique_forward_path"):
                a = list(x.a[2]) + [v for _, v in x.a[3]] if x.k == "mcall" else [v for _, v in x.a[1]]
                a = [y for y in a if y.k == "attr" and y.a[1] == "id"]
                ok = len(a) >= 2 and not contains(a[0], lambda z: z.k == "param" and z.a[0] == "parent_entity") and \
                    (contains(a[0], lambda z: z.k == "param" and z.a[0] == "base_features") or contains(a[0], lambda z: z.k == "item" and is_const(z.a[1]) and cval(z.a[1]) == -1)) and contains(a[1], lambda z: z.k == "param" and z.a[0] == "parent_entity")
            elif is_const(x):
                if cval(x) is False:
                    ok = True
                else:
                    # only when there is no second path: a second one was refused
                    def another(g, pol):
                        return pol == (g.k != "cmp" or g.a[0] not in ("is", "==")) and contains(g, lambda z: calls(z, "find_backward_paths", "find_forward_paths")) and (g.k != "cmp" or NONE in g.a[1:] or is_const(g.a[2]) and cval(g.a[2]) == 1)
                    second = [r for r in e.evs("raise") if any(another(y, pl) for g, pol in r.guards for y, pl in lits(g, pol))]
                    ok = bool(second) and cc.exempt(lambda a, pol: a.k == "param" and a.a[0] == "relationship_path" and not pol or a.k == "cmp" and a.a[0] == "is" and pol and a.a[1].k == "param" and a.a[1].a[0] == "relationship_path")
            ctx.ob("path-name", "the path is named by its entity only when it is the only one (%s)" % ("default" if is_const(x) else "given"), ok, ev.loc, "a path is taken to be the only one without checking")
    es = p.cls("EntitySet")
    f, e, me, t = run(p, es, "has_unique_forward_path", stop=("find_forward_paths",))
    ctx.unit(f)
    t = normal(t)
    src = [x for x in walk(t) if calls(x, "find_forward_paths")]
    ps = [a.arg for a in f.node.args.args][1:]

    def order(x):
        a = list(x.a[2]) + [v for _, v in x.a[3]] if x.k == "mcall" else [v for k, v in x.a[1] if k != "self"]
        a = [y.a[0] for y in a if y.k == "param"]
        return a[:2] == ps[:2]
    ctx.ob("path-name", "uniqueness counts the paths from child to parent", bool(src) and all(order(x) for x in src), f.loc, "the uniqueness of a path is decided on other paths")


def only_link(a, pol, me):
    """the condition says that exactly one relationship links the two entities"""
    if a.k != "cmp":
        return False
    op, x, y = a.a
    if x.k != "call" and y.k == "call":
        x, y = y, x
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if not (x.k == "call" and x.a[0] == "len" and is_const(y)):
        if x.k == "call" and x.a[0] == "sum" and is_const(y):
            pass
        else:
            return False
    n = cval(y)
    says = (op == "==" and n == 1 and pol) or (op == ">" and n == 1 and not pol) or (op == "<" and n == 2 and pol) or (op == "<=" and n == 1 and pol) or (op == ">=" and n == 2 and not pol)
    if not says:
        return False
    s = x.a[1][0]
    if s.k == "comp":
        conds = set()

        def collect(cmpn):
            for g in cmpn.a[2]:
                for c in g.a[1]:
                    for z, pl in lits(c, True):
                        conds.add((z, pl))
                src = strip_copy(g.a[0])
                if src.k == "comp":
                    collect(src)
        collect(s)
        ok = set()
        for z, pl in conds:
            if not (pl and z.k == "cmp" and z.a[0] == "=="):
                return False
            sides = [w.a[1] for w in z.a[1:] if w.k == "attr"]
            if not any(contains(w, lambda q: q is me) for w in z.a[1:]) or len(sides) != 2:
                return False
            txt = show(z)
            if "parent" in txt and "child" not in show(z.a[1])[-20:]:
                ok.add("parent")
            elif "child" in txt:
                ok.add("child")
            else:
                return False
            # a column in the condition narrows it to one relationship
            if "variable" in txt:
                return False
        return True
    return False


def timedelta(ctx):
    p = ctx.p
    c = p.cls("Timedelta")
    f, e, me, t = run(p, c, "get_name")
    ctx.unit(f)
    times = lambda x: x.k == "attr" and x.a[1] == "times" and identity(x.a[0]) is me  # noqa

    def key(k):
        return k.k in ("keyof", "elem") and contains(k, times) or k.k == "item" and is_const(k.a[1]) and contains(k.a[0], times) and not contains(k, lambda z: z.k == "slice") \
            or k.k == "item" and k.a[0].k == "elem" and contains(k.a[0], times) and k.a[1].k == "const"

    def unit(x):
        return contains(x, lambda z: key(z) and z is x) or contains(x, lambda z: z.k == "item" and z.a[0].k == "attr" and z.a[0].a[1] == "_readable_units" and key(z.a[1]))

    def value(x):
        return x.k == "valof" and times(x.a[0]) or x.k == "item" and times(x.a[0]) and key(x.a[1]) or x.k == "item" and is_const(x.a[1]) and cval(x.a[1]) in (0, 1) and contains(x, times) or x.k == "each" and value(x.a[1])
    for cc, x in gated(t):
        ways = carry(x)
        ctx.ob("feature-part", "use_previous span: value", bool(ways) and all(any(value(y) for y in lv) for _, lv in ways), f.loc, "the name of a time span leaves out a value")
        ctx.ob("feature-part", "use_previous span: unit", unit(x), f.loc, "the name of a time span does not name the unit it was given")
    lit = c.attrs.get("_readable_units")
    if isinstance(lit, ast.Dict):
        vs = [v.value for v in lit.values if isinstance(v, ast.Constant)]
        ctx.ob("feature-part", "use_previous span: units named apart", len(set(vs)) == len(vs) == len(lit.values), f.loc, "two units of time share a name")


def check(ctx):
    features(ctx)
    prims(ctx)
    args_string(ctx)
    paths(ctx)
    timedelta(ctx)
