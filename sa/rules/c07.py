"""Each kind of feature's reader (from_dictionary) is evaluated symbolically on the very dictionary its writer
(get_arguments) builds, and its copy() on itself; every constructor argument of the rebuilt feature must reduce to the
part of the original feature that the constructor stores for that argument.  The look-ups used on the way (dependency by
unique name, relationship, time span and primitive from their dictionaries) are themselves shown to invert what is
written.  Every kind of feature is in the dispatch table, every name used as a dependency is listed as one, and the
serializer writes each feature and each of its dependencies under its own name and restores the list in order."""
from ..flow import Engine, mk, alts, is_const, cval, NONE, const, contains, walk, T, show, identity
from ..norm import rewrite, canon, strip_copy, look, MISSING
from ..util import lits

TECHNIQUE = "symbolic composition of writer and reader (gated value-flow), dispatch exhaustiveness"
LEVEL_NOTE = "Decides that every defining attribute is carried; that json keeps the primitive arguments' values is not decided (C40/C42 class)."
MIN_INSTANCES = {"restored": 20, "copied": 20, "dispatch": 6, "dependency": 6, "inverse": 6, "list": 5, "rename": 2}

OPAQUE = {"unique_name", "to_dictionary", "serialize_primitive", "deserialize_primitive", "get_name", "generate_name", "__init__",
          "get_feature_names", "get_dependencies", "to_data_description"}


def cname(x):
    """(method name, receiver / first argument) of a call term"""
    if x.k == "pcall":
        f = x.a[0]
        d = dict(x.a[1])
        nm = f.name if hasattr(f, "name") else str(f)
        return nm, d
    if x.k == "mcall":
        return x.a[1], {"self": x.a[0], "args": x.a[2], "kws": dict(x.a[3])}
    return None, {}


def receiver(x, name):
    n, d = cname(x)
    return d.get("self") if n == name else None


def arg(x, *names):
    n, d = cname(x)
    for q in names:
        if q in d and isinstance(d[q], T):
            return d[q]
    a = d.get("args") or ()
    kw = d.get("kws") or {}
    for q in names:
        if q in kw:
            return kw[q]
    return a[0] if a else None


def last(t):
    """X and ... and Y  ->  Y ;  Y if X else None  ->  Y"""
    while True:
        if t.k == "bool" and t.a[0] == "and":
            t = t.a[1][-1]
        elif t.k == "ite" and t.a[2] is NONE:
            t = t.a[1]
        elif t.k == "ite" and t.a[1] is NONE:
            t = t.a[2]
        else:
            return t


def inv(x):
    if x.k == "item":
        k = last(x.a[1])
        r = receiver(k, "unique_name")
        if r is not None and x.a[0].k == "param":
            return r
        # entityset[X.entity_id][X.id]
        if x.a[1].k == "attr" and x.a[1].a[1] == "id" and x.a[0].k == "item" and x.a[0].a[0].k == "param":
            v, e = x.a[1].a[0], x.a[0].a[1]
            if e.k == "attr" and e.a[1] == "entity_id" and e.a[0] is v:
                return v
            if e.k == "attr" and e.a[1] == "id" and e.a[0].k == "attr" and e.a[0].a[1] == "entity" and e.a[0].a[0] is v:
                return v
    if x.k in ("pcall", "mcall"):
        n, d = cname(x)
        if n == "from_dictionary":
            a = arg(x, "arguments", "dictionary")
            if a is not None:
                a = last(a)
                r = receiver(a, "to_dictionary") or receiver(a, "get_arguments")
                if r is not None:
                    return r
        if n == "deserialize_primitive":
            a = arg(x, "primitive_dict")
            if a is not None:
                n2, d2 = cname(a)
                if n2 == "serialize_primitive":
                    return d2.get("primitive") or x
        if n == "get" and x.k == "mcall" and x.a[2]:
            return inv(mk("item", x.a[0], x.a[2][0])) if receiver(last(x.a[2][0]), "unique_name") is not None else x
        if n == "get_name" and d.get("self") is not None and d["self"].k == "inst":
            return mk("attr", d["self"], "_name")
    if x.k == "bool" and x.a[0] == "and":
        z = x.a[1][-1]
        if all(y is z for y in x.a[1]):
            return z
        if all(y is z or (y.k in ("pcall", "mcall") and any(w is z for w in walk(y))) for y in x.a[1]):
            return z
        xs = []
        for y in x.a[1]:
            for w in (y.a[1] if y.k == "bool" and y.a[0] == "and" else (y,)):
                if w not in xs:
                    xs.append(w)
        base = [w for w in xs if w.k == "attr"]
        if len(xs) > 1 and base and z is base[0] and all(w is z or contains(w, lambda q: q is z) for w in xs):
            return z
    if x.k == "ite":
        # X if X (is not None) else None: absence is carried as absence
        z = last(x)
        if z is not x and z.k == "attr":
            ats = {w for w in walk(x.a[0]) if w.k == "attr" and w.a[0].k == "inst"}
            if ats == {z}:
                return z
    return x


def norm(t):
    for _ in range(6):
        n = rewrite(t, lambda x: inv(canon(x)))
        if n is t:
            return n
        t = n
    return t


def self_path(t):
    """'relationship_path[0][1]' relative to the feature; None when not a plain access path"""
    out = []
    t = strip_copy(t)
    while True:
        if t.k == "attr":
            out.append("." + t.a[1])
            t = t.a[0]
        elif t.k == "item" and is_const(t.a[1]):
            out.append("[%r]" % (cval(t.a[1]),))
            t = strip_copy(t.a[0])
        elif t.k == "item" and t.a[1].k == "slice":
            out.append("[%s]" % ":".join("" if y is NONE else str(cval(y)) if is_const(y) else "?" for y in t.a[1].a))
            t = strip_copy(t.a[0])
        elif t.k == "inst" and t.a[1:] == ("self",):
            return "".join(reversed(out)).lstrip(".").replace(":]", "]") if out else "self"
        elif t.k == "call" and t.a[0].endswith("RelationshipPath") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return None


def alternatives(q, appended):
    A = {
        "name": {"_name"},
        "variable": {"variable"},
        "base_feature": {"base_features[0]", "base_feature"},
        "base_features": {"base_features[:-1]"} if appended else {"base_features"},
        "relationship": {"relationship_path[0][1]"},
        "child_entity": {"entity", "relationship_path[0][1].child_entity", "entityset[entity_id]"},
        "parent_entity": {"parent_entity", "entity", "relationship_path[0][1].parent_entity"},
    }
    return A.get(q, {q, "_" + q})


def rebuilt_path(ev, eng, t):
    """relationship path rebuilt element by element with the direction flags the constructor demands"""
    if t.k == "new" and t.a[0].name == "RelationshipPath":
        return t.a[2][0] if t.a[2] else dict(t.a[3]).get("relationships_with_direction", t)
    return t


def check(ctx):
    p = ctx.p
    fb = p.cls("FeatureBase")
    fmod = fb.module
    inl = lambda g: (g.module is fmod or g.parent is not None) and g.name not in OPAQUE and g.name not in ("copy", "from_dictionary", "get_arguments")  # noqa
    kinds = sorted(p.subclasses("FeatureBase"), key=lambda c: c.name)
    ctx.need(len(kinds) >= 4, "kinds of features not found")
    for c in kinds:
        me = mk("inst", c.name, "self")
        init = c.find_method("__init__")
        prms = init.all_params()[1:]
        eb = Engine(p, inline=lambda g: g.name == "__init__", inline_properties=False, max_depth=6)
        eb.run(init, self_term=me)
        appended = False
        for ev in eb.evs("setattr"):
            if ev.attr == "base_features" and identity(ev.recv) is me:
                others = {x.a[0] for x in walk(ev.value) if x.k == "param"} - {"base_features", "base_feature"}
                appended = appended or bool(others & set(prms))
        ctx.unit(init)
        ga, fd, cp = c.find_method("get_arguments"), c.find_method("from_dictionary"), c.find_method("copy")
        for f, what in ((ga, "get_arguments"), (fd, "from_dictionary"), (cp, "copy")):
            ctx.ob("dispatch", "%s.%s" % (c.name, what), f is not None and f.cls is not fb, c.loc, "%s does not define %s" % (c.name, what))
        if any(f is None or f.cls is fb for f in (ga, fd, cp)):
            continue
        ctx.unit(ga, fd, cp)
        eg = Engine(p, inline=inl, inline_properties=False)
        d = norm(eg.run(ga, self_term=me))
        ef = Engine(p, inline=inl, inline_properties=False)
        rf = ef.run(fd, args={"arguments": d, fd.all_params()[0]: mk("cls", c)})
        ec = Engine(p, inline=inl, inline_properties=False)
        rc = ec.run(cp, self_term=me)
        for rule, eng, f, res in (("restored", ef, fd, rf), ("copied", ec, cp, rc)):
            news = [ev for ev in eng.evs("new") if ev.cls in kinds]
            good = [ev for ev in news if ev.cls is c]
            ctx.ob(rule, "%s kind" % c.name, bool(good) and len(good) == len(news), f.loc, "%s of a %s builds %s" % (
                f.name, c.name, sorted({ev.cls.name for ev in news}) or "nothing"))
            for ev in good:
                for q in prms:
                    v = ev.bound.get(q, NONE)
                    dflt = q not in ev.bound
                    v = rebuilt_path(ev, eng, norm(v))
                    got = accessor(v, q)
                    want = alternatives(q, appended)
                    ok = got is not None and got <= want
                    ctx.ob(rule, "%s(%s)" % (c.name, q), ok, ev.loc, "%s rebuilds %s with %s=%s; expected %s" % (
                        f.qual, c.name, q, "nothing" if dflt else (sorted(got) if got else show(v)[:120]), " or ".join(sorted(want))))
                gl = [a for g, pol in ev.guards for a, pl in lits(norm(g), pol) if a.k != "inloop" and not is_const(a)]
                ctx.ob(rule, "%s always" % c.name, not gl or len(good) > 1, ev.loc, "%s builds the feature only when %s" % (f.qual, gl and show(gl[0])[:80]))
            # nothing is changed on the new object afterwards
            for ev in eng.evs("setattr"):
                if ev.attr in ("_name", "_names") and rule == "copied":
                    got = accessor(norm(ev.value), "name")
                    ctx.ob(rule, "%s %s afterwards" % (c.name, ev.attr), got in ({"_name"}, {"_names"}), ev.loc, "%s changes %s" % (f.qual, ev.attr))
                elif ev.attr in {w for q in prms for w in alternatives(q, appended)}:
                    got = accessor(norm(ev.value), ev.attr)
                    ctx.ob(rule, "%s %s afterwards" % (c.name, ev.attr), got is not None and got <= alternatives(ev.attr, False) | {ev.attr}, ev.loc,
                           "%s overwrites %s of the rebuilt feature" % (f.qual, ev.attr))
        # every dependency looked up by name is listed as a dependency
        dep_check(ctx, p, c, me, d, eb)
    dispatch(ctx, p, fb, kinds)
    rename(ctx, p, fb)
    deep(ctx, p, fb)
    inverses(ctx, p)
    the_list(ctx, p, fb)


def accessor(v, q):
    """set of self paths the value may be; None if it may be anything else"""
    if q == "relationship_path":
        v = strip_copy(v)
        if v.k == "comp" and len(v.a[2]) == 1 and not v.a[2][0].a[1]:
            s, e = v.a[2][0].a[0], v.a[1]
            if e.k == "tuple" and len(e.a[1]) == 2:
                fl, r = e.a[1]
                okf = is_const(fl) and cval(fl) is False or (fl.k == "item" and fl.a[0].k == "elem" and fl.a[1] is const(0))
                if okf and r.k == "item" and r.a[0].k == "elem" and r.a[1] is const(1) and r.a[0].a[0] is s:
                    sp = self_path(s)
                    return {sp} if sp else None
            return None
    if v.k == "item" and v.a[0].k == "comp" and is_const(v.a[1]):
        pass
    out = set()
    for a in alts(v):
        a = resolve_item(a)
        sp = self_path(a)
        if sp is None:
            return None
        out.add(sp)
    return out or None


def resolve_item(t):
    """item/attr chains over a rebuilt list: [f(x) for x in S][0]  ->  f(S[0])"""
    def st(x):
        if x.k == "item" and x.a[0].k == "comp" and len(x.a[0].a[2]) == 1 and not x.a[0].a[2][0].a[1] and is_const(x.a[1]):
            s = x.a[0].a[2][0].a[0]
            return rewrite(x.a[0].a[1], lambda y: mk("item", s, x.a[1]) if y.k == "elem" and y.a[0] is s else y)
        return x
    return rewrite(t, st)


def dep_check(ctx, p, c, me, d, eb):
    gd = c.find_method("get_dependencies")
    e = Engine(p, inline=lambda g: g.name not in OPAQUE, inline_properties=False)
    r = norm(e.run(gd, args={"deep": const(False), "ignored": NONE}, self_term=me))
    text = set()
    for x in walk(r):
        if x.k == "attr" and identity(x.a[0]) is me:
            text.add(x.a[1])
    # conditions only on the part itself
    for x in walk(d):
        r0 = receiver(x, "unique_name")
        if r0 is None:
            continue
        base = r0
        at = [y.a[1] for y in walk(base) if y.k == "attr" and identity(y.a[0]) is me]
        for a in at:
            ok = a in text
            if not ok:
                # the constructor puts it among the base features
                for ev in eb.evs("setattr"):
                    if ev.attr == "base_features" and identity(ev.recv) is me:
                        for other in eb.evs("setattr"):
                            if other.attr == a and (contains(ev.value, lambda z: z is other.value) or
                                                    {z for z in walk(other.value) if z.k == "param"} and
                                                    {z for z in walk(other.value) if z.k == "param"} <= {z for z in walk(ev.value) if z.k == "param"}):
                                ok = True
            ctx.ob("dependency", "%s.%s" % (c.name, a), ok, gd.loc, "%s.%s is looked up by name when loading but is not listed as a dependency" % (c.name, a))
    # base features are all dependencies, without a filter of their own
    evs = [ev for ev in e.events if ev.kind in ("call", "return", "augassign")]
    ctx.unit(gd)


def dispatch(ctx, p, fb, kinds):
    des = p.cls("FeaturesDeserializer")
    m = des.find_method("_deserialize_feature")
    # the table(s) consulted with the stored type
    e = Engine(p, inline=lambda g: g.cls is des or g.parent is not None, inline_properties=False)
    tl = des.find_method("to_list")
    e.run(tl)
    ctx.unit(tl, m)
    calls = [ev for ev in e.evs("call") if ev.d.get("name", "").split(".")[-1] == "from_dictionary"]
    table = None
    for ev in e.events:
        for t in [v for v in ev.d.values() if isinstance(v, T)]:
            for x in walk(t):
                if x.k == "dict" and x.a[1] and all(is_const(k) and v.k == "cls" for k, v in x.a[1]):
                    table = x if table is None or len(x.a[1]) > len(table.a[1]) else table
    if table is None:
        at = des.find_attr("FEATURE_CLASSES")
        if at is not None:
            import ast
            at = at[1]
            if isinstance(at, ast.Dict):
                pairs = []
                for k, v in zip(at.keys, at.values):
                    r = p.resolve_expr(des.module, v)
                    if isinstance(k, ast.Constant) and r and r[0] == "class":
                        pairs.append((const(k.value), mk("cls", r[1])))
                table = mk("dict", None, tuple(pairs))
    if table is None:
        # generic look-up over subclasses
        ctx.need(contains_subclass_walk(des), "the dispatch table of feature kinds was not found")
        ctx.ob("dispatch", "table", True, des.loc)
        for c in kinds:
            ctx.ob("dispatch", "%s in table" % c.name, True, des.loc)
        return
    d = {cval(k): v.a[0] for k, v in table.a[1]}
    for c in kinds:
        ctx.ob("dispatch", "%s in table" % c.name, d.get(c.name) is c, des.loc, "a saved %s is loaded as %s" % (c.name, d.get(c.name) and d[c.name].name))
    for k, v in d.items():
        ctx.ob("dispatch", "%s names its class" % k, v.name == k, des.loc, "the name %s selects %s" % (k, v.name))


def contains_subclass_walk(des):
    import ast
    return any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) or getattr(n, "attr", None)) in
               ("find_descendents", "__subclasses__", "getattr", "globals", "vars") for m in des.methods.values() for n in ast.walk(m.node))


def rename(ctx, p, fb):
    for c in [fb] + list(p.subclasses("FeatureBase")):
        f = c.methods.get("rename")
        if f is None:
            continue
        e = Engine(p, inline=lambda g: g.module is fb.module and g.name not in OPAQUE and g.name != "copy", inline_properties=False)
        r = e.run(f)
        ctx.unit(f)
        got = {}
        for ev in e.evs("setattr"):
            got[ev.attr] = ev
        o = identity(r)
        iscopy = any(receiver(identity(x), "copy") is not None for x in alts(r))
        ctx.ob("rename", "%s returns a copy" % f.qual, iscopy, f.loc, "rename does not start from a copy of the feature")
        v = got.get("_name")
        ctx.ob("rename", "%s sets the name" % f.qual, v is not None and v.value.k == "param", f.loc, "rename does not set the given name")
        for a, ev in got.items():
            if a == "_name":
                continue
            ok = a == "_names" and (ev.value is NONE or ev.value.k in ("list",) and not ev.value.a[1] or contains(ev.value, lambda z: z.k == "param"))
            ctx.ob("rename", "%s leaves %s" % (f.qual, a), ok, ev.loc, "rename changes %s" % a)
        ctx.ob("rename", "%s resets output names" % f.qual, "_names" in got, f.loc, "output names of the old name survive a rename")


def deep(ctx, p, fb):
    """get_dependencies(deep=True) reaches the dependencies of every dependency"""
    gd = fb.find_method("get_dependencies")
    e = Engine(p, inline=lambda g: False, inline_properties=False)
    r = e.run(gd, args={"deep": const(True), "ignored": NONE})
    n = norm(r)
    at = {x.a[1] for x in walk(n) if x.k == "attr" and x.a[0].k == "inst"}
    ctx.ob("dependency", "base features", "base_features" in at, gd.loc, "get_dependencies leaves out the base features")
    ctx.ob("dependency", "where", "where" in at, gd.loc, "get_dependencies leaves out the where-condition")
    rec = [ev for ev in e.evs("call") if any(c.name == "get_dependencies" for c in ev.d.get("callee") or []) or ev.d.get("name") == "get_dependencies"]
    ok = False
    for ev in rec:
        rv = norm(ev.recv) if ev.d.get("recv") is not None else (ev.d.get("bound") or {}).get("self")
        g = [a for c, pol in ev.guards for a, pl in lits(c, pol) if a.k != "inloop" and not is_const(a)]
        dp = (ev.d.get("bound") or {}).get("deep")
        ok = ok or (not g and (dp is None or (is_const(dp) and cval(dp))))
    ctx.ob("dependency", "deep", ok, gd.loc, "deep dependencies are not collected for every dependency")
    # filters over dependencies only by the names to ignore
    for x in walk(n):
        if x.k == "comp":
            for g in x.a[2]:
                for c in g.a[1]:
                    names = [y for y in walk(c) if receiver(y, "unique_name") is not None]
                    ctx.ob("dependency", "filter", bool(names) or is_const(c), gd.loc, "a dependency is dropped when not %s" % show(c)[:80])


def inverses(ctx, p):
    # relationship
    rel = p.cls("Relationship")
    me = mk("inst", "Relationship", "self")
    eg = Engine(p, inline=lambda g: g.cls is rel and g.name != "__init__", inline_properties=False)
    d = norm(eg.run(rel.find_method("to_dictionary"), self_term=me))
    fd = rel.find_method("from_dictionary")
    ef = Engine(p, inline=lambda g: g.cls is rel and g.name != "__init__", inline_properties=False)
    ef.run(fd, args={"arguments": d, "cls": mk("cls", rel)})
    ctx.unit(fd)
    news = [ev for ev in ef.evs("new") if ev.cls is rel]
    for ev in news:
        for side in ("parent", "child"):
            t = norm(ev.bound.get(side + "_variable", NONE))
            got = []
            while t.k == "item":
                got.append(self_path(t.a[1]))
                t = t.a[0]
            ok = len(got) == 2 and (got[0] or "").lstrip("_") in (side + "_variable_id", side + "_variable.id") and \
                (got[1] or "").lstrip("_") in (side + "_entity_id", side + "_entity.id") and t.k == "param"
            ctx.ob("inverse", "Relationship %s" % side, ok, ev.loc, "the %s variable of a loaded relationship comes from %s" % (side, got))
    ctx.ob("inverse", "Relationship", bool(news), fd.loc, "from_dictionary builds no Relationship")
    init = rel.find_method("__init__")
    ei = Engine(p, inline=lambda g: False, inline_properties=False)
    ei.run(init)
    for side in ("parent", "child"):
        for a, b in (("entity_id", ("entity.id", "entity_id")), ("variable_id", ("id",))):
            vs = [ev.value for ev in ei.evs("setattr") if ev.attr.lstrip("_") == "%s_%s" % (side, a)]
            ok = bool(vs) and all(_ppath(v) in [side + "_variable." + z for z in b] for v in vs)
            ctx.ob("inverse", "Relationship keeps %s %s" % (side, a), ok, init.loc, "%s_%s is taken from %s" % (side, a, [show(v)[:60] for v in vs]))
    # primitive
    sp = p.resolve_dotted("featuretools.primitives.utils.serialize_primitive")[1]
    pd = p.cls("PrimitivesDeserializer")
    dp = pd.find_method("deserialize_primitive")
    es_ = Engine(p, inline=lambda g: False, inline_properties=False)
    d = norm(es_.run(sp))
    e = Engine(p, inline=lambda g: g.cls is pd and g.name != "__init__" or g.parent is not None, inline_properties=False)
    res = e.run(dp, args={"primitive_dict": d})
    ctx.unit(sp, dp)
    # the call building the primitive
    mkc = []
    for x in alts(res):
        if x.k in ("call", "dyncall", "ccall", "mcall", "new"):
            mkc.append(x)
    kws = [v for ev in e.events if ev.kind in ("call", "new") for n, v in ev.d.get("kws") or () if n == "**"]
    ok = any(_args_of(norm(v)) for v in kws)
    ctx.ob("inverse", "primitive arguments", ok, dp.loc, "a primitive is not rebuilt with all of its recorded arguments")
    # the class is matched by the same name and module that were written
    seen = {}
    for ev in e.evs("cmp") if hasattr(e, "evs") else []:
        pass
    ty, mo = look(d, const("type")), look(d, const("module"))
    okw = ty is not MISSING and mo is not MISSING and ty.k == "attr" and ty.a[1] in ("__name__", "__qualname__") and mo.k == "attr" and mo.a[1] == "__module__" \
        and ty.a[0] is mo.a[0] and contains(ty, lambda z: z.k == "param")
    ctx.ob("inverse", "primitive class written", okw, sp.loc, "the primitive's class is written as %s in %s" % (show(ty)[:40] if isinstance(ty, T) else ty, show(mo)[:40] if isinstance(mo, T) else mo))
    fc = [m for m in pd.methods.values() if any(w.attr == "__module__" for w in _attrs(m))]
    okr = bool(fc)
    for m in fc:
        names = {w.attr for w in _attrs(m)}
        okr = okr and bool(names & {"__name__", "__qualname__"})
    ctx.ob("inverse", "primitive class found", okr, dp.loc, "the primitive's class is not looked up by name and module")
    keyed = _key_match(p, pd)
    ctx.ob("inverse", "primitive class key", keyed is None, dp.loc, keyed or "")
    # time span
    td = p.cls("Timedelta")
    me = mk("inst", "Timedelta", "self")
    eg = Engine(p, inline=lambda g: False, inline_properties=False)
    ga, fd = td.find_method("get_arguments"), td.find_method("from_dictionary")
    d = norm(eg.run(ga, self_term=me))
    ctx.unit(ga, fd)
    for key, want in (("unit", "key"), ("value", "value")):
        vs = []
        for x in walk(d):
            if x.k == "dict":
                v = look(x, const(key))
                if v is not MISSING:
                    vs.append(v)
        vs = vs or [look(d, const(key))]
        ok = bool(vs) and all(isinstance(v, T) and _half(v) == {want} for v in vs)
        ctx.ob("inverse", "Timedelta %s written" % key, ok, ga.loc, "the %s of a time span is written from %s" % (key, [show(v)[:80] if isinstance(v, T) else v for v in vs]))
    ef = Engine(p, inline=lambda g: g.cls is td and g.name != "__init__", inline_properties=False)
    ef.run(fd, args={"cls": mk("cls", td)})
    news = [ev for ev in ef.evs("new") if ev.cls is td]
    ctx.ob("inverse", "Timedelta", bool(news), fd.loc, "from_dictionary builds no Timedelta")
    dn = fd.all_params()[1]
    for ev in news:
        ks, vs = set(), set()
        v = ev.bound.get("value", NONE)
        u = ev.bound.get("unit", NONE)
        if u is not NONE:
            ks, vs = _keys(u, dn), _keys(v, dn)
        else:
            for x in walk(norm(v)):
                if x.k == "dict":
                    for k, w in x.a[1]:
                        ks |= _keys(k, dn)
                        vs |= _keys(w, dn)
                elif x.k == "upd" and x.a[0] == "setitem":
                    ks |= _keys(x.a[2][0], dn)
                    vs |= _keys(x.a[2][1], dn)
                elif x.k == "comp" and x.a[0] == "dict" and x.a[1].k == "tuple":
                    a, b = x.a[1].a[1]
                    if contains(a, lambda z: z.k == "call" and z.a[0] == "zip") or a.k == "item" and a.a[0].k == "elem":
                        zs = [z for z in walk(a) if z.k == "call" and z.a[0] == "zip"]
                        if zs:
                            a, b = [zs[0].a[1][cval(q.a[1])] if q.k == "item" and is_const(q.a[1]) else q for q in (a, b)]
                    ks |= _keys(a, dn)
                    vs |= _keys(b, dn)
                elif x.k == "call" and x.a[0] == "dict" and x.a[1] and x.a[1][0].k == "call" and x.a[1][0].a[0] == "zip":
                    ks |= _keys(x.a[1][0].a[1][0], dn)
                    vs |= _keys(x.a[1][0].a[1][1], dn)
        ctx.ob("inverse", "Timedelta rebuilt", ks == {"unit"} and vs == {"value"}, ev.loc, "a time span is rebuilt with units %s and values %s" % (sorted(ks), sorted(vs)))
        extra = [q for q in ("delta_obj",) if ev.bound.get(q, NONE) is not NONE]
        ctx.ob("inverse", "Timedelta rebuilt only", not extra, ev.loc, "a time span is rebuilt with a fixed delta")


def _keys(t, dn):
    t = rewrite(t, lambda x: mk("undef") if x.k == "call" and x.a[0] in ("range", "len", "isinstance") or x.k == "cmp" else x)
    return {cval(x.a[1]) for x in walk(t) if x.k == "item" and is_const(x.a[1]) and x.a[0].k == "param" and x.a[0].a[0] == dn} | \
        {cval(x.a[2][0]) for x in walk(t) if x.k == "mcall" and x.a[1] == "get" and x.a[0].k == "param" and x.a[2] and is_const(x.a[2][0])}


def _half(v):
    """'key'/'value' halves of self.times that a written term is made of"""
    out = set()
    conds = [x.a[0] for x in walk(v) if x.k == "ite"]
    skip = {y for c in conds for y in walk(c)}
    for x in walk(v):
        if x in skip and x.k in ("keyof", "valof"):
            if not any(x is z for y in alts(v) for z in walk(y)):
                continue
        if x.k == "keyof":
            out.add("key")
        elif x.k == "valof":
            out.add("value")
        elif x.k == "item" and is_const(x.a[1]) and x.a[0].k == "elem" and contains(x.a[0], lambda z: z.k == "mcall" and z.a[1] == "items"):
            out.add("key" if cval(x.a[1]) == 0 else "value")
        elif x.k == "mcall" and x.a[1] in ("keys", "values"):
            out.add(x.a[1][:-1])
        elif x.k == "call" and x.a[0] in ("list", "tuple") and x.a[1] and x.a[1][0].k == "attr" and x.a[1][0].a[1] == "times":
            out.add("key")
        elif x.k == "elem" and x.a[0].k == "attr" and x.a[0].a[1] == "times":
            out.add("key")
        elif x.k in ("pcall", "mcall") and cname(x)[0] == "get_units":
            out.add("key")
    return out


def _ppath(t):
    out = []
    while t.k == "attr":
        out.append(t.a[1])
        t = t.a[0]
    return ".".join([t.a[0]] + out[::-1]) if t.k == "param" else None


def _args_of(v):
    """{name: value for name, value in primitive.get_arguments()} without a filter"""
    for x in alts(v):
        s = strip_copy(x, ("dict", "list", "copy.copy"))
        if cname(s)[0] == "get_arguments":
            return True
        if x.k == "comp" and x.a[0] == "dict" and len(x.a[2]) == 1 and not x.a[2][0].a[1] and cname(strip_copy(x.a[2][0].a[0]))[0] == "get_arguments" and x.a[1].k == "tuple":
            k, w = x.a[1].a[1]
            if k.k == "item" and w.k == "item" and k.a[1] is const(0) and w.a[1] is const(1) and k.a[0] is w.a[0]:
                return True
    return False


def _attrs(m):
    import ast
    return [n for n in ast.walk(m.node) if isinstance(n, ast.Attribute)]


def _key_match(p, pd):
    """the searched key (type, module) and the key computed for each class are the same pair in the same order"""
    e = Engine(p, inline=lambda g: g.cls is pd and g.name != "__init__", inline_properties=False)
    f = pd.find_method("deserialize_primitive")
    e.run(f)
    pairs = set()

    def kindof(t):
        if t.k == "attr" and t.a[1] in ("__name__", "__qualname__"):
            return "type"
        if t.k == "attr" and t.a[1] == "__module__":
            return "module"
        if t.k == "item" and is_const(t.a[1]) and cval(t.a[1]) in ("type", "module"):
            return cval(t.a[1])
        return None
    for ev in e.events:
        for t in list(ev.d.values()) + [c for c, _ in ev.guards]:
            if not isinstance(t, T):
                continue
            for x in walk(t):
                if x.k == "tuple" and len(x.a[1]) == 2:
                    ks = tuple(kindof(y) for y in x.a[1])
                    if all(ks):
                        pairs.add(ks)
                elif x.k == "cmp" and x.a[0] in ("==", "!="):
                    a, b = kindof(x.a[1]), kindof(x.a[2])
                    if a and b and a != b:
                        return "a class's %s is compared with the saved %s" % (b, a)
    if len(pairs) > 1:
        return "primitive classes are looked up under keys %s" % sorted(pairs)
    return None


def the_list(ctx, p, fb):
    ser, des = p.cls("FeaturesSerializer"), p.cls("FeaturesDeserializer")
    # to_dictionary of a feature
    td = fb.find_method("to_dictionary")
    e = Engine(p, inline=lambda g: False, inline_properties=False)
    me = mk("inst", "FeatureBase", "self")
    d = norm(e.run(td, self_term=me))
    ctx.unit(td)
    ty, de, ar = look(d, const("type")), look(d, const("dependencies")), look(d, const("arguments"))
    ctx.ob("list", "type written", ty is not MISSING and ty.k == "attr" and ty.a[1] == "__name__" and contains(ty, lambda z: z is me), td.loc, "the kind of feature is not written")
    ctx.ob("list", "arguments written", ar is not MISSING and cname(ar)[0] == "get_arguments", td.loc, "the arguments are not written")
    okd = de is not MISSING and de.k == "comp" and not any(g.a[1] for g in de.a[2]) and receiver(de.a[1], "unique_name") is not None and \
        cname(strip_copy(de.a[2][0].a[0]))[0] == "get_dependencies"
    ctx.ob("list", "dependencies written", okd, td.loc, "the dependencies are not all written by name")
    # serializer
    e = Engine(p, inline=lambda g: g.cls is ser, inline_properties=False, max_depth=8)
    d = e.run(ser.find_method("to_dict"))
    ctx.unit(*ser.methods.values())
    nd = norm(d)
    fl = look(nd, const("feature_list"))
    okl = fl is not MISSING and fl.k == "comp" and not any(g.a[1] for g in fl.a[2]) and fl.a[0] == "list" and receiver(fl.a[1], "unique_name") is not None and \
        strip_copy(fl.a[2][0].a[0]).k == "attr"
    ctx.ob("list", "names in order", okl, ser.loc, "the list of features is not written in full and in order")
    es = look(nd, const("entityset"))
    ctx.ob("list", "entityset written", es is not MISSING and cname(es)[0] == "to_dictionary", ser.loc, "the entityset is not written")
    sets = [ev for ev in e.evs("setitem") if cname(norm(ev.value))[0] == "to_dictionary" and not (is_const(ev.key))]
    roots = set()
    for ev in sets:
        k, v = norm(ev.key), norm(ev.value)
        same = receiver(k, "unique_name") is receiver(v, "to_dictionary") and receiver(k, "unique_name") is not None
        ctx.ob("list", "stored under its own name", same, ev.loc, "a feature's definition is stored under another name")
        g = [(a, pl) for c, pol in ev.guards for a, pl in lits(norm(c), pol) if a.k != "inloop" and not is_const(a)]
        odd = [a for a, pl in g if not (a.k == "cmp" and a.a[0] == "in") and not (a.k in ("attr", "not") or a is NONE) and not (a.k == "cmp" and a.a[0] in ("is", "is not") and NONE in a.a)]
        ctx.ob("list", "stored always", not odd, ev.loc, "a definition is stored only when %s" % (odd and show(odd[0])[:80]))
        r = receiver(v, "to_dictionary")
        if r is not None:
            roots.add("deps" if contains(r, lambda z: cname(z)[0] == "get_dependencies") else "features")
    for ev in e.evs("call"):
        # recursion into the dependencies
        if any(c.cls is ser and any(s.name == c.name for s in ev.stack) for c in ev.d.get("callee") or []):
            if any(isinstance(v, T) and contains(v, lambda z: cname(z)[0] == "get_dependencies") for v in (ev.d.get("bound") or {}).values()):
                roots.add("deps")
    fdv = look(nd, const("feature_definitions"))
    if not sets and fdv is not MISSING:
        for x in walk(fdv):
            if cname(x)[0] == "to_dictionary":
                r = receiver(x, "to_dictionary")
                roots.add("deps" if contains(r, lambda z: cname(z)[0] == "get_dependencies") else "features")
    ctx.ob("list", "definitions of features", "features" in roots, ser.loc, "the definitions of the listed features are not stored")
    ctx.ob("list", "definitions of dependencies", "deps" in roots, ser.loc, "the definitions of dependencies are not stored")
    dc = [ev for ev in e.evs("call") if (ev.d.get("name") or "").split(".")[-1] == "get_dependencies" or any(c.name == "get_dependencies" for c in ev.d.get("callee") or [])]
    rec = any(c.name in ser.methods and any(s.name == c.name for s in ev.stack) for ev in e.evs("call") for c in ev.d.get("callee") or [])
    for ev in dc:
        dp = (ev.d.get("bound") or {}).get("deep")
        if dp is None:
            dp = dict(ev.kws).get("deep")
        ctx.ob("list", "dependencies of dependencies", rec or (dp is not None and is_const(dp) and cval(dp) is True), ev.loc, "definitions of indirect dependencies are not stored")
    # deserializer
    tl = des.find_method("to_list")
    e = Engine(p, inline=lambda g: g.cls is des or g.parent is not None, inline_properties=False, max_depth=4)
    r = norm(e.run(tl))
    ctx.unit(*des.methods.values())
    ok = r.k == "comp" and r.a[0] in ("list", "gen") and len(r.a[2]) == 1 and not r.a[2][0].a[1] and _is_key(r.a[2][0].a[0], "feature_list")
    ctx.ob("list", "restored in order", ok, tl.loc, "the loaded list is not every saved name in order: %s" % show(r)[:100])
    fcalls = [ev for ev in e.evs("call") if (ev.d.get("name") or "").split(".")[-1] == "from_dictionary" and len(ev.stack) <= 3]
    ctx.ob("list", "rebuilt by its kind", bool(fcalls), des.loc, "features are not rebuilt by their kind")
    for ev in fcalls:
        pos = list(ev.args)
        kw = dict(ev.kws)
        b = ev.d.get("bound") or {}
        vals = {}
        for i, q in enumerate(("arguments", "entityset", "dependencies", "primitives_deserializer")):
            v = kw.get(q) or b.get(q) or (pos[i] if i < len(pos) else None)
            vals[q] = norm(v) if v is not None else NONE
        ctx.ob("list", "passes arguments", _is_key(vals["arguments"], "arguments"), ev.loc, "the reader is given %s instead of the saved arguments" % show(vals["arguments"])[:60])
        dd = vals["dependencies"]
        okd = contains(dd, lambda z: _is_key(z, "dependencies")) or contains(dd, lambda z: z.k == "comp")
        if dd.k == "comp":
            okd = not dd.a[2][0].a[1] and _is_key(dd.a[2][0].a[0], "dependencies")
            if dd.a[1].k == "tuple":
                k = dd.a[1].a[1][0]
                okd = okd and k.k == "elem"
        ctx.ob("list", "passes dependencies", okd, ev.loc, "the reader is given %s as dependencies" % show(dd)[:80])
    # memo under the requested name
    for ev in e.evs("setitem"):
        if contains(ev.value, lambda z: cname(z)[0] == "from_dictionary"):
            ok = ev.key.k == "param" or ev.key.k == "elem"
            ctx.ob("list", "remembered under its name", ok, ev.loc, "a loaded feature is remembered under %s" % show(ev.key)[:60])
    # construction and the three ways of writing
    init = des.find_method("__init__")
    e = Engine(p, inline=lambda g: False, inline_properties=False)
    e.run(init)
    ok = any(ev.attr == "entityset" and contains(ev.value, lambda z: _is_key(z, "entityset")) for ev in e.evs("setattr"))
    ctx.ob("list", "entityset restored", ok, init.loc, "features are not loaded against the saved entityset")
    sv = ser.find_method("save")
    e = Engine(p, inline=lambda g: g.cls is ser and g.name == "save", inline_properties=False)
    e.run(sv)
    for ev in e.evs("call"):
        nm = (ev.d.get("name") or "")
        tgt = [c.name for c in ev.d.get("callee") or []]
        if nm in ("json.dump", "json.dumps") or "use_smartopen_features" in tgt:
            vals = list(ev.args) + [v for _, v in ev.kws] + list((ev.d.get("bound") or {}).values())
            ok = any(contains(v, lambda z: cname(z)[0] in ("to_dict",)) for v in vals if isinstance(v, T))
            ctx.ob("list", "written by %s" % (tgt or [nm])[0], ok, ev.loc, "%s does not write the features" % nm)
    ld = des.find_method("load")
    e = Engine(p, inline=lambda g: False, inline_properties=False)
    e.run(ld, args={"cls": mk("cls", des)})
    news = [ev for ev in e.evs("new") if ev.cls is des]
    got = set()
    for ev in news:
        for x in alts(ev.bound.get("features_dict", NONE)):
            got.add(x.a[0] if x.k == "call" else (cname(x)[0] or x.k))
    ctx.ob("list", "read", bool(news) and got <= {"json.load", "json.loads", "use_smartopen_features"}, ld.loc, "features are loaded from %s" % sorted(got))


def _is_key(t, key):
    t = strip_copy(t)
    return (t.k == "item" and t.a[1] is const(key)) or (t.k == "mcall" and t.a[1] == "get" and t.a[2] and t.a[2][0] is const(key))
