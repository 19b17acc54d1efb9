"""For every built-in primitive: each constructor argument is stored unconditionally under its own name (as given or
normalised idempotently) and never reassigned; on every declared backend the computation depends on it (through itself
or an attribute derived from it in the constructor).  get_arguments lists every standard constructor argument with the
stored value and leaves one out only when it equals its default; primitives made from functions record their keyword
arguments the same way."""
import ast
from ..flow import Engine, mk, alts, is_const, cval, NONE, const, contains, walk, T, show, identity
from ..prims import primitives, compatibility, computation, reads, kind
from ..util import lits, exempt

TECHNIQUE = "value-flow from constructor arguments to stored attributes and to the computation of every backend"
LEVEL_NOTE = "That two recorded argument lists printing alike mean the same value is not decided; whether a use is numerically right is C40."
MIN_INSTANCES = {"kept": 20, "used": 20, "recorded": 4}
IDEMPOTENT = {"lower", "upper", "strip", "title", "casefold"}


def same_value(v, q):
    """the given argument, or an idempotent normalisation of it"""
    if v.k == "param":
        return v.a[0] == q
    if v.k == "mcall" and v.a[1] in IDEMPOTENT and not v.a[2] and not v.a[3]:
        return same_value(v.a[0], q)
    if v.k == "mcall" and v.a[1] == "copy" and not v.a[2]:
        return same_value(v.a[0], q)
    if v.k == "call" and v.a[0] in ("list", "str", "int", "float", "bool", "copy.copy", "copy.deepcopy", "tuple") and len(v.a[1]) == 1:
        return same_value(v.a[1][0], q)
    if v.k == "bool" and v.a[0] == "or" and len(v.a[1]) == 2:
        o = v.a[1][1]
        falsy = is_const(o) and not cval(o) or o.k in ("list", "dict", "set", "tuple") and not o.a[1] or o.k == "call" and not o.a[1] and not o.a[2]
        return same_value(v.a[1][0], q) and falsy
    if v.k == "ite":
        gp = {x.a[0] for x in walk(v.a[0]) if x.k == "param"}
        oks = [same_value(x, q) for x in v.a[1:3]]
        if all(oks):
            return True
        if not any(oks) or gp != {q}:
            return False
        c, other = v.a[0], v.a[2] if oks[0] else v.a[1]
        # default filled in when nothing was given
        none = c.k == "cmp" and c.a[0] in ("is", "==") and NONE in c.a[1:]
        return (none and not oks[0] or c.k == "param" and oks[0] or c.k == "not" and not oks[0]) and not any(x.k == "param" for x in walk(other))
    return False


def check(ctx):
    p = ctx.p
    prims = primitives(p)
    ctx.need(len(prims) > 30, "built-in primitives not found")
    declared = set()
    for b in ("PrimitiveBase", "AggregationPrimitive", "TransformPrimitive"):
        declared |= set(p.cls(b).attrs)
    for c in prims:
        init = c.find_method("__init__")
        g = c.find_method("get_function")
        if init is None or init.cls.name == "PrimitiveBase":
            continue
        ctx.unit(init, g)
        a = init.node.args
        qs = [x.arg for x in a.posonlyargs + a.args][1:]
        for x in [a.vararg, a.kwarg] + list(a.kwonlyargs):
            if x is not None:
                ctx.ob("kept", "%s(%s) recordable" % (c.name, x.arg), False, init.loc,
                       "the argument %s of %s is not a standard argument, so it is never recorded" % (x.arg, c.name))
        e = Engine(p, inline=lambda f: f.name != "__call__", inline_properties=False, max_depth=5)
        me = mk("inst", c.name, "self")
        e.run(init, self_term=me)
        derived = {q: {q} for q in qs}
        last = {}
        for ev in e.evs("setattr"):
            if identity(ev.recv) is not me:
                continue
            for q in qs:
                if contains(ev.value, lambda z: z.k == "param" and z.a[0] == q) or any(contains(gd, lambda z: z.k == "param" and z.a[0] == q) for gd, _ in ev.guards):
                    derived[q].add(ev.attr)
            last.setdefault(ev.attr, []).append(ev)
        # attributes derived from stored attributes
        for attr, evs in list(last.items()):
            for ev in evs:
                for x in walk(ev.value):
                    if x.k == "attr" and identity(x.a[0]) is me:
                        for q in qs:
                            if x.a[1] in derived[q]:
                                derived[q].add(attr)
        for q in qs:
            evs = last.get(q, [])
            ctx.ob("kept", "%s(%s)" % (c.name, q), bool(evs), init.loc, "%s does not keep its argument %s" % (c.name, q))
            for ev in evs:
                gs = [x for gd, pol in ev.guards for x, pl in lits(gd, pol) if x.k != "inloop" and not is_const(x)]
                ok = same_value(ev.value, q)
                if gs and ok:
                    # other stores must cover the remaining cases
                    ok = len(evs) > 1 or _only_rejects(init, ev)
                elif gs and not ok and len(evs) > 1:
                    ok = not contains(ev.value, lambda z: z.k == "param") and any(same_value(o.value, q) for o in evs)
                ctx.ob("kept", "%s(%s) as given" % (c.name, q), ok, ev.loc, "%s stores %s under %s" % (c.name, show(ev.value)[:80], q))
            for m in c.mro():
                for f in list(m.methods.values()):
                    if f.name == "__init__":
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr == q and isinstance(n.value, ast.Name) and n.value.id == "self":
                            ctx.ob("kept", "%s(%s) not changed" % (c.name, q), False, "%s:%d" % (f.module.rel, n.lineno), "%s.%s changes the recorded argument %s" % (c.name, f.name, q))
            if q in declared:
                continue
            libs = compatibility(p, c) or ["PANDAS"]
            for lib in libs:
                if kind(c) == "transform" and lib != "PANDAS" and len(g.all_params()) < 2:
                    continue
                eng, r = computation(p, c, lib)
                if eng is None:
                    continue
                rd = reads(c, eng, r, p)
                ctx.ob("used", "%s(%s) on %s" % (c.name, q, lib), bool(rd & derived[q]), g.loc,
                       "the computation of %s on %s does not depend on its argument %s" % (c.name, lib, q))
    recorded(ctx, p)


def _only_rejects(init, ev):
    """every other way out of the constructor raises"""
    return all(not isinstance(n, ast.Return) for n in ast.walk(init.node)) and any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(init.node))


def dropped_ok(guards, extra=()):
    """an entry is left out only when it equals its default, or is no standard argument"""
    def pred(a, pol):
        if a.k == "inloop":
            return True
        if a.k == "cmp" and a.a[0] in ("==", "is") and pol:
            return True
        if contains(a, lambda z: z.k == "attr" and z.a[1] == "kind"):
            return True
        if a.k == "call" and a.a[0] == "hasattr":
            return True
        return False
    for c, pol in guards:
        if c.k == "inloop" or is_const(c):
            continue
        if not exempt(c, not pol, pred):
            return c
    return None


def recorded(ctx, p):
    base = p.cls("PrimitiveBase")
    for c in [base] + sorted(p.subclasses("PrimitiveBase"), key=lambda c: c.qual):
        f = c.methods.get("get_arguments")
        if f is None:
            continue
        ctx.unit(f)
        e = Engine(p, inline=lambda g: g.cls is c or g.module is f.module and g.cls is None, inline_properties=False)
        r = e.run(f)
        listing(ctx, e, r, f, c.name)
    # primitives made from functions
    made = [f for f in p.all_functions() if f.name in ("make_agg_primitive", "make_trans_primitive")]
    ctx.need(len(made) == 2, "make_agg_primitive / make_trans_primitive not found")
    for f in made:
        ctx.unit(f)
        e = Engine(p, inline=lambda g: g.parent is not None and g.module.name.startswith("featuretools.primitives.base") or g.cls is None and g.module.name == f.module.name and g is not f,
                   inline_properties=False)
        e.run(f)
        inits = [ev for ev in e.evs("setattr") if ev.attr == "__init__"]
        gas = [ev for ev in e.evs("setattr") if ev.attr == "get_arguments"]
        for ev in inits:
            cl = [x.a[1] for x in alts(ev.value) if x.k == "closure"] or [x.a[0] for x in alts(ev.value) if x.k == "func"]
            if not cl:
                continue
            kept = {n.attr for k in cl for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            varkw = any(k.node.args.kwarg for k in cl)
            if not varkw:
                continue
            ok = False
            for ga in gas:
                gcl = [x.a[1] for x in alts(ga.value) if x.k == "closure"] + [x.a[0] for x in alts(ga.value) if x.k == "func"]
                for k in gcl:
                    rd = {n.attr for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
                    if rd & kept and set(ga.guards) <= set(ev.guards):
                        ok = True
                        ek = Engine(p, inline=lambda g: g.module.name.startswith("featuretools.primitives.base"), inline_properties=False)
                        rr = ek.run(k)
                        listing(ctx, ek, rr, k, f.name)
            ctx.ob("recorded", "%s keyword arguments" % f.name, ok, ev.loc, "a primitive made by %s does not record its keyword arguments" % f.name)
            for k in cl:
                stores = {n.attr: n for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                upd = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and
                          any(isinstance(z, ast.Name) and z.id == k.node.args.kwarg.arg for z in ast.walk(n)) for n in ast.walk(k.node)) or \
                    any(isinstance(n, ast.Dict) and any(isinstance(v, ast.Name) and v.id == k.node.args.kwarg.arg for kk, v in zip(n.keys, n.values) if kk is None) for n in ast.walk(k.node)) or \
                    any(isinstance(n, ast.Call) and any(kw.arg is None and isinstance(kw.value, ast.Name) and kw.value.id == k.node.args.kwarg.arg for kw in n.keywords) for n in ast.walk(k.node))
                ctx.ob("recorded", "%s given arguments" % f.name, upd, ev.loc, "the keyword arguments given to a primitive made by %s are not used" % f.name)


def listing(ctx, e, r, f, who):
    """the (name, value) pairs put in the list"""
    n = 0
    from ..norm import rewrite, canon
    for ev in e.evs("call"):
        if ev.d.get("name") in ("append", "add", "insert") and ev.args:
            t = ev.args[-1]
            if t.k == "tuple" and len(t.a[1]) == 2:
                n += 1
                d = dropped_ok(ev.guards)
                ctx.ob("recorded", "%s entry" % who, d is None, ev.loc, "an argument is left out of the record when not %s" % (d is not None and show(d)[:100]))
                k, v = t.a[1]
                ok = v.k in ("valof",) or v.k == "item" and k.k == "item" and v.a[0] is k.a[0] or v.k == "call" and v.a[0] == "getattr" and v.a[1][1] is k or \
                    v.k == "item" and v.a[1] is k
                ctx.ob("recorded", "%s value" % who, ok, ev.loc, "the recorded value of an argument is %s" % show(v)[:80])
    rr = rewrite(r, canon)
    if not n:
        for x in walk(rr):
            if x.k == "comp" and x.a[1].k == "tuple" and len(x.a[1].a[1]) == 2:
                n += 1
                cs = [c for g in x.a[2] for c in g.a[1]]
                d = dropped_ok([(c, True) for c in cs])
                ctx.ob("recorded", "%s entry" % who, d is None, f.loc, "an argument is left out of the record when not %s" % (d is not None and show(d)[:100]))
                k, v = x.a[1].a[1]
                ok = v.k in ("valof",) or v.k == "item" and k.k == "item" and v.a[0] is k.a[0] or v.k == "call" and v.a[0] == "getattr" and v.a[1][1] is k or v.k == "attr" \
                    or v.k == "item" and v.a[1] is k
                ctx.ob("recorded", "%s value" % who, ok, f.loc, "the recorded value of an argument is %s" % show(v)[:80])
    ctx.ob("recorded", "%s lists arguments" % who, n > 0 or contains(rr, lambda z: z.k == "mcall" and z.a[1] == "items"), f.loc, "no arguments are recorded")
    srcs = [x for ev in e.events for c, pol in ev.guards if c.k == "inloop" for x in walk(c.a[0])] + list(walk(rr))
    if who == "PrimitiveBase":
        ok = any(x.k in ("call", "mcall") and (x.a[0] if isinstance(x.a[0], str) else x.a[1] if isinstance(x.a[1], str) else "").split(".")[-1] in ("signature", "getfullargspec", "Signature") for x in srcs) \
            or any("signature" in str(ev.d.get("name")) or "getfullargspec" in str(ev.d.get("name")) for ev in e.evs("call"))
        ctx.ob("recorded", "from the constructor's signature", ok, f.loc, "arguments are not taken from the constructor's signature")
