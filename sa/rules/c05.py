"""The entity set caches a description of itself; the property that hands it out (EntitySet.metadata) and the attribute
it caches in are found by reading it.  For every function of the package: each place that changes the state of an
EntitySet, Entity or Variable (attribute stores, container changes, calls to functions that do so) must be covered by a
reset of that entity set's cache which is executed whenever the change is (guards and loops of the reset are implied
by those of the change; early returns add guards).  Private helpers pass the duty on to their callers."""
from ..effects import Effects
from ..flow import mk, alts, is_const, cval, NONE  # noqa
from ..util import *  # noqa

TECHNIQUE = "typestate over mutation summaries (change must be followed by cache reset, guard-inclusion, inter-procedural)"
LEVEL_NOTE = "The changed state is every instance attribute of EntitySet, Entity and Variable classes; changes made in place inside a dataframe obtained by a user are outside any method and out of reach."
MIN_INSTANCES = {"reset-after-change": 15}

# bookkeeping that no description mentions
NOT_DESCRIBED = {"_verbose"}


def state_attrs(p, cls):
    out = set()
    for c in [p.cls(cls)] + list(p.subclasses(cls)):
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and m.params() and n.value.id == m.params()[0]:
                    out.add(n.attr)
        for s in c.setters:
            out.add(s)
    return out


def roots(t):
    """base objects a receiver is reached from: (kind, name)"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k in ("ite",):
            st += [x.a[1], x.a[2]]
        elif x.k == "phi":
            st += list(x.a[0])
        elif x.k in ("attr", "item", "elem", "part", "valof", "star"):
            st.append(x.a[0])
        elif x.k == "upd":
            st.append(x.a[1])
        elif x.k == "mcall" and not (x.a[1] in ("copy", "astype", "drop", "sort_values", "to_frame", "reindex")):
            st.append(x.a[0])
        elif x.k == "pcall":
            st += [v for _, v in x.a[1][:1]]
        elif x.k == "call" and x.a[0] in ("list", "sorted", "iter", "next", "enumerate", "zip", "reversed", "getattr") and x.a[1]:
            st.append(x.a[1][0])
        elif x.k == "inst":
            out.add(("self", x.a[1:]))
        elif x.k == "param":
            out.add(("param", x.a[0]))
        elif x.k in ("list", "tuple"):
            st += list(x.a[1])
        elif x.k == "bound":
            st.append(x.a[1])
        else:
            out.add(("local", x))
    return out


def same_set_root(f, r):
    """a parameter that is part of the same entity set as self, or self"""
    first = f.params()[0] if f.params() else None
    if r[0] == "self" or (r[0] == "param" and r[1] == first and f.cls is not None):
        return "self"
    if r[0] == "param":
        if f.cls is not None and r[1] in ("relationship", "relationships", "entity", "entities", "variable", "variables"):
            return "self"
        return r[1]
    return None


def owners(f, t):
    return {same_set_root(f, r) for r in roots(t)} - {None}


class Site(object):
    def __init__(self, ev, own, what):
        self.guards = [x for c, pol in ev.guards for x in lits(c, pol)]
        self.loops = list(ev.loops)
        self.own, self.what, self.loc, self.stack = own, what, ev.loc, ev.stack


def noop_guard(c, pol):
    """the false side says the stored value already is the new one"""
    return c.k == "cmp" and (c.a[0] in ("!=", "is not") and pol or c.a[0] in ("==", "is") and not pol) and any(
        x.k == "attr" for x in c.a[1:])


class Resets(object):
    def __init__(self, ctx, E, cache, fields, objs):
        self.E, self.cache, self.fields, self.objs = E, cache, fields, objs
        self.always = {}     # node -> set of owner roots always reset
        self.dirty = {}      # node -> {root: (loc, what)}
        for rnd in range(8):
            ch = False
            for f in E.funcs:
                d, a = self.summary(f)
                if d != self.dirty.get(f.node) or a != self.always.get(f.node):
                    ch = True
                self.dirty[f.node], self.always[f.node] = d, a
            if not ch:
                break

    def sites(self, f):
        W, R = [], []
        e = self.E.eng[f.node]
        for ev in e.events:
            k = ev.kind
            if k == "setattr":
                if ev.attr == self.cache:
                    R.append(Site(ev, owners(f, ev.recv), "reset"))
                elif ev.attr in self.fields and self.objish(f, ev.recv):
                    own = owners(f, ev.recv)
                    setters = [c.setters[ev.attr] for c in self.objs if ev.attr in c.setters]
                    if setters:
                        if all(self.always.get(s.node) for s in setters):
                            R.append(Site(ev, own, "setter"))
                        if any(self.dirty.get(s.node) for s in setters) or not setters:
                            W.append(Site(ev, own, "%s assigned" % ev.attr))
                    else:
                        W.append(Site(ev, own, "%s assigned" % ev.attr))
            elif k in ("setitem", "delitem") and self.field_of(f, ev.recv):
                W.append(Site(ev, owners(f, ev.recv), "item of %s changed" % self.field_of(f, ev.recv)))
            elif k == "augassign" and self.field_of(f, ev.target):
                W.append(Site(ev, owners(f, ev.target), "%s changed" % self.field_of(f, ev.target)))
            elif k == "call":
                cs = ev.d.get("callee") or []
                recv = ev.d.get("recv")
                b = ev.d.get("bound")
                if cs and not ev.d.get("inlined"):
                    for i, g in enumerate(cs):
                        bb = b if not ev.d.get("virtual") else e.bind(g, [recv] + list(ev.args) if not g.is_staticmethod else list(ev.args), ev.kws)
                        if bb is None:
                            continue
                        for q in self.roots_in(g, self.dirty.get(g.node, {}), bb):
                            W.append(Site(ev, owners(f, bb[q[0]]), "%s: %s" % (g.name, q[1][1])))
                    if all(self.always.get(g.node) for g in cs):
                        for g in cs[:1]:
                            bb = b if not ev.d.get("virtual") else e.bind(g, [recv] + list(ev.args) if not g.is_staticmethod else list(ev.args), ev.kws)
                            for q in self.always.get(g.node, ()):
                                q = g.params()[0] if q == "self" and g.params() else q
                                if bb and q in bb:
                                    R.append(Site(ev, owners(f, bb[q]), "reset by %s" % g.name))
                elif not cs and recv is not None and ev.d.get("name"):
                    from ..effects import MUT
                    kw = dict(ev.kws)
                    inpl = "inplace" in kw and not (is_const(kw["inplace"]) and not cval(kw["inplace"]))
                    if (ev.name in MUT or inpl) and self.field_of(f, recv):
                        W.append(Site(ev, owners(f, recv), "%s.%s()" % (self.field_of(f, recv), ev.name)))
        return W, R

    def roots_in(self, g, d, bb):
        first = g.params()[0] if g.params() else None
        out = []
        for r, v in d.items():
            q = first if r == "self" else r
            if q in bb:
                out.append((q, v))
        return out

    def objish(self, f, t):
        """may the receiver be an EntitySet, Entity or Variable?"""
        e = self.E.eng[f.node]
        for x in alts(t):
            if x.k == "inst":
                c = f.cls
                return c is not None and any(c is o for o in self.objs)
            if x.k == "new":
                return False
        return f.module.name.startswith("featuretools.entityset") or f.module.name.startswith("featuretools.variable_types")

    def field_of(self, f, t):
        """the object's state attribute that is the changed container: self.variables, entity.df['x'], es.entity_dict"""
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "attr":
                if x.a[1] in self.fields and self.objish(f, x.a[0]):
                    return x.a[1]
                if x.a[1] in ("loc", "iloc", "at", "iat", "values", "index", "columns"):
                    st.append(x.a[0])
            elif x.k == "item" and is_const(x.a[1]):
                st.append(x.a[0])
            elif x.k == "upd":
                st.append(x.a[1])
            elif x.k == "ite":
                st += [x.a[1], x.a[2]]
            elif x.k == "phi":
                st += list(x.a[0])
        return None

    def summary(self, f):
        W, R = self.sites(f)
        e = self.E.eng[f.node]
        raises = []
        for ev in e.events:
            if ev.kind in ("raise", "assert"):
                ls = [x for c, pol in ev.guards for x in lits(c, pol)]
                if ev.kind == "assert":
                    ls = [(x, not pol) for x, pol in lits(ev.d.get("cond"), True)] if ev.d.get("cond") is not None else []
                raises += ls

        def free(c, pol):
            return (c, not pol) in raises or noop_guard(c, pol)

        def covered(w, extra, depth):
            g = set(w.guards) | extra
            missing = []
            for r in R:
                if not (w.own & r.own) and w.own:
                    continue
                if r.loops and r.loops != w.loops[:len(r.loops)]:
                    continue
                miss = [x for x in r.guards if x not in g and not free(*x)]
                if not miss:
                    return True
                missing.append(miss)
            if depth:
                for miss in missing:
                    c, pol = miss[0]
                    if covered(w, extra | {(c, pol)}, depth - 1) and covered(w, extra | {(c, not pol)}, depth - 1):
                        return True
            return False
        dirty = {}
        for w in W:
            if not covered(w, set(), 2):
                for o in w.own:
                    dirty.setdefault(o, (w.loc, w.what))
        always = set()
        for o in {o for r in R for o in r.own}:
            class A(object):
                guards, loops, own = [], [], {o}
            if covered(A, set(), 2):
                always.add(o)
        return dirty, frozenset(always)


def cache_attr(p):
    """the attribute the metadata property caches in"""
    m = p.cls("EntitySet").methods.get("metadata")
    if m is None:
        return None
    c = [n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == m.params()[0]]
    st = [n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)]
    rt = [n.value.attr for n in ast.walk(m.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute)]
    for x in st + rt:
        if x in c:
            return x
    return None


def check(ctx):
    p = ctx.p
    cache = cache_attr(p)
    if cache is None:
        # nothing is cached: every read describes the current set
        m = p.cls("EntitySet").methods.get("metadata")
        ctx.need(m is not None, "EntitySet.metadata not found")
        ctx.ob("no-cache", "EntitySet.metadata", True, m.loc)
    E = Effects(p)
    objs = [c for n in ("EntitySet", "Entity", "Variable") for c in [p.cls(n)] + list(p.subclasses(n))]
    fields = set()
    for n in ("EntitySet", "Entity", "Variable"):
        fields |= state_attrs(p, n)
    fields -= {cache} | NOT_DESCRIBED
    ctx.stats["state attributes"] = sorted(fields)
    S = Resets(ctx, E, cache, fields, objs)
    n = 0
    for f in E.funcs:
        W, R = S.sites(f)
        if not W and not R:
            continue
        ctx.unit(f)
        d = dict(S.dirty[f.node])
        public = f.parent is None and (not f.name.startswith("_") or f.name in ("__init__", "__setitem__", "__delitem__", "__setstate__"))
        if not public:
            continue
        if f.name == "__init__" and f.cls is not None and f.cls.name != "EntitySet":
            continue          # a new object is not part of any set yet
        bad = d
        ctx.ob("reset-after-change", f.qual, not bad, f.loc,
               "; ".join("%s (%s) at %s is not followed by a reset of %s on every path" % (v[1], k, v[0], cache) for k, v in bad.items()))
    # the metadata property itself: recomputed whenever nothing is cached, and from the set itself
    m = p.cls("EntitySet").methods["metadata"]
    e = E.eng[m.node]
    ctx.unit(m)
    stores = [ev for ev in e.evs("setattr") if ev.attr == cache]
    for ev in stores:
        ls = [x for c, pol in ev.guards for x in lits(c, pol)]
        ok = all(mentions(c, cache) for c, _ in ls)
        ctx.ob("recompute", m.qual, ok, ev.loc, "the description is only rebuilt under a condition other than being absent")
        good = contains(ev.value, lambda z: z.k == "inst" or (z.k == "param"))
        ctx.ob("recompute-source", m.qual, good, ev.loc, "the rebuilt description does not come from the entity set")
    # reset really clears
    for f in E.funcs:
        if f.node is m.node:
            continue
        for ev in E.eng[f.node].evs("setattr"):
            if ev.attr == cache:
                ctx.ob("reset-clears", f.qual, ev.value is NONE, ev.loc, "the cache is set to something other than empty")


def mentions(c, attr):
    return contains(c, lambda z: z.k == "attr" and z.a[1] == attr)
