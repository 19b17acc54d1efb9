"""Inter-procedural mutation/alias summaries.

Every function is evaluated once on its own (nested functions inlined).  From its events we read which objects it
changes in place; an object is named by an *access path* from a parameter (``cutoff_time``, ``options[]``,
``entityset.entity_dict[]``).  Summaries (mutated paths, returned paths) are propagated over the call graph to a
fixpoint: a callee's path is re-rooted through the actual argument, so a defensive copy anywhere on the way cuts it."""
from .flow import Engine, alts, identity, mk, is_const, cval, NONE, T, _MUT_METHODS, const, contains  # noqa
from .util import lits, gated, Conds, Blowup
from .index import AnalysisBroken  # noqa

MUT = set(_MUT_METHODS) | {"fill", "itemset", "resize", "setflags", "put", "appendleft", "popleft", "set_names!"}
PASS_METHODS = {"get", "pop", "setdefault", "values", "view", "squeeze", "__getitem__"}   # may hand out an element
VIEW_ATTRS = {"loc", "iloc", "at", "iat", "values", "T"}
MAXPATH = 3
LISTY = ("list", "comp", "set", "dict", "tuple")


def cut(p):
    return p[:MAXPATH] if len(p) <= MAXPATH else p[:MAXPATH - 1] + ("*",)


class Effects(object):
    def __init__(self, p, functions=None, types=None):
        self.p = p
        self.funcs = functions or [f for f in p.all_functions()]
        self.eng = {}
        self.mut = {}      # node -> {(param, path): (loc, how)}
        self.ret = {}      # node -> {(param, path)}
        self.ctor = {}     # class -> {attr: (param, path)}
        self.by_node = {f.node: f for f in self.funcs}
        for f in self.funcs:
            e = Engine(p, inline=lambda g: g.parent is not None, budget=80000, inline_properties=False, max_depth=5,
                       types={"entityset": "EntitySet", "entity": "Entity"})
            e.result = e.run(f)
            self.eng[f.node] = e
            self.mut[f.node] = {}
            self.ret[f.node] = set()
        self._lits = []
        self._closure_ctor()
        self._fix()

    # ---- ownership ------------------------------------------------------
    def _shallow(self, f, name):
        a = f.node.args
        return (a.vararg and a.vararg.arg == name) or (a.kwarg and a.kwarg.arg == name)

    def own(self, f, t, seen=None):
        """paths of the caller's objects the term may denote"""
        seen = seen if seen is not None else set()
        out = set()
        for x in (alts(t) if not contains_inplace(t) else alts(drop_inplace(t))):
            if x in seen:
                continue
            seen.add(x)
            out |= self._own1(f, x, seen)
        return out

    def _own1(self, f, x, seen):
        k = x.k
        if k == "param":
            return set() if self._shallow(f, x.a[0]) else {(x.a[0], ())}
        if k == "inst" and x.a[1:] == ("self",):
            return {(f.params()[0] if f.params() else "self", ())}
        if k == "upd":
            return self.own(f, x.a[1], seen)
        if k == "attr":
            return self.reach(f, x.a[0], (x.a[1],), seen)
        if k == "item":
            b, key = x.a
            if b.k == "attr" and b.a[1] in ("loc", "iloc"):
                return set()
            if all(y.k in ("list", "comp", "cmp", "bin", "slice", "tuple", "un", "mcall", "call") and
                   not (y.k == "mcall" and y.a[1] in ("get_name", "format", "pop", "get")) and not (y.k == "call" and y.a[0] not in ("list", "sorted", "set"))
                   for y in bases(key)):
                return set()        # mask / list selection: a new frame or list
            return self.reach(f, b, ("[]",), seen)
        if k in ("elem", "part", "valof"):
            return self.reach(f, x.a[0], ("[]",), seen)
        if k == "bool":
            out = set()
            for y in x.a[1]:
                out |= self.own(f, y, seen)
            return out
        if k == "star":
            return self.own(f, x.a[0], seen)
        if k == "mcall":
            if x.a[1] in PASS_METHODS:
                return self.reach(f, x.a[0], ("[]",), seen)
            return set()
        if k == "call":
            if x.a[0] in ("next", "max", "min") and len(x.a[1]) == 1:
                return self.reach(f, x.a[1][0], ("[]",), seen)
            if x.a[0] == "getattr" and len(x.a[1]) >= 2:
                return self.reach(f, x.a[1][0], ("?",), seen)
            return set()
        if k == "pcall":
            return self.through_ret(f, x.a[0], dict(x.a[1]), seen)
        return set()

    def reach(self, f, t, path, seen=None):
        """paths of the caller's objects found by following path from the object t denotes"""
        seen = set(seen or ())
        out = set()
        for x in (alts(t) if not contains_inplace(t) else alts(drop_inplace(t))):
            o = self.own(f, x, set(seen))
            if o:
                out |= {(p, cut(q + path)) for p, q in o}
            if not path:
                continue
            i = x
            while i.k == "upd":
                i = i.a[1]
            if path[0] == "[]" or path[0] == "*":
                inner = []
                if i.k in ("list", "tuple", "set"):
                    inner = [y.a[0] if y.k == "star" else y for y in i.a[1]]
                elif i.k == "dict":
                    inner = [v for _, v in i.a[1]]
                elif i.k == "comp":
                    inner = [i.a[1].a[1][1] if i.a[0] == "dict" and i.a[1].k == "tuple" else i.a[1]]
                elif i.k == "call" and i.a[0] in ("list", "tuple", "set", "sorted", "dict", "copy.copy", "iter", "reversed", "enumerate", "zip", "collections.OrderedDict") and i.a[1]:
                    for y in i.a[1]:
                        if y in seen:
                            continue
                        out |= self.reach(f, y, path, seen | {x})
                elif i.k == "mcall" and i.a[1] in ("copy", "items", "keys", "values", "union", "difference", "intersection"):
                    # only containers hand on their elements; a data frame copy is deep
                    if i.a[1] != "copy" or _containerish(i.a[0]):
                        out |= self.reach(f, i.a[0], path, seen | {x})
                elif i.k == "bin" and i.a[0] in "+|":
                    for y in (i.a[1], i.a[2]):
                        out |= self.reach(f, y, path, seen | {x})
                elif i.k == "param" and self._shallow(f, i.a[0]):
                    out |= {(i.a[0], cut(path))}
                for y in inner:
                    if y not in seen:
                        out |= self.reach(f, y, path[1:], seen | {x})
                # values put in later
                u = x
                while u.k == "upd":
                    if u.a[0] in ("append", "add", "setitem", "insert", "extend", "update") and u.a[2]:
                        y = u.a[2][-1]
                        if u.a[0] in ("extend", "update"):
                            out |= self.reach(f, y, path, seen | {x})
                        elif y not in seen:
                            out |= self.reach(f, y, path[1:], seen | {x})
                    u = u.a[1]
            elif i.k == "new":
                al = self.ctor.get(i.a[0].qual, {})
                if path[0] in al:
                    init = i.a[0].find_method("__init__")
                    q, pp = al[path[0]]
                    b = self.eng[f.node].bind(init, [i] + list(i.a[2]), i.a[3])
                    if b and q in b and b[q] is not i:
                        out |= self.reach(f, b[q], cut(pp + path[1:]), seen | {x})
        return out

    def through_ret(self, f, g, bound, seen):
        out = set()
        for q, path, conds in self.ret.get(g.node, ()):
            if q in bound and not self._contra(mk("pcall", g, tuple((n, bound[n]) for n in g.all_params() if n in bound)), bound[q], conds):
                out |= self.reach(f, bound[q], path, seen)
        return out

    def _contra(self, call, arg, conds):
        """the guards in force say the returned object has a type it does not have when it is the argument itself"""
        for c, pol in self._lits:
            if c.k == "call" and c.a[0] == "isinstance" and len(c.a[1]) == 2:
                for cls, p2 in conds:
                    if c.a[1][1] is cls and p2 != pol and (c.a[1][0] is call or call in alts(c.a[1][0])):
                        return True
        return False

    def _closure_ctor(self):
        for c in {c for cs in self.p.classes.values() for c in cs}:
            init = c.methods.get("__init__")
            if init is None or init.node not in self.eng:
                continue
            e = self.eng[init.node]
            d = self.ctor.setdefault(c.qual, {})
            for ev in e.evs("setattr"):
                if ev.recv.k == "inst":
                    for x in alts(ev.value):
                        if x.k == "param" and not self._shallow(init, x.a[0]):
                            d[ev.attr] = (x.a[0], ())
        for c in {c for cs in self.p.classes.values() for c in cs}:
            d = dict(self.ctor.get(c.qual, {}))
            if "__init__" not in c.methods:
                for b in c.mro()[1:]:
                    if "__init__" in b.methods:
                        d = dict(self.ctor.get(b.qual, {}))
                        break
            self.ctor[c.qual] = d

    # ---- fixpoint ---------------------------------------------------------
    def _fix(self):
        for rnd in range(8):
            changed = False
            for f in self.funcs:
                m, r = self._summary(f)
                for k, v in m.items():
                    if k not in self.mut[f.node]:
                        self.mut[f.node][k] = v
                        changed = True
                if not r <= self.ret[f.node]:
                    self.ret[f.node] |= r
                    changed = True
            if not changed:
                return

    def _summary(self, f):
        e = self.eng[f.node]
        m = {}

        def add(t, how, ev, path=()):
            if any(c.k == "param" and c.a[0] == "inplace" and pl for c, pl in self._lits):
                return
            for k in self.reach(f, t, path) if path else self.own(f, t):
                m.setdefault(k, (ev.loc, how))
        for ev in e.events:
            k = ev.kind
            self._lits = [x for c, pol in ev.guards for x in lits(c, pol)]
            if k in ("setitem", "delitem"):
                add(ev.recv, "item %s" % ("deleted" if k == "delitem" else "assigned"), ev)
            elif k in ("setattr", "delattr"):
                if lazy_cache(ev):
                    continue
                if ev.recv.k == "param" or ev.recv.k != "cls":
                    for q in self.reach(f, ev.recv, (ev.attr,)):
                        if q[1] and q[1][-1] == ev.attr or len(q[1]) == MAXPATH:
                            m.setdefault(q, (ev.loc, "attribute %s assigned" % ev.attr))
            elif k == "augassign":
                if ev.op in ("+", "|", "&", "-") and any(v.k in LISTY or (v.k == "call" and v.a[0] in ("list", "set", "sorted")) for v in alts(ev.value)) and \
                        not any(t.k == "tuple" for t in alts(ev.target)):
                    add(ev.target, "extended by augmented assignment", ev)
            elif k == "call":
                b, cs = ev.d.get("bound"), ev.d.get("callee") or []
                recv = ev.d.get("recv")
                if cs and ev.d.get("virtual"):
                    for g in cs:
                        bb = e.bind(g, [recv] + list(ev.args) if not g.is_staticmethod else list(ev.args), ev.kws)
                        self._apply(f, g, bb, m, ev)
                elif cs and b is not None and not ev.d.get("inlined"):
                    self._apply(f, cs[0], b, m, ev)
                elif not cs and recv is not None and ev.d.get("name"):
                    nm = ev.name
                    kw = dict(ev.kws)
                    if "inplace" in kw and not (is_const(kw["inplace"]) and not cval(kw["inplace"])):
                        add(recv, ".%s(inplace)" % nm, ev)
                    elif nm in MUT and recv.k not in ("glob", "const", "fstr"):
                        add(recv, ".%s()" % nm, ev)
                elif not cs and ev.d.get("name") in ("random.shuffle", "numpy.random.shuffle", "setattr", "delattr") and ev.args:
                    if ev.name in ("setattr", "delattr"):
                        a = ev.args[1]
                        nm = cval(a) if is_const(a) else "?"
                        add(ev.args[0], "setattr", ev, (nm,))
                    else:
                        add(ev.args[0], ev.name, ev)
            elif k == "new" and ev.d.get("init") is not None and ev.bound:
                self._apply(f, ev.init, ev.bound, m, ev, ctor=True)
        r = set()
        self._lits = []
        t = e.result
        if isinstance(t, T):
            try:
                leaves = gated(t, limit=300)
            except Blowup:
                leaves = [(Conds(), x) for x in alts(t)]
            for c, x in leaves:
                cs = frozenset((a.a[1][1], pol) for a, pol in c.items()
                               if a.k == "call" and a.a[0] == "isinstance" and len(a.a[1]) == 2)
                for q, path in self.own(f, x):
                    cc = frozenset((cl, pol) for cl, pol in cs if not path and any(
                        a.k == "call" and a.a[0] == "isinstance" and a.a[1][1] is cl and (q, ()) in self.own(f, a.a[1][0]) for a, _ in c.items()))
                    r.add((q, path, cc))
        return m, r

    def _apply(self, f, g, bound, m, ev, ctor=False):
        if g.node not in self.mut or bound is None:
            return
        first = g.params()[0] if g.params() and g.cls is not None and not g.is_staticmethod else None
        for (q, path), (loc, how) in self.mut[g.node].items():
            if q not in bound or (ctor and q == first):
                continue
            for k in self.reach(f, bound[q], path):
                m.setdefault(k, (loc, how))


def bases(t):
    """objects a term may denote, in-place changes stripped at every level"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        while x.k == "upd":
            x = x.a[1]
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            st += [x.a[1], x.a[2]]
        elif x.k == "phi":
            st += list(x.a[0])
        else:
            out.append(x)
    return out


def _is_inplace(c):
    return c.k == "param" and c.a[0] == "inplace"


def contains_inplace(t):
    return t.k in ("ite", "phi") and contains(t, _is_inplace)


def drop_inplace(t):
    """the value when the caller did not ask for an in-place change"""
    if t.k == "ite":
        if _is_inplace(t.a[0]):
            return drop_inplace(t.a[2])
        return mk("ite", t.a[0], drop_inplace(t.a[1]), drop_inplace(t.a[2]))
    if t.k == "phi":
        return mk("phi", frozenset(drop_inplace(x) for x in t.a[0]))
    return t


def lazy_cache(ev):
    """self.attr filled in by its own class because it was found missing"""
    if ev.recv.k != "inst":
        return False
    for c, pol in ev.guards:
        for a, pl in lits(c, pol):
            if a.k == "attr" and a.a[1] == ev.attr and a.a[0] is ev.recv and not pl:
                return True
            if pl and a.k == "cmp" and a.a[0] in ("is", "==") and a.a[2] is NONE and a.a[1].k == "attr" and a.a[1].a[1] == ev.attr:
                return True
            if not pl and a.k == "call" and a.a[0] == "hasattr" and len(a.a[1]) == 2 and a.a[1][1] is const(ev.attr):
                return True
    return False


def _containerish(t):
    return any(x.k in LISTY or (x.k == "attr" and x.a[1] in ("entity_dict", "relationships", "entities")) or x.k == "param" for x in alts(t)) or True
