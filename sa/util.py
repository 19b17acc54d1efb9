"""Shared queries over value-flow terms: gated data paths, mask formulas, guard literals."""
from .flow import *  # noqa
from .flow import Engine, mk, const, walk, contains, alts, identity, show, NONE, is_const, cval, negate
from .index import AnalysisBroken

FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
NEGOP = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
METH_CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def has(t, sub):
    return contains(t, lambda x: x is sub)


def has_kind(t, k, *prefix):
    return contains(t, lambda x: x.k == k and x.a[:len(prefix)] == prefix)


def has_attr(t, name):
    return contains(t, lambda x: x.k == "attr" and x.a[1] == name)


def has_param(t, name):
    return contains(t, lambda x: x.k == "param" and x.a[0] == name)


# ---- boolean structure -----------------------------------------------------
def lits(c, pol):
    """literals implied by condition c having truth value pol (conjunctive part)"""
    out = []
    if c.k == "not":
        return lits(c.a[0], not pol)
    if c.k == "bool":
        op, items = c.a
        if (op == "and") == pol:
            for x in items:
                out += lits(x, pol)
            return out
        out.append((c, pol))
        return out
    if c.k == "cmp" and c.a[0] in ("is not", "!=", "not in"):
        return [(mk("cmp", {"is not": "is", "!=": "==", "not in": "in"}[c.a[0]], c.a[1], c.a[2]), not pol)]
    if c.k == "ite":
        out.append((c, pol))
        a, b = c.a[1], c.a[2]
        if is_const(b) and bool(cval(b)) != pol:
            return lits(c.a[0], True) + lits(a, pol)
        if is_const(a) and bool(cval(a)) != pol:
            return lits(c.a[0], False) + lits(b, pol)
        return out
    out.append((c, pol))
    return out


def exempt(c, pol, pred):
    """does c having truth value pol imply (by its boolean structure) a literal accepted by pred(atom, pol)?"""
    if c.k == "not":
        return exempt(c.a[0], not pol, pred)
    if is_const(c):
        return bool(cval(c)) != pol      # infeasible
    if c.k == "cmp" and c.a[0] in ("is not", "!=", "not in"):
        return exempt(mk("cmp", {"is not": "is", "!=": "==", "not in": "in"}[c.a[0]], c.a[1], c.a[2]), not pol, pred)
    if c.k == "bool":
        op, items = c.a
        if (op == "and") == pol:
            return any(exempt(x, pol, pred) for x in items)
        return all(exempt(x, pol, pred) for x in items)
    if c.k == "ite":
        g, a, b = c.a
        ra = exempt(g, True, pred) or exempt(a, pol, pred)
        rb = exempt(g, False, pred) or exempt(b, pol, pred)
        return ra and rb
    if c.k == "phi":
        return all(exempt(x, pol, pred) for x in c.a[0])
    return bool(pred(c, pol))


class Conds(object):
    """a set of assumed literals with cheap contradiction detection"""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    def add(self, c, pol):
        """new Conds with c==pol assumed, or None when contradictory"""
        d = dict(self.d)
        for x, p in [(c, pol)] + lits(c, pol):
            if is_const(x):
                if bool(cval(x)) != p:
                    return None
                continue
            if d.get(x, p) != p:
                return None
            d[x] = p
        n = Conds(d)
        return n

    def merge(self, o):
        r = self
        for x, p in o.d.items():
            r = r.add(x, p)
            if r is None:
                return None
        return r

    def value(self, c):
        """truth value of c under the assumptions, or None"""
        if is_const(c):
            return bool(cval(c))
        if c in self.d:
            return self.d[c]
        if c.k == "not":
            v = self.value(c.a[0])
            return None if v is None else not v
        if c.k == "cmp" and c.a[0] in ("is not", "!=", "not in"):
            v = self.value(mk("cmp", {"is not": "is", "!=": "==", "not in": "in"}[c.a[0]], c.a[1], c.a[2]))
            return None if v is None else not v
        if c.k == "bool":
            vs = [self.value(x) for x in c.a[1]]
            if c.a[0] == "and":
                if any(v is False for v in vs):
                    return False
                if all(v is True for v in vs):
                    return True
            else:
                if any(v is True for v in vs):
                    return True
                if all(v is False for v in vs):
                    return False
        return None

    def exempt(self, pred):
        return any(exempt(c, p, pred) for c, p in self.d.items())

    def items(self):
        return self.d.items()


class Blowup(Exception):
    pass


def gated(t, conds=None, limit=4000):
    """[(Conds, leaf)] expanding ite/phi at the top"""
    conds = conds or Conds()
    out = []
    stack = [(t, conds)]
    while stack:
        x, c = stack.pop()
        if x.k == "ite":
            v = c.value(x.a[0])
            for pol, br in ((True, x.a[1]), (False, x.a[2])):
                if v is not None and v != pol:
                    continue
                c2 = c.add(x.a[0], pol)
                if c2 is not None:
                    stack.append((br, c2))
        elif x.k == "phi":
            for y in x.a[0]:
                stack.append((y, c))
        else:
            out.append((c, x))
            if len(out) > limit:
                raise Blowup()
    return out


def data_paths(t, conds=None, limit=4000):
    """Follow the data spine of a frame-valued term.  Returns [(Conds, layers, root)], layers outermost first.
    layer = ('item', key) | ('upd', op, args) | ('m', name, args, kws)"""
    out = []
    stack = [(t, conds or Conds(), ())]
    while stack:
        x, c, ly = stack.pop()
        if len(out) > limit or len(stack) > limit:
            raise Blowup()
        if x.k == "ite":
            v = c.value(x.a[0])
            for pol, br in ((True, x.a[1]), (False, x.a[2])):
                if v is not None and v != pol:
                    continue
                c2 = c.add(x.a[0], pol)
                if c2 is not None:
                    stack.append((br, c2, ly))
        elif x.k == "phi":
            for y in x.a[0]:
                stack.append((y, c, ly))
        elif x.k == "item":
            b = x.a[0]
            if b.k == "attr" and b.a[1] in ("loc", "iloc"):
                b = b.a[0]
            stack.append((b, c, ly + (("item", x.a[1]),)))
        elif x.k == "upd":
            stack.append((x.a[1], c, ly + (("upd", x.a[0], x.a[2]),)))
        elif x.k == "mcall":
            stack.append((x.a[0], c, ly + (("m", x.a[1], x.a[2], x.a[3]),)))
        elif x.k == "cbcall":
            stack.append((x.a[0], c, ly + (("m", x.a[1], x.a[3], x.a[4]),)))
        else:
            out.append((c, ly, x))
    return out


# ---- mask formulas ---------------------------------------------------------
def formula(m, pol=True):
    """boolean formula of a mask term: ('and'|'or', [..]) | ('cmp', op, l, r) | ('ite', c, f, g) | ('raw', t, pol)"""
    if m.k == "bin" and m.a[0] in "&|":
        op = "and" if (m.a[0] == "&") == pol else "or"
        return (op, [formula(m.a[1], pol), formula(m.a[2], pol)])
    if m.k == "un" and m.a[0] == "~":
        return formula(m.a[1], not pol)
    if m.k == "not":
        return formula(m.a[0], not pol)
    if m.k == "cmp":
        op = m.a[0]
        if op in NEGOP:
            return ("cmp", op if pol else NEGOP[op], m.a[1], m.a[2])
    if m.k == "mcall" and m.a[1] in METH_CMP and m.a[2]:
        op = METH_CMP[m.a[1]]
        return ("cmp", op if pol else NEGOP[op], m.a[0], m.a[2][0])
    if m.k == "call" and m.a[0] in ("numpy.logical_and", "numpy.logical_or") and len(m.a[1]) == 2:
        op = "and" if (m.a[0].endswith("and")) == pol else "or"
        return (op, [formula(m.a[1][0], pol), formula(m.a[1][1], pol)])
    if m.k == "call" and m.a[0] == "numpy.logical_not" and m.a[1]:
        return formula(m.a[1][0], not pol)
    if m.k == "mcall" and m.a[1] in ("fillna", "reindex", "astype", "to_numpy", "copy") or (m.k == "attr" and m.a[1] == "values"):
        return formula(m.a[0], pol)
    if m.k == "ite":
        return ("ite", m.a[0], formula(m.a[1], pol), formula(m.a[2], pol))
    if m.k == "phi":
        return ("or?", [formula(x, pol) for x in m.a[0]])
    return ("raw", m, pol)


def formula_cases(f, conds):
    """[(Conds, ite-free formula)]"""
    if f[0] == "ite":
        out = []
        v = conds.value(f[1])
        for pol, g in ((True, f[2]), (False, f[3])):
            if v is not None and v != pol:
                continue
            c2 = conds.add(f[1], pol)
            if c2 is not None:
                out += formula_cases(g, c2)
        return out
    if f[0] in ("and", "or", "or?"):
        acc = [(conds, [])]
        for g in f[1]:
            nxt = []
            for c, parts in acc:
                for c2, g2 in formula_cases(g, c):
                    nxt.append((c2, parts + [g2]))
            acc = nxt
            if len(acc) > 2000:
                raise Blowup()
        return [(c, (f[0], parts)) for c, parts in acc]
    if f[0] == "cmp":
        out = []
        for c1, l in gated(f[2], conds, 200):
            for c2, r in gated(f[3], c1, 200):
                out.append((c2, ("cmp", f[1], l, r)))
        return out
    return [(conds, f)]


def conjuncts(f):
    if f[0] == "and":
        r = []
        for g in f[1]:
            r += conjuncts(g)
        return r
    return [f]


def disjuncts(f):
    if f[0] == "or":
        r = []
        for g in f[1]:
            r += disjuncts(g)
        return r
    return [f]


def orient(f, is_bound):
    """('cmp', op, l, r) with the bound side on the right; None if neither side is a bound"""
    if f[0] != "cmp":
        return None
    _, op, l, r = f
    if is_bound(r):
        return (op, l, r)
    if is_bound(l):
        return (FLIP.get(op, op), r, l)
    return None


def strip_wrap(t):
    """peel value-preserving wrappers of a column / scalar"""
    while True:
        if t.k == "mcall" and t.a[1] in ("copy", "astype", "rename", "reset_index", "reindex", "to_frame"):
            t = t.a[0]
        elif t.k == "attr" and t.a[1] == "values":
            t = t.a[0]
        else:
            return t


def is_none_atom(c, pol, who):
    """(who is None)==True"""
    return pol and c.k == "cmp" and c.a[0] in ("is", "==") and ((c.a[2] is NONE and who(c.a[1])) or (c.a[1] is NONE and who(c.a[2])))


def origins(t, stop=None, seen=None):
    """leaf terms whose *value* t may be (through ite/phi only)"""
    return alts(t)


def call_bound(e, name):
    b = e.d.get("bound")
    return b.get(name) if b else None


def events_calling(eng, pred):
    for e in eng.events:
        if e.kind == "call":
            for c in e.d.get("callee") or []:
                if pred(c):
                    yield e, c
        elif e.kind == "new" and e.d.get("init") is not None:
            if pred(e.d["init"]):
                yield e, e.d["init"]


# ---- standard engine configurations -------------------------------------------
OPAQUE = {"is_instance", "import_or_none", "make_tqdm_iterator", "create_client_and_cluster", "get_client_cluster",
          "n_jobs_to_workers", "scatter_warning"}


def cfm_inline(fi):
    """inline the computation back-end and EntitySet helpers, keep the public data query and constructors opaque"""
    if fi.name in OPAQUE:
        return False
    mod = fi.module.name
    if fi.cls is not None:
        if fi.cls.name == "EntitySet":
            return fi.name not in ("__init__", "query_by_values", "metadata", "reset_data_description",
                                   "entity_from_dataframe", "add_last_time_indexes")
        if fi.cls.name in ("FeatureSet", "Trie", "Entity", "Relationship", "RelationshipPath", "Timedelta"):
            return False
        if fi.cls.is_subclass("FeatureBase") or fi.cls.is_subclass("PrimitiveBase"):
            return False
        return True
    if fi.parent is not None or "computational_backends" in mod:
        return True
    return ".utils" in mod and fi.name not in ("_check_timedelta", "_check_time_type")


def cfm_engine(p):
    e = Engine(p, max_depth=14, budget=900000, types={"entityset": "EntitySet"}, inline=cfm_inline, inline_properties=False)
    e.entry = p.public("calculate_feature_matrix")
    e.result = e.run(e.entry)
    return e


def method_engine(p, cls, name, inline=None, **kw):
    c = p.cls(cls)
    f = c.find_method(name)
    if f is None:
        raise AnalysisBroken("%s.%s not found" % (cls, name))
    kw.setdefault("inline_properties", False)
    e = Engine(p, max_depth=kw.pop("max_depth", 9), budget=kw.pop("budget", 300000),
               inline=inline or (lambda fi: fi.name not in OPAQUE and fi.name != "__init__"), **kw)
    e.entry = f
    e.result = e.run(f)
    return e
