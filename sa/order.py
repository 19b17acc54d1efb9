"""Where an iteration order that the program does not determine becomes observable.

An abstract interpretation of every function of the package over three kinds of value:
  N  order determined (or nothing known),
  U  an unordered collection: a set, or a dictionary filled by walking one,
  L  a sequence or text whose order was taken from a U,
each with the kind of its elements.  Walking a U or L in a loop turns what the loop appends to, fills or yields into L;
sorting by a key without ties, counting, membership and set algebra forget it.  Parameters, results, attributes and
nested functions are joined over all calls that resolve within the package, to a fixed point."""
import ast
from .index import dotted

ORD = {"N": 0, "U": 1, "L": 2}


class V(object):
    __slots__ = ("k", "e", "why", "t")

    def __init__(self, k="N", e=None, why=None, t=None):
        self.k, self.e, self.why, self.t = k, e, why, t      # t: kinds per position of a fixed tuple

    def key(self):
        return (self.k, self.e.key() if self.e else None, tuple(x.key() for x in self.t) if self.t else None)

    def __repr__(self):
        return self.k + ("[%r]" % self.e if self.e and self.e.hot() else "") + (repr(self.t) if self.t else "")

    def observed(self):
        """the undetermined order itself, anywhere inside"""
        if self.k == "L":
            return self
        for x in (self.e,) + tuple(self.t or ()):
            w = x.observed() if x is not None else None
            if w is not None:
                return w
        return None

    def hot(self):
        return self.k != "N" or bool(self.e and self.e.hot()) or bool(self.t and any(x.hot() for x in self.t))


N = V()


def depth(v):
    return 1 + max([depth(v.e) if v.e else 0] + [depth(x) for x in v.t or ()])


def join(a, b):
    if a is b or b is None:
        return a
    if a is None:
        return b
    if not b.hot():
        return a
    if not a.hot():
        return b
    hi = a if ORD[a.k] >= ORD[b.k] else b
    t = tuple(join(x, y) for x, y in zip(a.t, b.t)) if a.t and b.t and len(a.t) == len(b.t) else None
    ea, eb = a.e, b.e
    if t is None:
        for v in (a, b):
            if v.t:
                for x in v.t:
                    ea = join(ea, x)
    e = join(ea, eb) if ea and eb else ea or eb
    return clip(V(hi.k, e, hi.why, t), 5)


def clip(v, d):
    """kinds nested deeper than d are not kept apart"""
    if v is None or depth(v) <= d:
        return v
    if d <= 1:
        return V(v.k, None, v.why)
    return V(v.k, clip(v.e, d - 1), v.why, tuple(clip(x, d - 1) for x in v.t) if v.t else None)


def elem(v):
    e = v.e
    for x in v.t or ():
        e = join(e, x) if e else x
    return e or N


def seq(v, why):
    """the same elements in a sequence"""
    return V("L" if v.k != "N" else "N", elem(v) if v.e or v.t else None, v.why or why)


SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
SETMUT = {"add", "discard", "remove", "clear", "difference_update", "intersection_update", "symmetric_difference_update"}
FORGET = {"len", "any", "all", "sum", "min", "max", "bool", "isinstance", "is_instance", "type", "hasattr", "callable", "issubclass", "range", "int", "float", "abs", "round", "warn"}
CARRY = {"list", "tuple", "iter", "reversed", "enumerate", "zip", "map", "filter", "OrderedDict", "dict", "deque", "islice", "chain", "cycle", "array", "Series", "DataFrame", "Index", "concat", "from_iterable"}
TEXT = {"str", "repr", "format", "dumps", "dump", "write", "print", "writelines", "writerow"}
BUILTIN_M = {"get", "add", "update", "items", "values", "keys", "copy", "pop", "append", "extend", "remove", "format", "join", "sort", "index", "insert", "lower", "upper", "setdefault", "head", "apply",
             "merge", "groupby", "drop", "split", "replace", "strip", "startswith", "endswith", "close", "count", "clear", "write", "read", "map", "agg", "rename", "reindex", "isin", "set", "mean", "sum", "max", "min",
             "any", "all", "astype", "unique", "fillna", "shift", "set_index", "reset_index", "to_csv", "to_dict", "compute", "next", "encode", "decode"} | SETOPS
FORGET_M = {"isin", "drop", "issubset", "issuperset", "isdisjoint", "count", "index", "reindex"} | SETMUT
LOSSY = {"lower", "upper", "get_depth", "len", "type", "count", "casefold", "strip", "split", "hash", "id", "startswith", "endswith", "isinstance", "hasattr"}
IDENT = {"unique_name", "get_name", "generate_name", "get_feature_names", "str", "repr", "__repr__", "__str__", "type_string", "name", "id", "__name__", "_name", "key", "get_names"}


def tie_free(key, depth=0):
    """a sort key that tells apart any two elements the program tells apart (identifies the element)"""
    if key is None or depth > 6:
        return True
    if isinstance(key, ast.Constant) and key.value is None:
        return True
    if isinstance(key, ast.Lambda):
        ps = {a.arg for a in key.args.args}
        return _ident(key.body, ps, depth + 1)
    if isinstance(key, ast.Name):
        return key.id not in LOSSY
    if isinstance(key, ast.Attribute):
        return key.attr not in LOSSY
    if isinstance(key, ast.Call):
        n = dotted(key.func) or ""
        if n.split(".")[-1] in ("itemgetter", "attrgetter", "partial", "cmp_to_key"):
            return True
    return True


def _ident(b, ps, d):
    """the expression mentions a parameter (or something reached from it) outside a lossy function"""
    if isinstance(b, ast.Name):
        return b.id in ps
    if isinstance(b, ast.Constant):
        return False
    if isinstance(b, ast.Call):
        n = b.func.attr if isinstance(b.func, ast.Attribute) else b.func.id if isinstance(b.func, ast.Name) else ""
        if n in LOSSY:
            return False
        return any(_ident(x, ps, d) for x in list(b.args) + [k.value for k in b.keywords]) or isinstance(b.func, ast.Attribute) and _ident(b.func.value, ps, d)
    if isinstance(b, (ast.ListComp, ast.GeneratorExp)):
        q = set(ps)
        for g in b.generators:
            if _ident(g.iter, ps, d):
                q |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        return _ident(b.elt, q, d)
    if isinstance(b, ast.Compare) or isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.Not):
        return False
    return any(_ident(x, ps, d) for x in ast.iter_child_nodes(b) if isinstance(x, ast.expr))


class Fn(object):
    def __init__(self, node, module, cls=None, name=None, fi=None, parent=None):
        self.node, self.module, self.cls, self.fi, self.parent = node, module, cls, fi, parent
        self.name = name or getattr(node, "name", "<lambda>")
        self.params = {}          # name -> V joined over calls
        self.ret = N
        self.fills = {}           # param -> how deep inside it the function appends or inserts in order
        self.outs = {}            # param -> what it holds after the call, beyond what it held before
        self.gen = False

    def names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def qual(self):
        return self.fi.qual if self.fi else (self.parent.qual + "." + self.name if self.parent else self.name)


class Orders(object):
    def __init__(self, p, skip=(), exempt=()):
        self.p = p
        self.exempt = tuple(exempt)       # modules whose own sequences are internal
        self.fns, self.by_node, self.by_name = [], {}, {}
        for fi in p.all_functions():
            if fi.module.name.startswith(skip):
                continue
            f = Fn(fi.node, fi.module, fi.cls, fi=fi)
            self.fns.append(f)
            self.by_node[id(fi.node)] = f
            if fi.cls is not None:
                self.by_name.setdefault(fi.name, []).append(f)
        self.attrs = {}                   # (class name, attr) -> V
        self.attr_classes = {}            # attr -> set of class names assigning it
        self.globals = {}                 # (module, name) -> V
        self.reports = {}
        self.nested = {}
        self.record = False
        self.walked = 0
        self._run()

    # ---- fixed point ----------------------------------------------------------------------------------------------
    def _run(self):
        for rnd in range(8):
            self.changed = False
            for m in self.p.modules.values():
                for n, vs in m.assigns.items():
                    it = Interp(self, Fn(ast.Lambda(args=_noargs(), body=ast.Constant(None)), m))
                    v = N
                    for x in vs:
                        v = join(v, it.ev(x))
                    self._up(self.globals, (m.name, n), v)
            for f in self.fns:
                Interp(self, f).run()
            if not self.changed:
                break
        self.record = True
        self.rounds = rnd + 1
        for f in self.fns:
            Interp(self, f).run()

    def _up(self, d, k, v):
        o = d.get(k, N)
        n = join(o, v)
        if n.key() != o.key():
            d[k] = n
            self.changed = True

    def bind(self, caller, f, name, v):
        if v.hot() and not (caller.module.name.startswith(self.exempt) and not f.module.name.startswith(self.exempt)):
            self._up(f.params, name, v)

    def family(self, c):
        return {x.name for x in c.mro()} | {x.name for x in self.p.subclasses(c.name)} if c is not None else set()

    def get_attr(self, cls, attr, is_self):
        if is_self and cls is not None:
            v = N
            for n in self.family(cls):
                v = join(v, self.attrs.get((n, attr), N))
            return v
        cs = self.attr_classes.get(attr, set())
        if len(cs) == 1:
            return self.attrs.get((next(iter(cs)), attr), N)
        return N

    def methods(self, name, cls=None):
        if cls is not None:
            m = cls.find_method(name)
            out = []
            if m is not None and id(m.node) in self.by_node:
                out.append(self.by_node[id(m.node)])
            for s in self.p.subclasses(cls.name):
                if name in s.methods and id(s.methods[name].node) in self.by_node:
                    out.append(self.by_node[id(s.methods[name].node)])
            return out
        if name in BUILTIN_M:
            return []
        return self.by_name.get(name, [])

    def report(self, f, node, why, v):
        if not self.record or f.module.name.startswith(self.exempt):
            return
        self.reports.setdefault((id(node), why), (f, node, why, v))


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None)


class Interp(object):
    def __init__(self, o, f, env=None):
        self.o, self.f = o, f
        self.env = dict(env or {})
        self.loops = []                   # (V iterated, names bound by the loop) of unordered loops around this point
        self.local_fns = {}
        self.assume = {}

    # ---- driver ----------------------------------------------------------------------------------------------------
    def run(self):
        f = self.f
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.env[x.arg] = f.params.get(x.arg, N)
        # branches on one parameter are correlated: follow each value of a parameter that is tested more than once
        tests = {}
        for s in ast.walk(f.node):
            if isinstance(s, ast.If):
                t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else s.test
                if isinstance(t, ast.Name) and t.id in self.env:
                    tests[t.id] = tests.get(t.id, 0) + 1
        stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        split = [n for n, k in sorted(tests.items()) if k > 1 and n not in stored][:2]
        env = self.env
        for bits in range(2 ** len(split)):
            self.env = dict(env)
            self.assume = {n: bool(bits >> i & 1) for i, n in enumerate(split)}
            self.block(f.node.body)

    def block(self, body):
        """True when control does not pass the end of the block"""
        for s in body:
            if self.stmt(s) or isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return True
        return False

    def hotloop(self):
        return self.loops[-1][0] if self.loops else None

    def merge(self, e1, e2):
        return {k: join(e1.get(k, N), e2.get(k, N)) for k in set(e1) | set(e2)}

    def stmt(self, s):
        o, f = self.o, self.f
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n = o.nested.get(id(s))
            if n is None:
                n = o.nested[id(s)] = Fn(s, f.module, f.cls, parent=f)
            self.local_fns[s.name] = n
            sub = Interp(o, n, self.env)
            sub.local_fns = dict(self.local_fns)
            sub.run()
        elif isinstance(s, ast.ClassDef):
            pass
        elif isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else N
            if self.loops and s.value is not None and self._depends(s.value):
                v = V("L", v.e, self.loops[-1][0].why)
            self._ret(v, s)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            cur = self.ev(s.target)
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                self.assign(s.target, join(cur, v), s.value)
            else:
                ordered = isinstance(s.op, ast.Add) and (isinstance(s.value, (ast.List, ast.ListComp, ast.Tuple, ast.JoinedStr)) or v.k != "N" or cur.k == "L" or isinstance(s.value, ast.BinOp) and _texty(s.value)
                                                         or isinstance(s.value, ast.Call) and _texty(s.value))
                n = seq(v, self.at(s)) if v.k != "N" else v
                n = join(cur, n)
                if self.loops and ordered and cur.k != "U":
                    n = join(n, V("L", None, self.hotloop().why))
                self.assign(s.target, n, s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            neg = isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not)
            t = s.test.operand if neg else s.test
            if isinstance(t, ast.Name) and t.id in self.assume:
                return self.block(s.body if self.assume[t.id] != neg else s.orelse)
            e0 = dict(self.env)
            out1 = self.block(s.body)
            e1 = self.env
            self.env = e0
            out2 = self.block(s.orelse)
            if out1:
                return out2
            self.env = e1 if out2 else self.merge(self.env, e1)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            hot = it.k != "N"
            if hot:
                o.walked += o.record
            for _ in range(2):
                e0 = dict(self.env)
                self.assign(s.target, elem(it), None)
                if hot:
                    why = it.why or self.at(s)
                    self.loops.append((V(it.k, None, why), {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} | _bound(s.body)))
                self.block(s.body)
                if hot:
                    self.loops.pop()
                self.env = self.merge(self.env, e0)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                e0 = dict(self.env)
                self.ev(s.test)
                self.block(s.body)
                self.env = self.merge(self.env, e0)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            self.block(s.orelse)
            for h in s.handlers:
                e1 = self.env
                self.env = self.merge(e0, e1)
                self.block(h.body)
                self.env = self.merge(self.env, e1)
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, stmt=True)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            pass                            # the text of an error is not a result
        elif isinstance(s, ast.Delete):
            pass

    def _depends(self, e):
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        return any(names & l[1] for l in self.loops)

    def _ret(self, v, s):
        if v.hot():
            o = join(self.f.ret, v)
            if o.key() != self.f.ret.key():
                self.f.ret = o
                self.o.changed = True
        if v.observed() and not self.f.name.startswith("_") and self.f.parent is None:
            self.o.report(self.f, s, "return", v.observed())

    def at(self, n):
        return "%s:%d (%s)" % (self.f.module.rel, getattr(n, "lineno", 0), self.f.qual)

    def text(self, v, n):
        w = v.why or self.at(n)
        return w if w.endswith(" as text") else w + " as text"

    # ---- assignment ----------------------------------------------------------------------------------------------
    def assign(self, t, v, src):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            if src is None and t.id in self.local_fns:
                pass
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                w = v.t[i] if v.t and len(v.t) == len(t.elts) else elem(v)
                self.assign(x.value if isinstance(x, ast.Starred) else x, w, None)
        elif isinstance(t, ast.Attribute):
            self.setattr(t, v)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            self.fill(t.value, V("N", v if v.hot() else None), ordered=True, const=isinstance(t.slice, ast.Constant), kind="U")

    def setattr(self, t, v):
        is_self = isinstance(t.value, ast.Name) and t.value.id in ("self", "cls") and self.f.cls is not None
        if is_self:
            c = self.f.cls.name
            if v.hot():
                self.o._up(self.o.attrs, (c, t.attr), v)
                if v.observed():
                    self.o.report(self.f, t, "attribute", v.observed())
            s = self.o.attr_classes.setdefault(t.attr, set())
            s.add(c)
        elif v.hot():
            cs = self.o.attr_classes.get(t.attr, set())
            if len(cs) == 1:
                self.o._up(self.o.attrs, (next(iter(cs)), t.attr), v)

    def fill(self, target, v, ordered, const=False, kind="L"):
        """something is added to the collection `target` (a name, attribute or element of one) here"""
        hot = None
        if self.loops and ordered and not const:
            names = self._root(target)
            # a collection made inside the loop body does not record the order of the loop
            lv = [l for l in self.loops if names not in l[1] or names is None]
            if lv:
                hot = lv[-1][0]
        self._fill(target, v, hot, ordered, kind)

    def _root(self, t):
        while isinstance(t, (ast.Attribute, ast.Subscript, ast.Call)):
            t = t.func if isinstance(t, ast.Call) else t.value
        return t.id if isinstance(t, ast.Name) else None

    def _fills(self, t, d):
        while isinstance(t, ast.Subscript) or isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("setdefault", "get"):
            t = t.value if isinstance(t, ast.Subscript) else t.func.value
            d += 1
        a = self.f.node.args
        if isinstance(t, ast.Name) and t.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] and self.f.fills.get(t.id, -1) < d:
            self.f.fills[t.id] = min(d, 3)
            self.o.changed = self.o.changed or d <= 3

    def _outs(self, name, v):
        a = self.f.node.args
        if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
            self.o._up(self.f.outs, name, v)

    def into(self, target, v):
        """the object an argument denotes holds v after a call"""
        if isinstance(target, ast.Name) and target.id in self.env:
            self.env[target.id] = join(self.env[target.id], v)
            self._outs(target.id, v)
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == "self" and self.f.cls is not None:
            self.o._up(self.o.attrs, (self.f.cls.name, target.attr), v)

    def passed(self, t, p, a):
        """effects of the call on the object passed for parameter p"""
        if p in t.fills:
            self._fills(a, t.fills[p])
            root = self._root(a)
            lv = [l for l in self.loops if root not in l[1] or root is None]
            if lv:
                v = V("U" if t.fills[p] else "L", None, lv[-1][0].why)
                for _ in range(t.fills[p]):
                    v = V("N", v)
                self.into(a, v)
        if p in t.outs:
            self.into(a, t.outs[p])

    def _fill(self, t, v, hot, ordered, kind="L"):
        if isinstance(t, ast.Name):
            cur = self.env.get(t.id, N)
            if cur.k == "U":
                n = join(cur, V("U", v.e, cur.why))
            else:
                n = join(cur, V(kind if hot else "N", v.e, hot.why if hot else None))
            self.env[t.id] = n
            if ordered:
                self._fills(t, 0)
            if n.hot():
                self._outs(t.id, n)
        elif isinstance(t, ast.Attribute):
            is_self = isinstance(t.value, ast.Name) and t.value.id == "self" and self.f.cls is not None
            cur = self.ev(t)
            w = V(kind if hot and cur.k != "U" else "N", v.e, hot.why if hot else None)
            if w.hot() and is_self:
                self.o._up(self.o.attrs, (self.f.cls.name, t.attr), w)
                if w.observed():
                    self.o.report(self.f, t, "attribute", w.observed())
        elif isinstance(t, ast.Subscript):
            if ordered:
                self._fills(t, 0)
            cur = self.ev(t)
            inner = V("N" if cur.k == "U" else (kind if hot else "N"), v.e, hot.why if hot else None)
            if inner.hot():
                self._fill(t.value, V("N", inner), None, False)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("setdefault", "get"):
            inner = V(kind if hot else "N", v.e, hot.why if hot else None)
            if inner.hot():
                self._fill(t.func.value, V("N", inner), None, False)

    # ---- expressions ---------------------------------------------------------------------------------------------
    def ev(self, e, stmt=False):
        o = self.o
        if e is None or isinstance(e, ast.Constant):
            return N
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return o.globals.get((self.f.module.name, e.id), N) if e.id in self.f.module.assigns else self._imported(e)
        if isinstance(e, ast.Set):
            x = N
            for a in e.elts:
                x = join(x, self.ev(a))
            return V("U" if len(e.elts) > 1 else "N", x if x.hot() else None, self.at(e))
        if isinstance(e, (ast.List, ast.Tuple)):
            vs = [self.ev(a) for a in e.elts]
            st = [self.ev(a.value) if isinstance(a, ast.Starred) else None for a in e.elts]
            k = [x for x in st if x is not None and x.k != "N"]
            if not any(v.hot() for v in vs) and not k:
                return N
            if k:
                return V("L", None, k[0].why or self.at(e))
            if isinstance(e, ast.Tuple):
                return V("N", None, None, tuple(vs))
            x = N
            for v in vs:
                x = join(x, v)
            return V("N", x if x.hot() else None)
        if isinstance(e, ast.Dict):
            x, k = N, None
            for kk, vv in zip(e.keys, e.values):
                w = self.ev(vv)
                if kk is None:
                    k = w if w.k != "N" else k
                    x = join(x, elem(w))
                else:
                    x = join(x, w)
            return V("L" if k else "N", x if x.hot() else None, k.why if k else None)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            saved = dict(self.env)
            hot = None
            for g in e.generators:
                it = self.ev(g.iter)
                if it.k != "N":
                    hot = V(it.k, None, it.why or self.at(e))
                    o.walked += o.record
                self.assign(g.target, elem(it), None)
                for c in g.ifs:
                    self.ev(c)
            x = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt)
            self.env = saved
            if isinstance(e, ast.SetComp):
                return V("U", x if x.hot() else None, self.at(e))
            return V("L" if hot else "N", x if x.hot() else None, hot.why if hot else None)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, ast.Mod) and (isinstance(e.left, ast.Constant) and isinstance(e.left.value, str)):
                for x in (b,) + tuple(b.t or ()):
                    if x.k != "N":
                        return V("L", None, self.text(x, e))
                return N
            if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
                if isinstance(e.op, ast.BitAnd) and ("N" in (a.k, b.k)):
                    return N if a.k == b.k else (a if a.k == "U" else b)
                if isinstance(e.op, ast.Sub):
                    return a
                return join(a, b)
            if isinstance(e.op, ast.Add):
                return join(a, b)
            return N
        if isinstance(e, ast.BoolOp):
            v = N
            for x in e.values:
                v = join(v, self.ev(x))
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.Subscript):
            b, i = self.ev(e.value), self.ev(e.slice)
            if b.t and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b.t) <= e.slice.value < len(b.t):
                return b.t[e.slice.value]
            if i.k != "N":
                return V("L", None, i.why)          # selection of columns
            if b.k == "L":
                if isinstance(e.slice, ast.Slice):
                    return b
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) or isinstance(e.slice, ast.UnaryOp):
                    return V("L", b.e, b.why)       # one particular element of an undetermined order
            return elem(b)
        if isinstance(e, ast.Attribute):
            return self._attr(e)
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    v = self.ev(x.value)
                    if v.k != "N":
                        return V("L", None, self.text(v, e))
            return N
        if isinstance(e, ast.Call):
            return self.call(e, stmt)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.ev(e.value) if e.value is not None else N
            w = v if isinstance(e, ast.YieldFrom) else V("N", v if v.hot() else None)
            if self.loops:
                w = join(w, V("L", None, self.hotloop().why))
            self._ret(w, e)
            return N
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e.value)
            return v
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x)
            return N
        if isinstance(e, (ast.Starred, ast.Await)):
            return self.ev(e.value)
        return N

    def _imported(self, e):
        r = self.o.p.lookup(self.f.module, e.id)
        if r and r[0] == "var":
            m, n, _ = r[1]
            return self.o.globals.get((m.name, n), N)
        return N

    def _attr(self, e):
        is_self = isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and self.f.cls is not None
        v = self.o.get_attr(self.f.cls, e.attr, is_self)
        if v.hot():
            return v
        r = self.o.p.resolve_expr(self.f.module, e) if not is_self and not (isinstance(e.value, ast.Name) and e.value.id in self.env) else None
        if r and r[0] == "var" and len(r[1]) == 3:
            w = self.o.globals.get((r[1][0].name, r[1][1]), N)
            if w.hot():
                return w
        for m in self.o.methods(e.attr, self.f.cls if is_self else None):
            if m.fi is not None and m.fi.is_property:
                v = join(v, m.ret)
        if not v.hot():
            b = self.ev(e.value)
            if b.k == "L" and e.attr in ("columns", "values", "T", "index", "iloc", "loc"):
                return V("L", b.e, b.why)
        return v

    def targets(self, c):
        """functions of the package a call may reach, and the offset of its arguments"""
        f, o = c.func, self.o
        if isinstance(f, ast.Name):
            if f.id in self.local_fns:
                return [self.local_fns[f.id]], 0
            if f.id in self.env:
                return [], 0
            r = o.p.lookup(self.f.module, f.id)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and self.f.cls is not None:
                return o.methods(f.attr, self.f.cls), 1
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.f.cls is not None:
                out = []
                for b in self.f.cls.mro()[1:]:
                    if f.attr in b.methods:
                        n = b.methods[f.attr].node
                        out = [o.by_node[id(n)]] if id(n) in o.by_node else []
                        break
                return out, 1
            r = None
            if not (isinstance(self._base(f), ast.Name) and self._base(f).id in self.env):
                r = o.p.resolve_expr(self.f.module, f)
            if r is None or r[0] not in ("func", "class"):
                if r is not None and r[0] == "ext":
                    return [], 0
                return o.methods(f.attr), 1
        else:
            return [], 0
        if r and r[0] == "func":
            n = o.by_node.get(id(r[1].node))
            return ([n] if n else []), 0
        if r and r[0] == "class":
            m = r[1].find_method("__init__")
            n = o.by_node.get(id(m.node)) if m else None
            return ([n] if n else []), 1
        return [], 0

    def _base(self, f):
        while isinstance(f, (ast.Attribute, ast.Subscript)):
            f = f.value
        return f

    def call(self, c, stmt):
        o, f = self.o, c.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        args = [self.ev(a) for a in c.args]
        kws = {k.arg: self.ev(k.value) for k in c.keywords}
        full = dotted(f) or ""
        recv = self.ev(f.value) if isinstance(f, ast.Attribute) else None
        tg, off = self.targets(c)
        if tg:
            out = N
            cls_call = False
            for t in tg:
                ps = t.names()
                if t.fi is not None and t.cls is not None and not t.fi.is_staticmethod:
                    off2 = 1
                else:
                    off2 = 0
                for i, (a, v) in enumerate(zip(c.args, args)):
                    if isinstance(a, ast.Starred):
                        break
                    if i + off2 < len(ps):
                        o.bind(self.f, t, ps[i + off2], v)
                        self.passed(t, ps[i + off2], a)
                    elif t.node.args.vararg:
                        o.bind(self.f, t, t.node.args.vararg.arg, V("N", v) if v.hot() else N)
                for k in c.keywords:
                    if k.arg in ps or k.arg in [x.arg for x in t.node.args.kwonlyargs]:
                        o.bind(self.f, t, k.arg, kws[k.arg])
                        self.passed(t, k.arg, k.value)
                    elif k.arg and t.node.args.kwarg:
                        o.bind(self.f, t, t.node.args.kwarg.arg, V("N", kws[k.arg]) if kws[k.arg].hot() else N)
                if t.name != "__init__" or name == "__init__":
                    out = join(out, t.ret)
            return out
        # builtins and external functions
        first = args[0] if args else N
        if recv is None:
            if name in ("set", "frozenset") and isinstance(f, ast.Name):
                return V("U", elem(first) if elem(first).hot() else None, self.at(c))
            if name == "sorted":
                return self._sorted(c, first)
            if name in FORGET:
                if name in ("min", "max") and first.k != "N" and any(k.arg == "key" for k in c.keywords) and not tie_free([k.value for k in c.keywords if k.arg == "key"][0]):
                    return V("L", first.e, first.why)
                return elem(first) if name in ("min", "max") else N
            if name == "next":
                return V("L", first.e, first.why or self.at(c)) if first.k != "N" else elem(first)
            if name in TEXT and recv is None:
                return V("L", None, self.text(first, c)) if first.k != "N" and name != "print" else N
            if name == "enumerate":
                return V("L" if first.k != "N" else "N", V("N", None, None, (N, elem(first))) if elem(first).hot() else None, first.why)
            if name == "zip":
                hot = [a for a in args if a.k != "N"]
                el = [elem(a) for a in args]
                return V("L" if hot else "N", V("N", None, None, tuple(el)) if any(x.hot() for x in el) else None, hot[0].why or self.at(c) if hot else None)
            if name in ("map", "filter"):
                v = args[1] if len(args) > 1 else N
                return seq(v, self.at(c))
            if name == "getattr" and len(c.args) >= 2 and isinstance(c.args[1], ast.Constant):
                return self._attr(ast.copy_location(ast.Attribute(c.args[0], str(c.args[1].value), ast.Load()), c))
            if name in CARRY:
                return seq(first, self.at(c)) if name != "OrderedDict" or args else N
            if name in ("copy", "deepcopy"):
                return first
            if name == "defaultdict":
                if c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == "set":
                    return V("N", V("U", None, self.at(c)))
                if c.args and isinstance(c.args[0], ast.Lambda):
                    v = self.ev(c.args[0].body)
                    return V("N", v if v.hot() else None)
                return N
            return N
        # methods
        mod_call = isinstance(f.value, ast.Name) and f.value.id not in self.env and (o.p.lookup(self.f.module, f.value.id) or ("",))[0] in ("ext", "module")
        if mod_call:
            if name in ("dumps", "dump", "format") and first.k != "N":
                return V("L", None, first.why)
            if name in ("copy", "deepcopy"):
                return first
            if name in CARRY:
                return seq(first, self.at(c))
            if name == "from_iterable":
                return seq(first, self.at(c))
            if name in ("reduce",):
                return args[1] if len(args) > 1 else N
            return N
        if name in SETOPS:
            v = recv
            for a in args:
                if name == "union":
                    v = join(v, V("U", a.e, a.why) if a.hot() else N)
            if any(isinstance(a, ast.Starred) for a in c.args):
                v = join(v, V("U", None, self.at(c)))
            return V("U", v.e, v.why or self.at(c)) if v.k != "N" or name == "union" and not _pandas_like(f.value) else v
        if name in ("append", "extend", "insert", "appendleft", "extendleft", "write", "writelines", "writerow"):
            if name in ("write", "writelines", "writerow"):
                if self.loops or first.k != "N":
                    o.report(self.f, c, "write", self.hotloop() or first)
                return N
            src = args[-1] if args else N
            if name in ("extend", "extendleft"):
                if src.k != "N":
                    self._fill(f.value, V("N", src.e), V(src.k, None, src.why), True)
                self.fill(f.value, V("N", elem(src) if elem(src).hot() else None), True)
            else:
                self.fill(f.value, V("N", src if src.hot() else None), True)
            return N
        if name == "add" and len(args) == 1:
            self.fill(f.value, V("N", first if first.hot() else None), False)
            return N
        if name == "setdefault":
            self.fill(f.value, V("N", args[1] if len(args) > 1 and args[1].hot() else None), True, kind="U")
            return elem(self.ev(f.value))
        if name == "update":
            if recv.k == "U":
                for a in args:
                    self.fill(f.value, V("N", elem(a) if elem(a).hot() else None), False)
                return N
            if first.k == "L" or first.k == "U" and recv.k == "L":
                self._fill(f.value, V("N", first.e), V("L", None, first.why), True, "U")
            self.fill(f.value, V("N", elem(first) if elem(first).hot() else None), True, kind="U")
            return N
        if name == "sort" and isinstance(f.value, ast.Name) and not args:
            kk = [k.value for k in c.keywords if k.arg == "key"]
            if not kk or tie_free(self._fn(kk[0])):
                cur = self.env.get(f.value.id, N)
                self.env[f.value.id] = V("N", cur.e)
            return N
        if name == "pop":
            if recv.k != "N" and not args:
                return V("L", recv.e, recv.why or self.at(c))
            return elem(recv)
        if name in ("popitem", "popleft"):
            return V("L", recv.e, recv.why) if recv.k != "N" else elem(recv)
        if name == "join":
            return V("L", None, self.text(first, c)) if first.k != "N" else N
        if name == "format":
            for a in args + list(kws.values()):
                if a.k != "N":
                    return V("L", None, self.text(a, c))
            return N
        if name in ("copy",):
            return recv
        if name in ("get", ) and recv.hot():
            return join(elem(recv), args[1] if len(args) > 1 else N)
        if name in ("items",) and recv.hot():
            return V(recv.k, V("N", None, None, (N, elem(recv))) if elem(recv).hot() else None, recv.why)
        if name in ("keys", "values", "elements", "most_common") and recv.hot():
            return V(recv.k, recv.e if name == "values" else None, recv.why)
        if name in FORGET_M:
            return N
        if recv.k == "L" and not stmt:
            return V("L", recv.e, recv.why)
        if name in ("rename", "replace", "astype", "fillna", "sum", "mean", "agg", "apply", "groupby", "merge", "isin", "split"):
            return N
        if name in ("add_categories", "set_categories", "reorder_categories") and first.k != "N":
            return N                                 # order of the categories of an unordered categorical
        # a drawing or file being built step by step, in the order of an unordered loop
        if stmt and self.loops and name in ("node", "edge", "subgraph", "attr", "body", "add_node", "add_edge"):
            o.report(self.f, c, "draw", self.hotloop())
        return N

    def _fn(self, k):
        if isinstance(k, ast.Name):
            n = self.local_fns.get(k.id)
            if n is None:
                r = self.o.p.lookup(self.f.module, k.id)
                n = self.o.by_node.get(id(r[1].node)) if r and r[0] == "func" else None
            if n is not None and isinstance(n.node, ast.FunctionDef):
                rets = [x for x in ast.walk(n.node) if isinstance(x, ast.Return) and x.value is not None]
                if len(rets) == 1 and len(n.node.body) <= 2:
                    return ast.Lambda(args=n.node.args, body=rets[0].value)
        return k

    def _sorted(self, c, v):
        kk = [k.value for k in c.keywords if k.arg == "key"]
        if v.k != "N" and kk and not tie_free(self._fn(kk[0])):
            return V("L", v.e, v.why or self.at(c))
        return V("N", elem(v) if elem(v).hot() else None)


def _bound(body):
    """names that the loop body binds afresh with a new collection"""
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
            elif isinstance(x, (ast.For, ast.comprehension)):
                for n in ast.walk(x.target):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                for n in ast.walk(x.optional_vars):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
    return out


def _texty(e):
    return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e))


def _pandas_like(e):
    return isinstance(e, ast.Attribute) and e.attr in ("columns", "index", "categories")
