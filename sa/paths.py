"""A small path-sensitive interpreter of the syntax tree with structural values and an event trace.  A client says which calls
matter (what they return, whether they may fail, which project functions to enter) and which collections a loop visits
element by element; the result is every path's outcome, value and trace.  Nothing is executed."""
import ast
from .index import dotted

NONE = ("const", "None")


class TooBig(Exception):
    pass


class St(object):
    __slots__ = ("env", "trace", "conds")

    def __init__(self, env=None, trace=(), conds=None):
        self.env, self.trace, self.conds = env or {}, trace, conds or {}

    def copy(self):
        return St(dict(self.env), self.trace, dict(self.conds))

    def key(self):
        return (frozenset(self.env.items()), self.trace, frozenset(self.conds.items()))

    def ev(self, *event):
        s = self.copy()
        s.trace = s.trace + (event,)
        return s

    def bind(self, name, v):
        s = self.copy()
        s.env[name] = v
        return s


class Client(object):
    """default meaning of the things an analysis does not care about"""
    loops = 1            # how often an ordinary loop body is run on a path (besides not at all)
    inline = True
    max_depth = 6
    all_raise = False    # may every unknown call fail?
    ordered = False      # are the elements of exactly-once loops visited in the order given?
    qualify = False      # are imported names bound with the module they come from?

    def known(self, v, st):
        """truth of a value, when the analysis knows it"""
        return None

    def call(self, paths, e, name, fval, recv, args, kws, st):
        return None

    def traced(self, name):
        return False

    def attribute(self, paths, e, base, st):
        return None

    def enter(self, fi):
        return self.inline

    def elements(self, val, st):
        """values a loop over val visits, each exactly once; None for an ordinary loop"""
        return None

    def catches(self, handler_types, exc):
        """True, False, or None when both are possible"""
        if not handler_types or "BaseException" in handler_types or "Exception" in handler_types:
            return True
        if exc[0] == "new" and exc[1] in handler_types:
            return True
        return None

    def store(self, paths, target, base, v, st):
        return None

    def binop(self, op, a, b):
        return ("op", op, a, b)

    def text(self, parts):
        return ("text",) + parts

    def subscript(self, paths, e, base, key, st):
        return None

    def setitem(self, paths, target, base, key, v, st):
        """states after an item store the analysis gives a meaning to; None for the default"""
        return None

    def test(self, paths, e, st):
        return None

    def after_loop(self, st, names, before):
        return st

    def keep(self, st):
        return st


class Paths(object):
    def __init__(self, p, client, budget=40000):
        self.p, self.c, self.budget0 = p, client, budget

    def run(self, m, node, fi, env=None):
        self.budget = self.budget0
        self.depth = 0
        self.stack = [id(node)]
        self.module, self.func = m, fi
        self.closures = {}
        st = St(dict(env or {}))
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            st.env.setdefault(x.arg, ("param", x.arg))
        return self.block(node.body, [st])

    # ---- statements ------------------------------------------------------------------
    def block(self, stmts, states):
        outs, cur = [], list(states)
        for s in stmts:
            nxt = []
            for st in cur:
                for o in self.stmt(s, st):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        return self.uniq(outs + [("next", st, NONE) for st in cur])

    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            s = self.c.keep(s)
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > 3000:
            raise TooBig()
        return out

    def uniq(self, outs):
        seen, r = set(), []
        for k, s, v in outs:
            q = (k, v, s.key())
            if q not in seen:
                seen.add(q)
                r.append((k, s, v))
        return r

    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise TooBig()
        out = []
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return [("next", st, NONE)]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                mod = getattr(s, "module", None)
                st = st.bind((a.asname or a.name).split(".")[0], ("name", a.name, mod) if self.c.qualify and mod else ("name", a.name))
            return [("next", st, NONE)]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.closures[id(s)] = (s, self.module, self.func)
            return [("next", st.bind(s.name, ("closure", id(s))), NONE)]
        if isinstance(s, ast.ClassDef):
            return [("next", st, NONE)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [("return", st, NONE)]
            return [("return", n, v) for n, v in self.ev(s.value, st, out)] + out
        if isinstance(s, ast.Raise):
            if s.exc is None:
                return [("raise", st, st.env.get("@exc", ("exc", "?")))]
            for n, v in self.ev(s.exc, st, out):
                out.append(("raise", n, self.as_exc(v)))
            return out
        if isinstance(s, ast.Break):
            return [("break", st, NONE)]
        if isinstance(s, ast.Continue):
            return [("continue", st, NONE)]
        if isinstance(s, ast.Expr):
            return [("next", n, NONE) for n, v in self.ev(s.value, st, out)] + out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [("next", st, NONE)]
            for n, v in self.ev(s.value, st, out):
                cur = [n]
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    cur = [x for y in cur for x in self.assign(t, v, y, out)]
                out += [("next", x, NONE) for x in cur]
            return out
        if isinstance(s, ast.AugAssign):
            for n, v in self.ev(s.value, st, out):
                load = ast.parse(ast.unparse(s.target), mode="eval").body
                for n2, old in self.ev(load, n, out):
                    out += [("next", x, NONE) for x in self.assign(s.target, ("op", type(s.op).__name__, old, v), n2, out)]
            return out
        if isinstance(s, ast.Delete):
            cur = [st]
            for t in s.targets:
                if isinstance(t, ast.Name):
                    nxt = []
                    for n in cur:
                        n = n.copy()
                        n.env.pop(t.id, None)
                        nxt.append(n)
                    cur = nxt
                elif isinstance(t, ast.Subscript):
                    cur = [n2.ev("del", b, i) for n in cur for n1, b in self.ev(t.value, n, out) for n2, i in self.ev(t.slice, n1, out)]
                elif isinstance(t, ast.Attribute):
                    cur = [n1.ev("delattr", b, t.attr) for n in cur for n1, b in self.ev(t.value, n, out)]
            return out + [("next", n, NONE) for n in cur]
        if isinstance(s, ast.Assert):
            t, f = self.test(s.test, st, out)
            return out + [("next", n, NONE) for n in t] + [("raise", n, ("new", "AssertionError", "%s:%d" % (self.module.rel, s.lineno))) for n in f]
        if isinstance(s, ast.If):
            t, f = self.test(s.test, st, out)
            return out + self.block(s.body, self.dedupe(t)) + self.block(s.orelse, self.dedupe(f))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            return self.while_(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s.items, s.body, st)
        if isinstance(s, ast.Try):
            return self.try_(s, st)
        return [("next", st, NONE)]

    def as_exc(self, v):
        if v[0] == "call":
            return ("new", v[1].split(".")[-1], v[-1])
        if v[0] == "name":
            return ("new", v[1].split(".")[-1], "")
        return v

    def while_(self, s, st):
        out, exits = [], []
        t, f = self.test(s.test, st, out)
        exits += f
        first = list(t)
        for i in range(self.c.loops):
            nxt = []
            for k, n, v in self.block(s.body, t):
                if k == "break":
                    out.append(("next", n, NONE))
                elif k in ("next", "continue"):
                    # what the test said before need not hold again
                    n = n.copy()
                    n.conds = {c: b for c, b in n.conds.items() if c in st.conds or not any(c in x.conds for x in first)}
                    t2, f2 = self.test(s.test, n, out)
                    nxt += t2
                    exits += f2
                else:
                    out.append((k, n, v))
            t = self.dedupe(nxt)
        return self.uniq(out + self.block(s.orelse, self.dedupe(exits)))

    def loop(self, s, st):
        out, done = [], []
        for n, v in self.ev(s.iter, st, out):
            els = self.c.elements(v, n)
            if els is not None:
                cur = [n]
                for x in els:
                    nxt = []
                    for m in cur:
                        before = m
                        for m2 in self.assign(s.target, x, m, out):
                            for k, q, w in self.block(s.body, [m2]):
                                if k in ("next", "continue"):
                                    nxt.append(q)
                                elif k == "break":
                                    done.append(q)
                                    # the other elements are not visited
                                    if not self.c.ordered:
                                        done.append(before.ev("skipped", v))
                                else:
                                    out.append((k, q, w))
                                    if k == "raise" and not self.c.ordered:
                                        out.append((k, before.ev("skipped", v, w), w))
                    cur = self.dedupe(nxt)
                done += self.after(s.orelse, cur, out)
                continue
            cur, exits = [n], [n]
            for i in range(self.c.loops):
                nxt = []
                for m in cur:
                    for m2 in self.assign(s.target, ("elem", v), m, out):
                        for k, q, w in self.block(s.body, [m2]):
                            if k in ("next", "continue"):
                                nxt.append(q)
                            elif k == "break":
                                done.append(q)
                            else:
                                out.append((k, q, w))
                cur = self.dedupe(nxt)
                exits += cur
            done += self.after(s.orelse, self.dedupe(exits), out)
        names = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
        return self.uniq(out + [("next", self.c.after_loop(x, names, st), NONE) for x in self.dedupe(done)])

    def after(self, stmts, states, out):
        if not stmts:
            return states
        r = []
        for k, n, v in self.block(stmts, states):
            if k == "next":
                r.append(n)
            else:
                out.append((k, n, v))
        return r

    def with_(self, items, body, st):
        if not items:
            return self.block(body, [st])
        it, out = items[0], []
        e = it.context_expr
        sup = isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "suppress"
        for n, v in self.ev(e, st, out):
            cur = [n]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, ("entered", v), n, out)
            for m in cur:
                m = m.ev("enter", v)
                for k, q, w in self.with_(items[1:], body, m):
                    q = q.ev("exit", v)
                    if sup and k == "raise":
                        c = self.c.catches([(dotted(a) or "?").split(".")[-1] for a in e.args], w)
                        if c is not False:
                            out.append(("next", q, NONE))
                        if c is True:
                            continue
                    out.append((k, q, w))
        return self.uniq(out)

    def try_(self, s, st):
        outs, raised = [], []
        for k, n, v in self.block(s.body, [st]):
            if k == "raise":
                raised.append((n, v))
            elif k == "next":
                outs += self.block(s.orelse, [n])
            else:
                outs.append((k, n, v))
        for n, v in raised:
            live = True
            for h in s.handlers:
                types = [] if h.type is None else [(dotted(t) or "?").split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                c = self.c.catches(types, v)
                if c is False:
                    continue
                m = n.copy()
                saved = m.env.get("@exc")
                m.env["@exc"] = v
                if h.name:
                    m.env[h.name] = v
                for k, q, w in self.block(h.body, [m]):
                    q = q.copy()
                    q.env.pop("@exc", None)
                    if h.name:
                        q.env.pop(h.name, None)
                    if saved is not None:
                        q.env["@exc"] = saved
                    outs.append((k, q, w))
                if c is True:
                    live = False
                    break
            if live:
                outs.append(("raise", n, v))
        outs = self.uniq(outs)
        if s.finalbody:
            r = []
            for k, n, v in outs:
                for k2, n2, v2 in self.block(s.finalbody, [n]):
                    r.append((k, n2, v) if k2 == "next" else (k2, n2, v2))
            outs = self.uniq(r)
        return outs

    # ---- assignment ------------------------------------------------------------------
    def assign(self, t, v, st, out):
        if isinstance(t, ast.Name):
            return [st.bind(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if len(star) == 1 and v[0] in ("tuple", "list") and len(v[1]) >= len(t.elts) - 1 and not any(y and y[0] == "star" for y in v[1]):
                k, tail = star[0], len(t.elts) - star[0] - 1
                end = len(v[1]) - tail
                parts = list(v[1][:k]) + [("list", tuple(v[1][k:end]))] + list(v[1][end:])
                for x, w in zip(t.elts, parts):
                    cur = [n for s in cur for n in self.assign(x.value if isinstance(x, ast.Starred) else x, w, s, out)]
                return cur
            for i, x in enumerate(t.elts):
                w = v[1][i] if v[0] in ("tuple", "list") and i < len(v[1]) and not any(isinstance(y, ast.Starred) for y in t.elts) else ("sub", v, ("const", repr(i)))
                cur = [n for s in cur for n in self.assign(x, w, s, out)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, ("rest", v), st, out)
        if isinstance(t, ast.Attribute):
            r = []
            for n, b in self.ev(t.value, st, out):
                x = self.c.store(self, t, b, v, n)
                r += x if x is not None else [n.ev("setattr", b, t.attr, v, "%s:%d" % (self.module.rel, t.lineno))]
            return r
        if isinstance(t, ast.Subscript):
            r = []
            for n, b in self.ev(t.value, st, out):
                for n2, i in self.ev(t.slice, n, out):
                    x = self.c.setitem(self, t, b, i, v, n2)
                    if x is not None:
                        r += x
                        continue
                    if b[0] == "dict" and isinstance(t.value, ast.Name) and t.value.id in n2.env:
                        n2 = n2.bind(t.value.id, ("dict", b[1] + ((i, v),)))
                    r.append(n2.ev("setitem", b, i, v, "%s:%d" % (self.module.rel, t.lineno)))
            return r
        return [st]

    # ---- expressions -----------------------------------------------------------------
    def ev(self, e, st, out):
        if isinstance(e, ast.Constant):
            return [(st, ("const", repr(e.value)))]
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return [(st, st.env[e.id])]
            return [(st, ("name", e.id))]
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            cur = [(st, ())]
            for x in e.elts:
                cur = [(n, vs + ((("star", v),) if isinstance(x, ast.Starred) else (v,))) for s, vs in cur for n, v in self.ev(x.value if isinstance(x, ast.Starred) else x, s, out)]
            tag = {"Tuple": "tuple", "List": "list", "Set": "set"}[type(e).__name__]
            return [(s, (tag, vs)) for s, vs in cur]
        if isinstance(e, ast.Dict):
            cur = [(st, ())]
            for k, x in zip(e.keys, e.values):
                nxt = []
                for s, vs in cur:
                    for n, kv in (self.ev(k, s, out) if k is not None else [(s, ("star",))]):
                        for n2, v in self.ev(x, n, out):
                            nxt.append((n2, vs + ((kv, v),)))
                cur = nxt
            return [(s, ("dict", vs)) for s, vs in cur]
        if isinstance(e, ast.IfExp):
            t, f = self.test(e.test, st, out)
            return [x for s in t for x in self.ev(e.body, s, out)] + [x for s in f for x in self.ev(e.orelse, s, out)]
        if isinstance(e, ast.BoolOp):
            r, cur = [], [st]
            for i, x in enumerate(e.values):
                if i == len(e.values) - 1:
                    return r + [y for s in cur for y in self.ev(x, s, out)]
                nxt = []
                for s in cur:
                    for n, v in self.ev(x, s, out):
                        t, f = self.decide(v, n)
                        stop, go = (t, f) if isinstance(e.op, ast.Or) else (f, t)
                        r += [(m, v) for m in stop]
                        nxt += go
                cur = nxt
            return r
        if isinstance(e, ast.UnaryOp):
            return [(n, ("op", type(e.op).__name__, v)) for n, v in self.ev(e.operand, st, out)]
        if isinstance(e, ast.BinOp):
            return [(n2, self.c.binop(type(e.op).__name__, a, b)) for n, a in self.ev(e.left, st, out) for n2, b in self.ev(e.right, n, out)]
        if isinstance(e, ast.Compare):
            cur = [(st, ())]
            for x in [e.left] + e.comparators:
                cur = [(n, vs + (v,)) for s, vs in cur for n, v in self.ev(x, s, out)]
            return [(s, ("cmp", tuple(type(o).__name__ for o in e.ops), vs)) for s, vs in cur]
        if isinstance(e, ast.Attribute):
            r = []
            for n, b in self.ev(e.value, st, out):
                x = self.c.attribute(self, e, b, n)
                r += x if x is not None else [(n, ("attr", b, e.attr))]
            return r
        if isinstance(e, ast.Subscript):
            r = []
            for n, b in self.ev(e.value, st, out):
                for n2, i in self.ev(e.slice, n, out):
                    if b[0] in ("tuple", "list") and i[0] == "const":
                        try:
                            r.append((n2, b[1][int(i[1])]))
                            continue
                        except (ValueError, IndexError):
                            pass
                    x = self.c.subscript(self, e, b, i, n2)
                    r += x if x is not None else [(n2, ("sub", b, i))]
            return r
        if isinstance(e, ast.Slice):
            parts = []
            for x in (e.lower, e.upper, e.step):
                parts.append(NONE if x is None else (self.ev(x, st, out) or [(st, NONE)])[0][1])
            return [(st, ("slice",) + tuple(parts))]
        if isinstance(e, ast.NamedExpr):
            return [(x, v) for n, v in self.ev(e.value, st, out) for x in self.assign(e.target, v, n, out)]
        if isinstance(e, ast.Call):
            return self.call(e, st, out)
        if isinstance(e, ast.Lambda):
            self.closures[id(e)] = (e, self.module, self.func)
            return [(st, ("closure", id(e)))]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, st, out)
        if isinstance(e, ast.Starred):
            return [(n, ("star", v)) for n, v in self.ev(e.value, st, out)]
        if isinstance(e, ast.JoinedStr):
            cur = [(st, ())]
            for x in e.values:
                y = x.value if isinstance(x, ast.FormattedValue) else x
                cur = [(n, vs + (v,)) for s, vs in cur for n, v in self.ev(y, s, out)]
            return [(s, self.c.text(vs)) for s, vs in cur]
        if isinstance(e, (ast.Await, ast.Yield, ast.YieldFrom)):
            return [(n.ev("yield", ("from", v[1]) if isinstance(e, ast.YieldFrom) and v[0] in ("list", "tuple") else v), ("sent",)) for n, v in (self.ev(e.value, st, out) if e.value is not None else [(st, NONE)])]
        return [(st, ("other", ast.unparse(e)))]

    def comp(self, e, st, out):
        """a comprehension: its source once, its parts once for each element the client names (else for a typical one)"""
        r = []
        g = e.generators[0]
        for n, v in self.ev(g.iter, st, out):
            els = self.c.elements(v, n)
            cur = [(n, ())]
            for x in (els if els is not None else [("elem", v)]):
                nxt = []
                for m, acc in cur:
                    for m2 in self.assign(g.target, x, m, out):
                        inner = [m2]
                        for h in e.generators[1:]:
                            inner = [b for a in inner for a2, hv in self.ev(h.iter, a, out) for b in self.assign(h.target, ("elem", hv), a2, out)]
                        for h in e.generators:
                            for c in h.ifs:
                                pas = []
                                for a in inner:
                                    t, f = self.test(c, a, out)
                                    pas += t
                                    nxt += [(self.leave(q, n), acc) for q in f]
                                inner = pas
                        for a in inner:
                            if isinstance(e, ast.DictComp):
                                for a1, kv in self.ev(e.key, a, out):
                                    for a2, vv in self.ev(e.value, a1, out):
                                        nxt.append((self.leave(a2, n), acc + ((kv, vv),)))
                            else:
                                for a2, vv in self.ev(e.elt, a, out):
                                    nxt.append((self.leave(a2, n), acc + (vv,)))
                cur = nxt
            tag = {"ListComp": "list", "SetComp": "set", "GeneratorExp": "list", "DictComp": "dict"}[type(e).__name__] if els is not None else "comp"
            r += [(m, (tag, acc)) for m, acc in cur]
        return r

    def leave(self, q, n):
        """the state after a nested scope: its effects, but the outer variables"""
        q = q.copy()
        q.env = heap(n.env, q.env)
        return q

    def call(self, e, st, out):
        f = e.func
        recvs = [(st, None, None)]
        if isinstance(f, ast.Attribute):
            recvs = [(n, v, None) for n, v in self.ev(f.value, st, out)]
            name = f.attr
        elif isinstance(f, ast.Name):
            recvs = [(st, None, st.env.get(f.id))]
            name = f.id
        else:
            recvs = [(n, None, v) for n, v in self.ev(f, st, out)]
            name = ""
        cur = [(n, r, fv, (), ()) for n, r, fv in recvs]
        for a in e.args:
            star = isinstance(a, ast.Starred)
            cur = [(n2, r, fv, vs + ((("star", v),) if star else (v,)), ks) for n, r, fv, vs, ks in cur for n2, v in self.ev(a.value if star else a, n, out)]
        for k in e.keywords:
            cur = [(n2, r, fv, vs, ks + (expand(v) if k.arg is None else ((k.arg, v),))) for n, r, fv, vs, ks in cur for n2, v in self.ev(k.value, n, out)]
        res = []
        for n, r, fv, vs, ks in cur:
            for k, s2, v in self.apply(e, name, fv, r, vs, ks, n):
                if k == "raise":
                    out.append((k, s2, v))
                else:
                    res.append((s2, v))
        return res

    def loc(self, e):
        return "%s:%d" % (self.module.rel, e.lineno)

    def apply(self, e, name, fv, recv, vs, ks, st):
        x = self.c.call(self, e, name, fv, recv, vs, ks, st)
        if x is not None:
            return x
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in st.env and recv is not None:
            # a container built here and held by a variable
            if recv[0] == "list" and name in ("append", "add", "insert") and vs:
                return [("next", st.bind(f.value.id, ("list", recv[1] + (vs[-1],))), NONE)]
            if recv[0] == "list" and name == "extend" and len(vs) == 1:
                more = vs[0][1] if vs[0][0] in ("list", "tuple") else (("star", vs[0]),)
                return [("next", st.bind(f.value.id, ("list", recv[1] + more)), NONE)]
            if recv[0] == "dict" and name == "update" and len(vs) + len(ks) == 1:
                more = vs[0][1] if vs and vs[0][0] == "dict" else ((("star",), vs[0] if vs else ks[0][1]),)
                return [("next", st.bind(f.value.id, ("dict", recv[1] + more)), NONE)]
        if fv is not None and fv[0] == "closure":
            node, m, fi = self.closures[fv[1]]
            return self.enter(node, m, fi, None, vs, ks, st, dict(st.env))
        fi = self.target(e.func, st)
        if fi is not None and self.c.enter(fi) and len(self.stack) <= self.c.max_depth and id(fi.node) not in self.stack:
            return self.enter(fi.node, fi.module, fi, recv, vs, ks, st, None, cls=isinstance(e.func, ast.Name) and fi.cls is not None)
        v = ("call", name or "?", recv, vs, ks, self.loc(e))
        if fv is not None:
            v = ("call", "()", fv, vs, ks, self.loc(e))
        r = [("next", st.ev("call", name, recv, vs, ks, self.loc(e)) if self.c.traced(name) else st, v)]
        if self.c.all_raise:
            r.append(("raise", st, ("exc", self.loc(e))))
        return r

    def target(self, f, st):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and self.func is not None and self.func.cls is not None:
            return self.func.cls.find_method(f.attr)
        if isinstance(f, ast.Name) and f.id in st.env and st.env[f.id][0] not in ("name",):
            return None
        r = self.p.resolve_expr(self.module, f)
        if r is not None and r[0] == "func":
            return r[1]
        return None

    def enter(self, node, m, fi, recv, vs, ks, st, closure, cls=False):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = closure or {}
        if fi is not None and fi.cls is not None and names and names[0] in ("self", "cls"):
            env[names[0]] = recv if recv is not None else ("name", names[0])
            names = names[1:]
        allp = a.posonlyargs + a.args
        for x, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
            env[x.arg] = ("const", repr(d.value)) if isinstance(d, ast.Constant) else ("default", ast.unparse(d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                env[x.arg] = ("const", repr(d.value)) if isinstance(d, ast.Constant) else ("default", ast.unparse(d))
        rest = []
        starred = False
        for i, v in enumerate(vs):
            if v[0] == "star":
                starred = True
                if v[1][0] in ("tuple", "list"):
                    continue
                rest.append(v)
            elif not starred and i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = rest[0][1] if len(rest) == 1 and rest[0][0] == "star" and not [v for v in vs[:-1]][len(names):] else ("tuple", tuple(rest))
        extra = []
        kwnames = set(x.arg for x in allp + a.kwonlyargs)
        for k, v in ks:
            if k in kwnames:
                env[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            env[a.kwarg.arg] = extra[0][1] if len(extra) == 1 and extra[0][0] == "**" else ("dict", tuple((("const", repr(k)), v) for k, v in extra))
        for x in allp + a.kwonlyargs:
            env.setdefault(x.arg, ("param", x.arg))
        save = (self.module, self.func)
        self.module, self.func = m, fi
        self.stack.append(id(node))
        s = st.copy()
        s.env = heap(env, st.env)
        if "@exc" in st.env:
            s.env["@exc"] = st.env["@exc"]
        try:
            if isinstance(node, ast.Lambda):
                o2 = []
                outs = [("return", n, v) for n, v in self.ev(node.body, s, o2)] + o2
            else:
                outs = self.block(node.body, [s])
        finally:
            self.module, self.func = save
            self.stack.pop()
        r = []
        for k, n, v in outs:
            n = n.copy()
            n.env = heap(st.env, n.env)
            if k == "raise":
                r.append(("raise", n, v))
            elif k in ("return", "next"):
                r.append(("next", n, v))
        return self.uniq(r)

    # ---- conditions ------------------------------------------------------------------
    def truth(self, v, st):
        if v[0] == "const":
            return v[1] not in ("None", "False", "0", "''", "0.0")
        if v[0] in ("tuple", "list", "dict", "set"):
            if v[1] and not all(x and x[0] == "star" for x in v[1]):
                return True
            return False if v[0] == "tuple" and not v[1] else None
        if v in st.conds:
            return st.conds[v]
        return self.c.known(v, st)

    def test(self, e, st, out):
        x = self.c.test(self, e, st)
        if x is not None:
            return x
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.test(e.operand, st, out)
            return f, t
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, short = [st], []
            for x in e.values:
                nxt = []
                for s in cur:
                    t, f = self.test(x, s, out)
                    nxt += t if is_and else f
                    short += f if is_and else t
                cur = nxt
            return (cur, short) if is_and else (short, cur)
        t, f = [], []
        for n, v in self.ev(e, st, out):
            a, b = self.decide(v, n)
            t += a
            f += b
        return t, f

    def decide(self, v, n):
        neg = False
        while v[0] == "op" and v[1] == "Not":
            v, neg = v[2], not neg
        if v[0] == "cmp" and len(v[1]) == 1 and v[1][0] in ("IsNot", "NotEq", "NotIn"):
            v = ("cmp", ({"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}[v[1][0]],), v[2])
            neg = not neg
        if v[0] == "cmp" and v[1] in (("Is",), ("Eq",)) and v[2][0][0] == "const" and v[2][1][0] == "const":
            r = v[2][0][1] == v[2][1][1]
            r = r != neg
            return ([n], []) if r else ([], [n])
        if v[0] == "cmp" and v[1] == ("Is",) and v[2][1] == NONE and v[2][0][0] in ("tuple", "list", "dict", "set", "closure", "comp", "op", "cmp", "text"):
            return ([n], []) if neg else ([], [n])
        tr = self.truth(v, n)
        if tr is not None:
            tr = tr != neg
            return ([n], []) if tr else ([], [n])
        a, b = n.copy(), n.copy()
        a.conds[v], b.conds[v] = not neg, neg
        return [a], [b]


def heap(env, other):
    """the variables of env with the objects (whose names start with @@) of other"""
    r = {k: v for k, v in env.items() if not (isinstance(k, str) and k.startswith("@@"))}
    r.update((k, v) for k, v in other.items() if isinstance(k, str) and k.startswith("@@"))
    return r


def expand(v):
    """keywords passed with **v"""
    if v[0] == "dict" and all(len(x) == 2 and x[0][0] == "const" for x in v[1]):
        return tuple((k[1].strip("'"), y) for k, y in v[1])
    return (("**", v),)


def has(v, pred):
    """does a value contain a part satisfying the predicate?"""
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            return True
        return any(has(x, pred) for x in v if isinstance(x, tuple))
    return False
