"""Ownership typestate: a path-sensitive abstract interpreter over the syntax tree that follows every resource a function
opens (handles, temporary directories, clusters, clients) through assignments, containers, helpers, with blocks, handlers
and finally blocks to every normal and exceptional exit.  Project functions that open or close something are entered."""
import ast
from .index import dotted

OPEN_NAMES = {"open", "LocalCluster", "Client", "TemporaryDirectory", "NamedTemporaryFile", "TemporaryFile", "SpooledTemporaryFile", "mkdtemp",
              "ThreadPoolExecutor", "ProcessPoolExecutor", "Pool", "ThreadPool", "urlopen", "ZipFile", "TarFile", "fdopen", "popen", "Popen", "socket"}
CLOSE = {"close", "cleanup", "shutdown", "terminate", "__exit__", "release"}
SAFE = {"isinstance", "len", "print", "str", "repr", "type", "id", "bool", "list", "dict", "set", "tuple", "hasattr", "callable", "issubclass", "range",
        "suppress", "ExitStack", "reversed", "object", "super", "frozenset", "warning", "info", "debug", "format", "time", "getLogger"}
NONE = ("none",)


class State(object):
    __slots__ = ("env", "res", "lists", "conds")

    def __init__(self, env=None, res=None, lists=None, conds=None):
        self.env, self.res, self.lists, self.conds = env or {}, res or {}, lists or {}, conds or {}

    def copy(self):
        return State(dict(self.env), dict(self.res), dict(self.lists), dict(self.conds))

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.env.items())), tuple(sorted((k, v) for k, v in self.res.items())),
                tuple(sorted((k, repr(v)) for k, v in self.lists.items())), tuple(sorted(self.conds.items())))

    def with_env(self, env):
        s = self.copy()
        s.env = dict(env)
        return s


class TooBig(Exception):
    pass


class Opened(object):
    def __init__(self, what, loc, node):
        self.what, self.loc, self.node = what, loc, node


class Ownership(object):
    def __init__(self, p, depth=5):
        self.p, self.maxdepth = p, depth
        self.opened = {}        # rid -> Opened
        self.borrowed = []      # (text, loc, root)
        self.called = set()     # functions entered from another function
        self.interesting = {}
        self.summaries = {}
        self.slices = {}

    # ---- which functions matter -------------------------------------------------
    def prepare(self):
        self.funcs = []
        for m in self.p.modules.values():
            if ".tests" in m.name or m.name.startswith("featuretools.demo"):
                continue
            by_node = {id(f.node): f for f in self.p.functions if f.module is m}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs.append((m, n, by_node.get(id(n))))
        direct = {}
        for m, n, fi in self.funcs:
            direct[id(n)] = any(isinstance(x, ast.Call) and self.opens_syntactically(x) or
                                isinstance(x, ast.Attribute) and x.attr in CLOSE or
                                isinstance(x, ast.Name) and x.id in OPEN_NAMES for x in own_nodes(n))
        self.direct = direct
        self.mod = {id(n): m for m, n, fi in self.funcs}
        changed = True
        while changed:
            changed = False
            for m, n, fi in self.funcs:
                if direct[id(n)]:
                    continue
                for x in own_nodes(n):
                    if isinstance(x, ast.Call):
                        t = self.target(m, x.func, fi)
                        if t is not None and direct.get(id(t.node)):
                            direct[id(n)] = True
                            changed = True
                            break
        self.interesting = direct

    def opens_syntactically(self, call):
        f = call.func
        if isinstance(f, ast.Name):
            return f.id in OPEN_NAMES
        if isinstance(f, ast.Attribute):
            return f.attr in OPEN_NAMES
        return False

    def target(self, m, fnode, fi):
        if isinstance(fnode, ast.Attribute) and isinstance(fnode.value, ast.Name) and fnode.value.id in ("self", "cls") and fi is not None and fi.cls is not None:
            return fi.cls.find_method(fnode.attr)
        r = self.p.resolve_expr(m, fnode)
        if r is not None and r[0] == "func":
            return r[1]
        if r is not None and r[0] == "class":
            return r[1].find_method("__init__")
        return None

    # ---- running -------------------------------------------------------------------
    def run_root(self, m, node, fi):
        self.root = (m, node, fi)
        self.depth = 0
        self.module, self.func = m, fi
        st = State()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            st.env[x.arg] = ("text", x.arg, x.arg not in ("self", "cls"))
        self.budget = 100000
        self.active = [id(node)]
        self.tracked = self.names_that_matter(node, m, fi, frozenset())
        return self.block(node.body, [st])

    # ---- slicing: statements that cannot touch a resource only fail or go on --------
    def call_matters(self, c, m, fi):
        if self.opens_syntactically(c):
            return True
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr in CLOSE or isinstance(f, ast.Name) and f.id in ("rmtree", "closing", "ExitStack"):
            return True
        if isinstance(f, ast.Attribute) and f.attr in ("rmtree", "closing", "ExitStack", "enter_context"):
            return True
        t = self.target(m, f, fi)
        return t is not None and bool(self.interesting.get(id(t.node))) and self.hands_out(t.node, t.module, t)

    def names_that_matter(self, node, m, fi, given):
        k = (id(node), given)
        if k in self.slices:
            return self.slices[k]
        names = set(given) | OPEN_NAMES
        for x in ast.walk(node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not node and self.interesting.get(id(x)):
                names.add(x.name)
            if isinstance(x, ast.Attribute) and x.attr in CLOSE:
                names |= flow_names(x.value)
        while True:
            before = len(names)
            for x in ast.walk(node):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None:
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    tn = {y.id for t in ts for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                    if tn & names:
                        names |= flow_names(x.value)
                    if flow_names(x.value) & names or any(isinstance(c, ast.Call) and self.call_matters(c, m, fi) for c in ast.walk(x.value)):
                        names |= tn
                elif isinstance(x, (ast.For, ast.AsyncFor)):
                    tn = {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                    if tn & names:
                        names |= flow_names(x.iter)
                    elif flow_names(x.iter) & names:
                        names |= tn
                elif isinstance(x, (ast.With, ast.AsyncWith)):
                    for i in x.items:
                        tn = {y.id for y in ast.walk(i.optional_vars) if isinstance(y, ast.Name)} if i.optional_vars is not None else set()
                        if flow_names(i.context_expr) & names or any(isinstance(c, ast.Call) and self.call_matters(c, m, fi) for c in ast.walk(i.context_expr)):
                            names |= tn | flow_names(i.context_expr)
                elif isinstance(x, (ast.If, ast.While)):
                    if any(self.matters(y, names, m, fi) for y in x.body + x.orelse):
                        names |= {y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)}
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "extend", "insert", "push", "callback", "enter_context"):
                    if any(flow_names(a) & names or isinstance(a, ast.Call) and self.call_matters(a, m, fi) for a in x.args):
                        names |= flow_names(x.func.value)
            if len(names) == before:
                break
        self.slices[k] = names
        return names

    def matters(self, s, names, m, fi):
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and self.call_matters(x, m, fi):
                return True
            if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name in names:
                return True
            if isinstance(x, ast.Name) and x.id in names and x.id not in OPEN_NAMES:
                return True
        return False

    def effects_of(self, s, st):
        """outcomes of a statement that touches no resource"""
        kinds = {"next", "raise"}
        stack, inloop = [(s, False)], False
        while stack:
            x, loop = stack.pop()
            if isinstance(x, ast.Return):
                kinds.add("return")
            elif isinstance(x, ast.Break) and not loop:
                kinds.add("break")
            elif isinstance(x, ast.Continue) and not loop:
                kinds.add("continue")
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            for y in ast.iter_child_nodes(x):
                stack.append((y, loop or isinstance(x, (ast.For, ast.AsyncFor, ast.While))))
        if isinstance(s, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
            kinds.discard("next")
        if isinstance(s, (ast.Break, ast.Continue, ast.Pass, ast.Global, ast.Nonlocal, ast.FunctionDef)) or isinstance(s, ast.Return) and s.value is None or \
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.Name)) and all(isinstance(t, ast.Name) for t in s.targets):
            kinds.discard("raise")
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in SAFE \
                and not any(isinstance(y, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp)) for a in s.value.args for y in ast.walk(a)):
            kinds.discard("raise")
        return [(k, st, NONE) for k in sorted(kinds)]

    def block(self, stmts, states):
        """outcomes [(kind, state, value)] of running the statements from each state"""
        outs, cur = [], states
        for s in stmts:
            nxt = []
            for st in cur:
                for o in self.stmt(s, st):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        return self.dedupe_outs(outs + [("next", st, NONE) for st in cur])

    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            if any(x not in self.tracked and v[0] == "text" and not v[2] for x, v in s.env.items()) and not self.closures:
                s = s.with_env({x: v for x, v in s.env.items() if x in self.tracked or v[0] != "text" or v[2]})
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > 1000:
            raise TooBig()
        return out

    def dedupe_outs(self, outs):
        seen, r = set(), []
        for k, s, v in outs:
            q = (k, repr(v), s.key()) if k != "raise" else (k, "", s.key())
            if q not in seen:
                seen.add(q)
                r.append((k, s, v))
        return r

    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise TooBig()
        if not self.matters(s, self.tracked, self.module, self.func):
            return self.effects_of(s, st)
        out = []
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return [("next", st, NONE)]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n = st.copy()
            n.env[s.name] = ("closure", id(s))
            self.closures[id(s)] = (s, self.module, self.func)
            return [("next", n, NONE)]
        if isinstance(s, ast.ClassDef):
            return [("next", st, NONE)]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            n = st.copy()
            for a in s.names:
                n.env[(a.asname or a.name).split(".")[0]] = ("text", a.name, False)
            return [("raise", st, NONE), ("next", n, NONE)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [("return", st, NONE)]
            for n, v in self.ev(s.value, st, out):
                out.append(("return", n, v))
            return out
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    for n, v in self.ev(x, st, out):
                        st = n
            return out + [("raise", st, NONE)]
        if isinstance(s, ast.Break):
            return [("break", st, NONE)]
        if isinstance(s, ast.Continue):
            return [("continue", st, NONE)]
        if isinstance(s, ast.Expr):
            for n, v in self.ev(s.value, st, out):
                out.append(("next", n, NONE))
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [("next", st, NONE)]
            for n, v in self.ev(s.value, st, out):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    n = self.assign(t, v, n, s.value, out)
                out.append(("next", n, NONE))
            return out
        if isinstance(s, ast.AugAssign):
            for n, v in self.ev(s.value, st, out):
                if isinstance(s.target, ast.Name):
                    n = n.copy()
                    old = n.env.get(s.target.id, NONE)
                    if old[0] == "list" and v[0] in ("list", "tuple"):
                        n.lists[old[1]] = n.lists[old[1]] + (n.lists[v[1]] if v[0] == "list" else v[1])
                    else:
                        n.env[s.target.id] = ("text", "%s@%d" % (s.target.id, s.lineno), False)
                out.append(("next", n, NONE))
            return out
        if isinstance(s, ast.Delete):
            n = st.copy()
            for t in s.targets:
                if isinstance(t, ast.Name):
                    n.env.pop(t.id, None)
            return [("next", n, NONE)] + ([("raise", st, NONE)] if any(not isinstance(t, ast.Name) for t in s.targets) else [])
        if isinstance(s, ast.Assert):
            for n, v in self.ev(s.test, st, out):
                out.append(("next", n, NONE))
                out.append(("raise", n, NONE))
            return out
        if isinstance(s, ast.If):
            t, f = self.test(s.test, st, out)
            return out + self.block(s.body, t) + self.block(s.orelse, f)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            t, f = self.test(s.test, st, out)
            exits = list(f)
            for k, n, v in self.block(s.body, t):
                if k == "break":
                    out.append(("next", n, NONE))
                elif k in ("next", "continue"):
                    t2, f2 = self.test(s.test, n, out)
                    exits += f2
                else:
                    out.append((k, n, v))
            return out + self.block(s.orelse, self.dedupe(exits))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s.items, s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            return self.try_(s, st)
        return [("next", st, NONE)]

    def try_(self, s, st):
        outs = []
        raised = []
        for k, n, v in self.block(s.body, [st]):
            if k == "raise":
                raised.append(n)
            elif k == "next":
                outs += self.block(s.orelse, [n])
            else:
                outs.append((k, n, v))
        raised = self.dedupe(raised)
        uncaught = list(raised)
        for h in s.handlers:
            broad = h.type is None or any((dotted(t) or "").split(".")[-1] in ("Exception", "BaseException") for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))
            entry = []
            for n in raised:
                m = n.copy()
                if h.name:
                    m.env[h.name] = ("text", "exc@%d" % h.lineno, False)
                entry.append(m)
            outs += self.block(h.body, entry)
            if broad:
                uncaught = []
                break
        outs += [("raise", n, NONE) for n in uncaught]
        outs = self.dedupe_outs(outs)
        if s.finalbody:
            res = []
            for k, n, v in outs:
                for k2, n2, v2 in self.block(s.finalbody, [n]):
                    res.append((k, n2, v) if k2 == "next" else (k2, n2, v2))
            outs = self.dedupe_outs(res)
        return outs

    def with_(self, items, body, st):
        if not items:
            return self.block(body, [st])
        it, out = items[0], []
        e = it.context_expr
        swallow = isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "suppress"
        for n, v in self.ev(e, st, out, managed=True):
            if v[0] == "text" and v[2]:
                self.borrowed.append((v[1], "%s:%d" % (self.module.rel, e.lineno), self.root))
            if v[0] == "stack":
                pass
            if it.optional_vars is not None:
                n = self.assign(it.optional_vars, v, n, e, out)
            for k, m, w in self.with_(items[1:], body, n):
                m = self.leave(v, m)
                if k == "raise" and swallow:
                    out.append(("next", m, NONE))
                    if any((dotted(x) or "").split(".")[-1] in ("Exception", "BaseException") for x in e.args):
                        continue
                out.append((k, m, w))
        return out

    def leave(self, v, st):
        if v[0] == "res":
            st = st.copy()
            st.res[v[1]] = "closed"
        elif v[0] == "list":
            st = st.copy()
            for x in st.lists.get(v[1], ()):
                if x[0] == "res":
                    st.res[x[1]] = "closed"
            st.lists[v[1]] = ()
        return st

    def loop(self, s, st):
        out = []
        res = []
        for n, v in self.ev(s.iter, st, out):
            vals = None
            if v[0] == "list":
                vals = n.lists.get(v[1], ())
            elif v[0] == "tuple":
                vals = v[1]
            if vals is not None and any(x[0] in ("res", "none", "bound") for x in vals) or vals == ():
                cur = [n]
                for x in vals:
                    nxt = []
                    for m in cur:
                        m2 = self.assign(s.target, x, m, None, out)
                        for k, q, w in self.block(s.body, [m2]):
                            if k in ("next", "continue"):
                                nxt.append(q)
                            elif k == "break":
                                res.append(q)
                            else:
                                out.append((k, q, w))
                    cur = self.dedupe(nxt)
                res += cur
                continue
            cur, exits = [n], [n]
            out.append(("raise", n, NONE))
            for i in range(2):
                nxt = []
                for m in cur:
                    m2 = self.assign(s.target, ("text", "elem@%d" % s.lineno, False), m, None, out)
                    for k, q, w in self.block(s.body, [m2]):
                        if k in ("next", "continue"):
                            nxt.append(q)
                        elif k == "break":
                            res.append(q)
                        else:
                            out.append((k, q, w))
                new = self.dedupe(nxt)
                exits += new
                if {x.key() for x in new} <= {x.key() for x in cur}:
                    break
                cur = new
            res += self.block_states(s.orelse, self.dedupe(exits), out)
        return out + [("next", x, NONE) for x in self.dedupe(res)]

    def block_states(self, stmts, states, out):
        if not stmts:
            return states
        r = []
        for k, n, v in self.block(stmts, states):
            if k == "next":
                r.append(n)
            else:
                out.append((k, n, v))
        return r

    # ---- values ---------------------------------------------------------------------
    def assign(self, t, v, st, vnode, out):
        st = st.copy()
        if isinstance(t, ast.Name):
            st.env[t.id] = v if v[0] != "text" or v[1] else ("text", "%s@%d" % (t.id, t.lineno), False)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v[1] if v[0] == "tuple" else st.lists.get(v[1]) if v[0] == "list" else None
            for i, x in enumerate(t.elts):
                if vals is not None and i < len(vals):
                    st = self.assign(x, vals[i], st, None, out)
                else:
                    st = self.assign(x, ("text", "%s[%d]" % (v[1] if v[0] == "text" else "v@%d" % t.lineno, i), v[0] == "text" and v[2]), st, None, out)
        elif isinstance(t, ast.Attribute):
            # kept in an object: the object owns it from here
            for r in self.resources(v, st):
                st.res[r] = "kept"
        elif isinstance(t, ast.Starred):
            return self.assign(t.value, ("text", "", False), st, None, out)
        return st

    def resources(self, v, st):
        if v[0] == "res":
            return [v[1]]
        if v[0] == "tuple":
            return [r for x in v[1] for r in self.resources(x, st)]
        if v[0] == "list":
            return [r for x in st.lists.get(v[1], ()) for r in self.resources(x, st)]
        return []

    def text(self, node, st):
        """canonical text of an expression in a state"""
        if isinstance(node, ast.Name):
            v = st.env.get(node.id)
            if v is not None and v[0] == "text":
                return v[1]
            return node.id
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("dict", "list", "set", "tuple") and len(node.args) == 1 and not node.keywords:
            return self.text(node.args[0], st)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "keys") and not node.args:
            return self.text(node.func.value, st)
        if isinstance(node, ast.Attribute):
            return self.text(node.value, st) + "." + node.attr
        if isinstance(node, ast.Subscript):
            return "%s[%s]" % (self.text(node.value, st), self.text(node.slice, st))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("get", "pop") and node.args:
            return "%s[%s]" % (self.text(node.func.value, st), self.text(node.args[0], st))
        return ast.unparse(node)

    def ev(self, e, st, out, managed=False):
        """[(state, value)]; states in which the evaluation fails go to out as raise outcomes"""
        if isinstance(e, ast.Constant):
            return [(st, NONE if e.value is None else ("text", repr(e.value), False))]
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return [(st, st.env[e.id])]
            return [(st, ("text", e.id, False))]
        if isinstance(e, (ast.Tuple, ast.List)):
            cur = [(st, ())]
            for x in e.elts:
                nxt = []
                for s, vs in cur:
                    for n, v in self.ev(x.value if isinstance(x, ast.Starred) else x, s, out):
                        nxt.append((n, vs + (v,)))
                cur = nxt
            if isinstance(e, ast.List):
                r = []
                for s, vs in cur:
                    lid = "l%s:%d:%d:%d" % (self.module.name, e.lineno, e.col_offset, self.depth)
                    s = s.copy()
                    s.lists[lid] = vs
                    r.append((s, ("list", lid)))
                return r
            return [(s, ("tuple", vs)) for s, vs in cur]
        if isinstance(e, ast.IfExp):
            t, f = self.test(e.test, st, out)
            return [x for s in t for x in self.ev(e.body, s, out)] + [x for s in f for x in self.ev(e.orelse, s, out)]
        if isinstance(e, ast.BoolOp):
            # the value of the last operand reached; an empty default stands for the missing argument
            cur, r = [(st, None)], []
            for i, x in enumerate(e.values):
                nxt = []
                for s, _ in cur:
                    for n, v in self.ev(x, s, out):
                        if i + 1 < len(e.values):
                            if v[0] in ("res", "bound") or v == ("text", "True", False):
                                (r if isinstance(e.op, ast.Or) else nxt).append((n, v))
                                continue
                            if v == NONE or v == ("text", "False", False):
                                (nxt if isinstance(e.op, ast.Or) else r).append((n, v))
                                continue
                            r.append((n, v))
                        nxt.append((n, v))
                cur = nxt
            return r + cur
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.test(e, st, out)
            return [(s, ("text", "True", False)) for s in t] + [(s, ("text", "False", False)) for s in f]
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            r = []
            for s, v in (self.ev(e.value, st, out) if e.value is not None else [(st, NONE)]):
                out.append(("raise", s, NONE))
                r.append((s, ("text", "", False)))
            return r
        if isinstance(e, ast.NamedExpr):
            return [(self.assign(e.target, v, n, e.value, out), v) for n, v in self.ev(e.value, st, out)]
        if isinstance(e, ast.Call):
            return self.call(e, st, out, managed)
        if isinstance(e, ast.Attribute):
            r = []
            for n, v in self.ev(e.value, st, out):
                if v[0] == "res" and e.attr in CLOSE:
                    r.append((n, ("bound", v[1], e.attr)))
                elif v[0] == "text":
                    r.append((n, ("text", v[1] + "." + e.attr if v[1] else "", v[2])))
                else:
                    r.append((n, ("text", "", False)))
            return r
        if isinstance(e, ast.Subscript):
            r = []
            for n, v in self.ev(e.value, st, out):
                for n2, i in self.ev(e.slice, n, out):
                    out.append(("raise", n2, NONE))
                    vals = v[1] if v[0] == "tuple" else n2.lists.get(v[1]) if v[0] == "list" else None
                    if vals is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(vals) <= e.slice.value < len(vals):
                        r.append((n2, vals[e.slice.value]))
                    elif v[0] == "text" and v[2] and isinstance(e.slice, ast.Constant):
                        r.append((n2, ("text", "%s[%r]" % (v[1], e.slice.value), True, "part")))
                    else:
                        r.append((n2, ("text", "", False)))
            return r
        if isinstance(e, (ast.Lambda,)):
            return [(st, ("text", "", False))]
        # anything else: evaluate the parts in order
        cur = [st]
        kids = [k for k in ast.iter_child_nodes(e) if isinstance(k, ast.expr)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            r = []
            for n, v in self.ev(e.generators[0].iter, st, out):
                vals = n.lists.get(v[1]) if v[0] == "list" else v[1] if v[0] == "tuple" else None
                out.append(("raise", n, NONE))
                # [x.close() for x in opened]
                done = n
                if isinstance(e, (ast.ListComp, ast.SetComp)) and isinstance(e.elt, ast.Call) and isinstance(e.elt.func, ast.Attribute) and e.elt.func.attr in CLOSE and vals:
                    done = n.copy()
                    for x in vals:
                        if x[0] == "res":
                            done.res[x[1]] = "closed"
                elif any(isinstance(x, ast.Call) and self.opens_syntactically(x) for x in ast.walk(e)):
                    done = n.copy()
                    for x in ast.walk(e):
                        if isinstance(x, ast.Call) and self.opens_syntactically(x):
                            done = self.new(x, done, "")[0]
                r.append((done, ("text", "", False)))
            return r
        for k in kids:
            nxt = []
            for s in cur:
                nxt += [n for n, v in self.ev(k, s, out)]
            cur = self.dedupe(nxt)
        if isinstance(e, (ast.BinOp, ast.DictComp)):
            for s in cur:
                out.append(("raise", s, NONE))
        return [(s, ("text", "", False)) for s in cur]

    def new(self, e, st, what):
        rid = "%s:%d:%d:%d" % (self.module.rel, e.lineno, e.col_offset, self.depth)
        if rid not in self.opened:
            self.opened[rid] = Opened(what or ast.unparse(e.func), "%s:%d" % (self.module.rel, e.lineno), e)
        st = st.copy()
        st.res[rid] = "open"
        return st, ("res", rid)

    def call(self, e, st, out, managed=False):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        # receiver
        recv = [(st, None)]
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st, out)
        elif not isinstance(f, ast.Name):
            recv = [(n, None) for n, v in self.ev(f, st, out)]
        # arguments
        cur = [(n, r, (), ()) for n, r in recv]
        for a in e.args:
            a = a.value if isinstance(a, ast.Starred) else a
            cur = [(n2, r, vs + (v,), ks) for n, r, vs, ks in cur for n2, v in self.ev(a, n, out)]
        for k in e.keywords:
            cur = [(n2, r, vs, ks + ((k.arg, v),)) for n, r, vs, ks in cur for n2, v in self.ev(k.value, n, out)]
        res = []
        for n, r, vs, ks in cur:
            res += self.apply(e, name, r, vs, ks, n, out, managed)
        return res

    def apply(self, e, name, recv, vs, ks, st, out, managed):
        f = e.func
        fv = st.env.get(f.id) if isinstance(f, ast.Name) else None
        if fv is not None and fv[0] == "bound":
            recv, name = ("res", fv[1]), fv[2]
        # release
        if name in CLOSE and recv is not None:
            n = st
            if recv[0] == "res":
                n = st.copy()
                n.res[recv[1]] = "closed"
            elif recv[0] == "list":
                n = self.leave(recv, st)
            elif recv[0] == "text" and recv[2]:
                self.borrowed.append((recv[1], "%s:%d" % (self.module.rel, e.lineno), self.root))
            out.append(("raise", n, NONE))
            return [(n, NONE)]
        if name in ("rmtree", "closing", "close") and vs and vs[0][0] == "res":
            if name == "closing":
                return [(st, vs[0])]
            n = st.copy()
            n.res[vs[0][1]] = "closed"
            out.append(("raise", n, NONE))
            return [(n, NONE)]
        # exit stacks and lists of resources
        if name == "ExitStack":
            lid = "x%s:%d:%d" % (self.module.name, e.lineno, self.depth)
            n = st.copy()
            n.lists[lid] = ()
            return [(n, ("list", lid))]
        if recv is not None and recv[0] == "list" and name in ("append", "add", "enter_context", "push", "callback", "insert", "extend"):
            n = st.copy()
            for v in vs:
                add = (("res", v[1]),) if v[0] == "bound" else (v,)
                if v[0] in ("list", "tuple") and name == "extend":
                    add = n.lists[v[1]] if v[0] == "list" else v[1]
                n.lists[recv[1]] = n.lists.get(recv[1], ()) + tuple(add)
            return [(n, vs[0] if name == "enter_context" and vs else NONE)]
        if recv is not None and recv[0] == "list" and name == "pop_all":
            n = st.copy()
            lid = recv[1] + "p"
            n.lists[lid] = n.lists.get(recv[1], ())
            n.lists[recv[1]] = ()
            return [(n, ("list", lid))]
        if recv is not None and recv[0] == "list" and name == "pop":
            n = st.copy()
            vals = n.lists.get(recv[1], ())
            if vals:
                n.lists[recv[1]] = vals[:-1]
                return [(n, vals[-1])]
        if recv is not None and recv[0] == "text" and name in ("append", "add") and any(v[0] == "res" for v in vs):
            n = st.copy()
            for v in vs:
                if v[0] == "res":
                    n.res[v[1]] = "given" if recv[2] else n.res[v[1]]
            return [(n, NONE)]
        if name in ("reversed", "list", "tuple", "iter", "sorted", "filter") and isinstance(f, ast.Name) and vs and vs[-1][0] in ("list", "tuple"):
            v = vs[-1]
            return [(st, ("tuple", tuple(reversed(st.lists.get(v[1], ()) if v[0] == "list" else v[1]))))] if name == "reversed" else [(st, v)]
        if name in ("dict", "copy") and (vs and vs[0][0] == "text" or recv is not None and recv[0] == "text") and not ks:
            v = vs[0] if vs else recv
            if name == "dict" or not vs:
                return [(st, v)]
        if name == "getattr" and len(vs) >= 2 and vs[0][0] == "res" and vs[1][0] == "text" and vs[1][1].strip("'\"") in CLOSE:
            return [(st, ("bound", vs[0][1], vs[1][1].strip("'\"")))]
        # acquisition
        t = name
        if fv is not None and fv[0] == "text" and fv[1] and name not in OPEN_NAMES:
            t = fv[1].split(".")[-1]
        known = self.resolved(f)
        if t in OPEN_NAMES and known is None and not (fv is not None and fv[0] == "closure"):
            out.append(("raise", st, NONE))
            n, v = self.new(e, st, t)
            return [(n, v)]
        # the package's own functions
        tgt = None
        if fv is not None and fv[0] == "closure" and fv[1] in self.closures:
            node, mod, fn = self.closures[fv[1]]
            if self.interesting.get(id(node)) and self.depth < self.maxdepth:
                return self.enter(node, mod, fn, None, recv, vs, ks, e, st, out, closure=True)
        elif known is not None and self.interesting.get(id(known.node)) and self.depth < self.maxdepth and not is_generator(known.node):
            return self.enter(known.node, known.module, known, known, recv, vs, ks, e, st, out)
        if name not in SAFE:
            out.append(("raise", st, NONE))
        if name in ("get", "pop") and recv is not None and recv[0] == "text" and recv[2] and e.args and isinstance(e.args[0], ast.Constant):
            return [(st, ("text", "%s[%r]" % (recv[1], e.args[0].value), True, "part"))]
        return [(st, ("text", "", False))]

    def resolved(self, f):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
            return self.target(self.module, f, self.func)
        r = self.target(self.module, f, self.func)
        return r

    def hands_out(self, node, mod, fn):
        """does the function, run on its own, leave something open to its caller or put it into a container it was given?"""
        k = id(node)
        if k not in self.summaries:
            self.summaries[k] = False       # a recursive call hands out nothing the rest does not
            before = set(self.summaries)
            sub = Ownership(self.p, self.maxdepth)
            sub.interesting, sub.closures, sub.summaries, sub.slices = self.interesting, dict(self.closures), self.summaries, self.slices
            try:
                outs = sub.run_root(mod, node, fn)
            except TooBig:
                outs = None
            if outs is None:
                self.summaries[k] = True
                return True
            r = any("given" in st.res.values() or any(st.res[r] == "open" for r in self.resources(v, st)) for kind, st, v in outs) or bool(sub.borrowed)
            if r:
                for x in set(self.summaries) - before:
                    del self.summaries[x]
            self.summaries[k] = r
        return self.summaries[k]

    def enter(self, node, mod, fn, fi, recv, vs, ks, e, st, out, closure=False):
        self.called.add(id(node))
        if id(node) in self.active:
            out.append(("raise", st, NONE))
            return [(st, ("text", "", False))]
        if not closure and not any(v[0] == "bound" or self.resources(v, st) for v in list(vs) + [v for k, v in ks]) and not self.hands_out(node, mod, fn):
            out.append(("raise", st, NONE))
            return [(st, ("text", "", False))]
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(st.env) if closure else {}
        pos = list(vs)
        if fi is not None and fi.cls is not None and names and names[0] in ("self", "cls"):
            env[names[0]] = ("text", "self", False)
            names = names[1:]
        for x in names + [y.arg for y in a.kwonlyargs]:
            env[x] = ("text", x + "@default", False)
        defs = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        for x, d in defs.items():
            if isinstance(d, ast.Constant) and d.value is None:
                env[x] = NONE
        for x, v in zip(names, pos):
            env[x] = v
        for k, v in ks:
            if k is not None:
                env[k] = v
        save = (self.module, self.func, self.depth, self.tracked)
        self.module, self.func, self.depth = mod, fn, self.depth + 1
        self.active.append(id(node))
        held = frozenset(x for x, v in env.items() if v[0] in ("res", "bound", "list", "none") or self.resources(v, st))
        self.tracked = self.names_that_matter(node, mod, fn, held)
        try:
            outs = self.block(node.body, [st.with_env(env)])
        finally:
            self.module, self.func, self.depth, self.tracked = save
            self.active.pop()
        res = []
        seen = set()
        for k, n, v in outs:
            m = n.with_env(st.env)
            m.conds = {c: b for c, b in m.conds.items() if "@" not in c}
            q = (k == "raise", repr(v) if k != "raise" else "", m.key())
            if q in seen:
                continue
            seen.add(q)
            if k == "raise":
                out.append(("raise", m, NONE))
            elif k in ("return", "next"):
                res.append((m, v))
        return res

    # ---- conditions ------------------------------------------------------------------
    def test(self, e, st, out):
        """(states where the test holds, states where it fails)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.test(e.operand, st, out)
            return f, t
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                cur, fail = [st], []
                for x in e.values:
                    nxt = []
                    for s in cur:
                        t, f = self.test(x, s, out)
                        nxt += t
                        fail += f
                    cur = self.dedupe(nxt)
                return cur, self.dedupe(fail)
            cur, ok = [st], []
            for x in e.values:
                nxt = []
                for s in cur:
                    t, f = self.test(x, s, out)
                    nxt += f
                    ok += t
                cur = self.dedupe(nxt)
            return self.dedupe(ok), cur
        if isinstance(e, ast.Constant):
            return ([st], []) if e.value else ([], [st])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value is None:
                pos, neg = [], []
                for n, v in self.ev(l, st, out):
                    if v == NONE:
                        pos.append(n)
                    elif v[0] != "text" or v[1].endswith("@default") and False:
                        neg.append(n)
                    else:
                        a, b = self.literal("%s is None" % v[1] if v[1] else None, n)
                        pos += a
                        neg += b
                return (pos, neg) if isinstance(op, (ast.Is, ast.Eq)) else (neg, pos)
            if isinstance(op, (ast.In, ast.NotIn)):
                a, b = self.literal("%s in %s" % (self.text(l, st), self.text(r, st)), st)
                return (a, b) if isinstance(op, ast.In) else (b, a)
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is not None:
                if v == NONE:
                    return [], [st]
                if v[0] in ("res", "bound"):
                    return [st], []
                if v[0] == "list":
                    return ([st], []) if st.lists.get(v[1]) else ([], [st])
                if v[0] == "text" and v[1] in ("True", "False"):
                    return ([st], []) if v[1] == "True" else ([], [st])
                if v[0] == "text" and v[1]:
                    return self.literal(v[1], st)
        t, f = [], []
        for n, v in self.ev_sub(e, st, out):
            t.append(n)
            f.append(n)
        return self.dedupe(t), self.dedupe(f)

    def ev_sub(self, e, st, out):
        if isinstance(e, ast.Compare):
            cur = [(st, NONE)]
            for x in [e.left] + e.comparators:
                cur = [(n, v) for s, _ in cur for n, v in self.ev(x, s, out)]
            return cur
        return self.ev(e, st, out)

    def literal(self, text, st):
        if text is None or "@" in text and text.endswith("@default"):
            return [st], [st]
        if text in st.conds:
            return ([st], []) if st.conds[text] else ([], [st])
        a, b = st.copy(), st.copy()
        if " in " in text or text.endswith(" is None"):
            a.conds[text], b.conds[text] = True, False
        return [a], [b]

    closures = {}


def flow_names(e):
    """names whose object may be the value of the expression, or part of it"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return set().union(*[flow_names(x) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Starred) or isinstance(e, ast.NamedExpr):
        return flow_names(e.value)
    if isinstance(e, ast.IfExp):
        return flow_names(e.body) | flow_names(e.orelse) | {y.id for y in ast.walk(e.test) if isinstance(y, ast.Name)}
    if isinstance(e, ast.BoolOp):
        return set().union(*[flow_names(x) for x in e.values])
    if isinstance(e, (ast.Subscript, ast.Attribute)):
        return flow_names(e.value)
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if n in ("reversed", "list", "tuple", "iter", "sorted", "filter", "dict", "getattr", "closing", "copy", "get", "pop", "pop_all", "enter_context", "suppress"):
            r = set().union(*[flow_names(x) for x in e.args]) if e.args else set()
            return r | (flow_names(f.value) if isinstance(f, ast.Attribute) else set())
    return set()


def own_nodes(n):
    """nodes of a function without those of nested functions"""
    stack = list(ast.iter_child_nodes(n))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def is_generator(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(n))
