"""Gated value-flow analysis over Python syntax trees.

A function is evaluated abstractly once: every variable holds one *term* describing
where its value comes from; branches are merged with gated ``ite(cond, a, b)`` nodes
(gated SSA), loops are run to a two-pass fixpoint with ``phi`` nodes, calls to
functions of the analysed package are inlined (context-sensitive, bounded), everything
else stays an uninterpreted call term.  No path is enumerated and no value of the
program is computed.  While evaluating, *events* (calls, attribute/item stores,
comparisons, raises, returns, deletions) are recorded with the guards that control
them.  Rules are queries over terms and events, so they do not see how the code is
laid out: helpers are inlined, local names disappear, comprehension and append-loop
builds of a list look alike through ``elem``."""
import ast
import sys
from .index import Project, FuncInfo, ClassInfo, Module, PKG, dotted  # noqa

sys.setrecursionlimit(20000)

_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
        ast.MatMult: "@"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
_OPFN_CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!=", "is_": "is", "is_not": "is not"}
_OPFN_BIN = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "and_": "&", "or_": "|",
             "xor": "^", "pow": "**"}
_NEG = {"==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}


class T(object):
    __slots__ = ("k", "a", "_h", "depth", "_atoms")

    def __init__(self, k, a):
        self.k, self.a = k, a

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


_INTERN = {}
MAXDEPTH = 90


_ELEM = {}


def mk(k, *a):
    key = (k,) + tuple((x if isinstance(x, (T, tuple, str, frozenset)) or x is None else (type(x).__name__, x)) for x in a)
    t = _INTERN.get(key)
    if t is None:
        t = T(k, a)
        t._h = hash(key)
        d = 0
        for x in _kids(a):
            if x.depth > d:
                d = x.depth
        t.depth = d + 1
        t._atoms = None
        if t.depth > MAXDEPTH and k not in ("deep",):
            at = atoms(t)
            t = mk("deep", frozenset(at))
        _INTERN[key] = t
    return t


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in _kids(x):
                yield y


def kids(t):
    return list(_kids(t.a))


_LEAF = {"const", "param", "glob", "func", "cls", "mod", "undef", "bot", "inst", "noret", "self"}


def atoms(t):
    """leaf terms below t"""
    if t._atoms is not None:
        return t._atoms
    if t.k == "deep":
        r = t.a[0]
    else:
        ks = kids(t)
        if not ks:
            r = frozenset([t])
        else:
            r = frozenset().union(*[atoms(x) for x in ks])
    t._atoms = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(_kids(x.a))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOT = mk("bot")
NORET = mk("noret")
UNDEF = mk("undef")


def is_const(t):
    return t.k == "const"


def cval(t):
    v = t.a[0]
    return v


def phi(items):
    out = []
    seen = set()

    def add(t):
        if t.k == "phi":
            for x in sorted(t.a[0], key=_tkey):
                add(x)
        elif t is BOT:
            return
        elif t not in seen:
            seen.add(t)
            out.append(t)
    for t in items:
        add(t)
    if not out:
        return BOT
    if len(out) == 1:
        return out[0]
    return mk("phi", frozenset(out))


_ORD = {}


def _tkey(t):
    return _ORD.setdefault(t, len(_ORD))


def negate(c):
    if c.k == "not":
        return c.a[0]
    if is_const(c):
        return const(not cval(c))
    if c.k == "cmp" and c.a[0] in _NEG:
        return mk("cmp", _NEG[c.a[0]], c.a[1], c.a[2])
    return mk("not", c)


def ite(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if c.k == "not":
        return ite(c.a[0], b, a)
    if c.k == "cmp" and c.a[0] in ("is not", "!=", "not in"):
        return ite(mk("cmp", _NEG[c.a[0]], c.a[1], c.a[2]), b, a)
    return mk("ite", c, a, b)


def alts(t):
    """all alternatives a term may stand for (ite/phi flattened)"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            st.extend([x.a[2], x.a[1]])
        elif x.k == "phi":
            st.extend(x.a[0])
        elif x is BOT:
            pass
        else:
            out.append(x)
    return out


def identity(t):
    """the object a term denotes, whatever in-place changes it went through"""
    while t.k == "upd":
        t = t.a[1]
    return t


def show(t, d=0):
    if d > 7:
        return "…"
    k, a = t.k, t.a

    def s(x):
        if isinstance(x, T):
            return show(x, d + 1)
        if isinstance(x, (tuple, frozenset)):
            return "(" + ", ".join(s(y) for y in x) + ")"
        return str(x)
    if k == "const":
        return repr(a[0])
    if k in ("param", "glob"):
        return str(a[0])
    if k == "inst":
        return "<%s>" % a[0]
    if k == "func":
        return a[0].qual
    if k == "cls":
        return a[0].name
    if k == "mod":
        return a[0].name
    if k == "attr":
        return s(a[0]) + "." + a[1]
    if k == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if k == "elem":
        return "elem(%s)" % s(a[0])
    if k in ("cmp", "bin"):
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if k == "ite":
        return "ite(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if k == "phi":
        return "phi{%s}" % ", ".join(sorted(s(x) for x in a[0]))
    if k == "call":
        return "%s(%s)" % (a[0], ", ".join([s(x) for x in a[1]] + ["%s=%s" % (n, s(v)) for n, v in a[2]]))
    if k == "pcall":
        return "%s(%s)" % (a[0].qual if isinstance(a[0], FuncInfo) else a[0], ", ".join("%s=%s" % (n, s(v)) for n, v in a[1]))
    if k == "mcall":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + ["%s=%s" % (n, s(v)) for n, v in a[3]]))
    if k == "dcall":
        return "(%s)(%s)" % (s(a[0]), ", ".join([s(x) for x in a[1]] + ["%s=%s" % (n, s(v)) for n, v in a[2]]))
    if k == "new":
        return "new %s" % a[0].name
    if k in ("list", "tuple", "set"):
        return "%s[%s]" % (k[0], ", ".join(s(x) for x in a[1]))
    if k == "dict":
        return "{%s}" % ", ".join("%s: %s" % (s(x), s(y)) for x, y in a[1])
    if k == "upd":
        return "upd:%s(%s; %s)" % (a[0], s(a[1]), s(a[2]))
    return "%s(%s)" % (k, ", ".join(s(x) for x in a))


class Event(object):
    __slots__ = ("kind", "node", "func", "guards", "stack", "d", "loops")

    def __init__(self, kind, node, func, guards, stack, loops, d):
        self.kind, self.node, self.func, self.guards, self.stack, self.d, self.loops = kind, node, func, guards, stack, d, loops

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    @property
    def loc(self):
        return "%s:%d (%s)" % (self.func.module.rel, getattr(self.node, "lineno", 0), self.func.qual)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.loc, self.d)


class State(object):
    __slots__ = ("env", "heap")

    def __init__(self, env, heap):
        self.env, self.heap = env, heap

    def copy(self):
        return State(dict(self.env), dict(self.heap))


class Closure(object):
    """nested function or lambda with the (mutable) frame it closes over"""
    def __init__(self, fi, frame, cls_self):
        self.fi, self.frame, self.cls_self = fi, frame, cls_self


_MUT_METHODS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "add", "discard", "popitem",
                "setdefault", "sort", "reverse", "difference_update", "intersection_update",
                "symmetric_difference_update"}


class Frame(object):
    def __init__(self, fi, parent=None):
        self.fi = fi
        self.parent = parent    # enclosing frame of a closure
        self.state = None
        self.loopstack = []
        self.globals_decl = set()
        self.nonlocals = set()
        self.guard_base = 0


def _terminates(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Engine(object):
    def __init__(self, project, inline=None, max_depth=8, budget=400000, types=None, apply_decorators=False,
                 hooks=None, attr_types=None, inline_properties=True):
        self.p = project
        self.inline_fn = inline or (lambda fi: True)
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.events = []
        self.guards = []
        self.stack = []
        self.loops = []
        self.types = types or {}
        self.attr_types = dict(DEFAULT_ATTR_TYPES)
        self.attr_types.update(attr_types or {})
        self.apply_decorators = apply_decorators
        self.closures = {}
        self.quiet = 0
        self.heap = {}
        self.inline_properties = inline_properties
        self.hooks = hooks or {}
        self._modvars = {}
        self._types_memo = {}
        self.truncated = False

    # ------------------------------------------------------------ utilities
    def emit(self, kind, node, **d):
        if self.quiet:
            return None
        e = Event(kind, node, self.stack[-1].fi, tuple(self.guards), tuple(f.fi for f in self.stack), tuple(self.loops), d)
        self.events.append(e)
        return e

    def evs(self, kind):
        return [e for e in self.events if e.kind == kind]

    @property
    def frame(self):
        return self.stack[-1]

    @property
    def st(self):
        return self.stack[-1].state

    # ------------------------------------------------------------ entry
    def run(self, fi, args=None, self_term=None):
        """Evaluate fi with symbolic parameters (or given terms); returns result term."""
        bind = {}
        args = args or {}
        ps = fi.all_params()
        a = fi.node.args
        for i, p in enumerate(ps):
            if p in args:
                bind[p] = args[p]
            elif i == 0 and fi.cls is not None and not fi.is_staticmethod and fi.parent is None:
                if fi.is_classmethod:
                    bind[p] = mk("cls", fi.cls)
                else:
                    bind[p] = self_term or mk("inst", fi.cls.name, "self")
            else:
                bind[p] = mk("param", p)
        self.heap = dict(getattr(self, "init_heap", {}))
        return self._exec_function(fi, bind, None)

    def _exec_function(self, fi, bind, parent_frame):
        fr = Frame(fi, parent_frame)
        fr.state = State(dict(bind), self.heap)
        self.stack.append(fr)
        saved_loops, self.loops = self.loops, []
        ng = fr.guard_base = len(self.guards)
        try:
            if isinstance(fi.node, ast.Lambda):
                r = self.eval(fi.node.body)
            else:
                is_gen = _has_yield(fi.node)
                fr.yields = []
                alive, ret = self.block(fi.node.body)
                if is_gen:
                    y = _gate_yields(fr.yields) if fr.yields else BOT
                    r = mk("gen", fi.qual, y)
                else:
                    r = _subst_noret(ret, NONE if alive else BOT)
        finally:
            del self.guards[ng:]
            self.heap = self.st.heap if self.st is not None else self.heap
            self.stack.pop()
            self.loops = saved_loops
        return r

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        """returns (alive, ret-term with NORET leaves)"""
        ret = NORET
        ng = len(self.guards)
        alive = True
        for s in stmts:
            if not alive:
                break
            self.steps += 1
            alive, r = self.stmt(s)
            if r is not NORET:
                ret = _subst_noret(ret, r)
        del self.guards[ng:]
        return alive, ret

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return True, NORET
        r = m(s)
        return r if r is not None else (True, NORET)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.frame.globals_decl.update(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals.update(s.names)

    def s_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split(".")[0]] = self._dotted_term(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        mod = self.p._absmod(self.frame.fi.module, s.level, s.module)
        for a in s.names:
            if a.name != "*":
                self.st.env[a.asname or a.name] = self._dotted_term(mod + "." + a.name)

    def _dotted_term(self, name):
        r = self.p.resolve_dotted(name)
        return self._res_term(r) or mk("glob", name)

    def _res_term(self, r):
        if r is None:
            return None
        if r[0] == "func":
            return mk("func", r[1])
        if r[0] == "class":
            return mk("cls", r[1])
        if r[0] == "module":
            return mk("mod", r[1])
        if r[0] == "ext":
            return mk("glob", r[1])
        if r[0] == "var":
            return self._modvar(*r[1])
        return None

    def _modvar(self, m, name, node):
        key = (m.name, name)
        if key in self._modvars:
            return self._modvars[key]
        self._modvars[key] = mk("glob", m.name + "." + name)
        vals = m.assigns.get(name, [node])
        if len(vals) == 1 and isinstance(vals[0], (ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Set, ast.Attribute,
                                                   ast.Name, ast.UnaryOp, ast.BinOp, ast.Lambda)):
            fi = FuncInfo("<module>", m.tree, m)
            fr = Frame(fi)
            fr.state = State({}, {})
            self.stack.append(fr)
            self.quiet += 1
            sh = self.heap
            try:
                v = self.eval(vals[0])
            finally:
                self.quiet -= 1
                self.stack.pop()
                self.heap = sh
            self._modvars[key] = mk("gvar", m.name + "." + name, v) if v.k not in ("const", "func", "cls", "mod", "glob") else v
        return self._modvars[key]

    def s_FunctionDef(self, s):
        fi = FuncInfo(s.name, s, self.frame.fi.module, None, self.frame.fi)
        fi.cls_ctx = _cls_ctx(self.frame.fi)
        t = self._closure(fi)
        for d in reversed(s.decorator_list):
            if not self.apply_decorators:
                # still record that the decorator factory is evaluated with these arguments
                self.emit("decorate", d, target=t, deco=self.eval(d) if isinstance(d, ast.Call) else None)
                continue
            dn = dotted(d.func if isinstance(d, ast.Call) else d) or ""
            if dn.split(".")[-1] in ("wraps", "contextmanager", "lru_cache"):
                continue        # the same function to its callers
            dt = self.eval(d)
            t = self.call(dt, [t], [], d)
        self.assign_name(s.name, t)
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.assign_name(s.name, mk("localcls", s.name, self._alloc(s)))

    def _alloc(self, node):
        return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.frame.fi.qual,
                tuple(getattr(self, "_callsites", ())[-3:]))

    def _closure(self, fi):
        key = ("closure", len(self.closures))
        self.closures[key] = Closure(fi, self.frame, None)
        return mk("closure", key[1], fi)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.emit("return", s, value=v)
        return False, v

    def s_Raise(self, s):
        v = self.eval(s.exc) if s.exc is not None else mk("reraise")
        self.emit("raise", s, value=v)
        return False, BOT

    def s_Assert(self, s):
        c = self.eval(s.test)
        if s.msg is not None:
            self.guards.append((c, False))
            self.eval(s.msg)
            self.guards.pop()
        self.emit("assert", s, cond=c)
        self.guards.append((c, True))   # popped at block end

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                k = self.eval(t.slice)
                self.emit("delitem", s, recv=b, key=k)
                self.mutate(b, "delitem", k)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                self.emit("delattr", s, recv=b, attr=t.attr)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s)

    def s_AugAssign(self, s):
        op = _OPS.get(type(s.op), "?")
        tgt = s.target
        if isinstance(tgt, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(id=tgt.id, ctx=ast.Load()), tgt))
        else:
            old = self.eval(_load_copy(tgt))
        v = self.eval(s.value)
        self.emit("augassign", s, target=old, op=op, value=v, tnode=tgt)
        new = self.binop(op, old, v)
        if isinstance(tgt, ast.Name) and identity(old).k in ("list", "set", "dict", "comp") and op in "+|&-":
            new = mk("upd", "extend" if op == "+" else "update", old, (v,))
            self.st.heap[("ver", identity(old))] = new
        self.assign(tgt, new, s, aug=True)

    def assign(self, tgt, v, node, aug=False):
        if isinstance(tgt, ast.Name):
            self.assign_name(tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(tgt.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("rest", v, const(i)), node)
                elif star and i > star[0]:
                    self.assign(e, self.item(v, const(i - n)), node)
                else:
                    self.assign(e, self.item(v, const(i)), node)
        elif isinstance(tgt, ast.Attribute):
            b = self.eval(tgt.value)
            self.set_attr(b, tgt.attr, v, node)
        elif isinstance(tgt, ast.Subscript):
            b = self.eval(tgt.value)
            k = self.eval(tgt.slice)
            self.emit("setitem", node, recv=b, key=k, value=v, aug=aug)
            self.mutate(b, "setitem", k, v)

    def assign_name(self, name, v):
        fr = self.frame
        if name in fr.globals_decl:
            self.emit("setglobal", fr.fi.node, name=name, value=v)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.state and name in f.state.env:
                    f.state.env[name] = v
                    return
                f = f.parent
        fr.state.env[name] = v

    def set_attr(self, b, attr, v, node):
        cls = self.typeof(b)
        self.emit("setattr", node, recv=b, attr=attr, value=v)
        if cls is not None:
            st = cls.find_setter(attr)
            if st is not None and self.inline_properties and self.can_inline(st):
                self.call_func(st, [b, v], [], node)
                return
        self.st.heap[(identity(b), attr)] = v

    def mutate(self, b, op, *args):
        """the object denoted by b is changed in place"""
        b0 = b
        opn = op
        ident = identity(b)
        # df.loc[...] = v / df.iloc / df.values change df itself
        if ident.k == "attr" and ident.a[1] in ("loc", "iloc", "at", "iat", "values"):
            opn = ident.a[1] + "." + op
            base = identity(ident.a[0])
            b0 = self.deref(base)
            ident = base
        new = mk("upd", opn, b0, tuple(args))
        self.st.heap[("ver", ident)] = new
        # a mutated attribute value is reachable through the attribute as well
        return new

    def _fresh(self, t):
        """a container created anew: changes made to the one an earlier iteration created here do not show in it"""
        if self.st is not None:
            self.st.heap.pop(("ver", t), None)
        return t

    def deref(self, t):
        """current version of the object t denotes"""
        if self.st is None:
            return t
        heap, i = self.st.heap, identity(t)
        for _ in range(12):
            h = heap.get(("ver", i))
            if h is None:
                return t
            t, j = h, identity(h)
            if j is i:
                return t
            i = j       # a merged version (ite/phi) may itself have been changed afterwards
        return t

    # ------------------------------------------------------------ control flow
    def _branch(self, cond, pol, fn):
        base = self.frame.state
        self.frame.state = base.copy()
        self.heap = self.frame.state.heap
        self.guards.append((cond, pol))
        try:
            r = fn()
        finally:
            self.guards.pop()
        out = self.frame.state
        self.frame.state = base
        self.heap = base.heap
        return r, out

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        if is_const(c):
            body = s.body if cval(c) else s.orelse
            self.emit("deadbranch", s, taken=bool(cval(c)))
            alive, ret = self.block(body)
            return alive, ret
        (al_a, ra), sa = self._branch(c, True, lambda: self.block(s.body))
        (al_b, rb), sb = self._branch(c, False, lambda: self.block(s.orelse))
        ret = _ite_ret(c, ra, rb, al_a, al_b)
        if al_a and al_b:
            self._set_state(self._merge(c, sa, sb))
            return True, ret
        if al_a:
            self._set_state(sa)
            self.guards.append((c, True))
            return True, ret
        if al_b:
            self._set_state(sb)
            self.guards.append((c, False))
            return True, ret
        return False, ret

    def _set_state(self, st):
        self.frame.state = st
        self.heap = st.heap

    def _merge(self, c, a, b):
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                env[k] = x
            elif x is None:
                env[k] = y if c is None else ite(c, UNDEF, y)
            elif y is None:
                env[k] = x if c is None else ite(c, x, UNDEF)
            else:
                env[k] = phi([x, y]) if c is None else ite(c, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = self._newest(a.heap, k, a.heap.get(k)), self._newest(b.heap, k, b.heap.get(k))
            if x is y:
                heap[k] = x
            else:
                if x is None:
                    x = self._heap_default(k)
                if y is None:
                    y = self._heap_default(k)
                heap[k] = phi([x, y]) if c is None else ite(c, x, y)
        return State(env, heap)

    @staticmethod
    def _newest(heap, k, x):
        """the last version of a container in a state, when an intermediate (merged) version was itself changed"""
        if k[0] != "ver" or x is None:
            return x
        i = identity(x)
        if i is k[1]:
            return x
        for _ in range(12):
            h = heap.get(("ver", i))
            if h is None:
                break
            j = identity(h)
            if j is i and h is x:
                break
            x = h
            if j is i or j is k[1]:
                break
            i = j
        return x

    @staticmethod
    def _heap_default(k):
        if k[0] == "ver":
            return k[1]
        return mk("attr", k[0], k[1])

    def s_For(self, s):
        it = self.eval(s.iter)
        el = self.elem(it)
        return self._loop(s, it, lambda: self.assign(s.target, el, s))

    s_AsyncFor = s_For

    def s_While(self, s):
        return self._loop(s, None, None)

    def _loop(self, s, it, bind):
        fr = self.frame
        pre = fr.state.copy()
        head = fr.state
        if it is not None and it.k in ("list", "tuple") and len(it.a[1]) == 0:
            return True, NORET
        for rnd in (0, 1):
            if rnd == 0:
                self.quiet += 1
            self._set_state(head.copy())
            self.loops.append((s, it))
            ng = len(self.guards)
            fr.loopstack.append({"break": [], "continue": [], "ng": ng + 1})
            try:
                if bind is not None:
                    bind()
                    c = mk("inloop", it)
                else:
                    c = self.truth(self.eval(s.test))
                self.guards.append((c, True))
                alive, ret = self.block(s.body)
            finally:
                del self.guards[ng:]
                self.loops.pop()
                ls = fr.loopstack.pop()
                if rnd == 0:
                    self.quiet -= 1
            end = fr.state if alive else None
            nxt = end
            for c, o in reversed(ls["continue"]):
                nxt = o if nxt is None else self._merge(c, o, nxt)
            if rnd == 0:
                if nxt is not None:
                    head = self._join_loop(pre, nxt)
                else:
                    head = pre.copy()
        after = pre if nxt is None else self._join_loop(pre, nxt)
        if isinstance(s, ast.While) and is_const(self._while_const(s)) :
            after = None if not ls["break"] else ls["break"][0]
            bl = ls["break"][1:]
        else:
            bl = ls["break"]
        for b in bl:
            after = self._merge(None, after, b)
        if after is None:
            return False, ret
        self._set_state(after.copy())
        if ret is not NORET:
            ret = phi([ret, NORET])
        if s.orelse:
            alive, r2 = self.block(s.orelse)
            if r2 is not NORET:
                ret = _subst_noret(ret, r2)
            return alive, ret
        return True, ret

    @staticmethod
    def _while_const(s):
        if isinstance(s.test, ast.Constant) and s.test.value:
            return TRUE
        return mk("glob", "?")

    def _join_loop(self, pre, end):
        env = {}
        for k in set(pre.env) | set(end.env):
            x, y = pre.env.get(k), end.env.get(k)
            if x is None:
                env[k] = y
            elif y is None or x is y:
                env[k] = x
            else:
                env[k] = phi([x, y])
        heap = {}
        for k in set(pre.heap) | set(end.heap):
            x, y = self._newest(pre.heap, k, pre.heap.get(k)), self._newest(end.heap, k, end.heap.get(k))
            if x is None:
                x = self._heap_default(k)
            if y is None:
                y = self._heap_default(k)
            heap[k] = x if x is y else phi([x, y])
        return State(env, heap)

    def s_Break(self, s):
        if self.frame.loopstack:
            self.frame.loopstack[-1]["break"].append(self.frame.state.copy())
        self.emit("break", s)
        return False, NORET_DEAD

    def s_Continue(self, s):
        if self.frame.loopstack:
            ls = self.frame.loopstack[-1]
            gs = [g if pol else negate(g) for g, pol in self.guards[ls["ng"]:] if not is_const(g)]
            c = None
            if gs and not any(g.k in ("intry", "inloop", "except", "finally") for g, _ in self.guards[ls["ng"]:]):
                c = gs[0] if len(gs) == 1 else mk("bool", "and", tuple(gs))
            ls["continue"].append((c, self.frame.state.copy()))
        self.emit("continue", s)
        return False, NORET_DEAD

    def s_Try(self, s):
        pre = self.frame.state.copy()
        self.emit("try", s, handlers=[ast.dump(h.type) if h.type else None for h in s.handlers])
        ng = len(self.guards)
        trymark = mk("intry", (s.lineno, s.col_offset))
        self.guards.append((trymark, True))
        alive, ret = self.block(s.body)
        del self.guards[ng:]
        body_state = self.frame.state.copy()
        if alive and s.orelse:
            alive, r2 = self.block(s.orelse)
            ret = _subst_noret(ret, r2)
        outs = []
        if alive:
            outs.append(self.frame.state.copy())
        rets = [ret]
        for h in s.handlers:
            self._set_state(self._merge(None, pre, body_state))
            if h.name:
                self.st.env[h.name] = mk("exc", dotted(h.type) if h.type is not None else None)
            exc = mk("except", (s.lineno, s.col_offset), dotted(h.type) if h.type is not None and dotted(h.type) else
                     (ast.dump(h.type) if h.type is not None else None))
            self.guards.append((exc, True))
            al, r = self.block(h.body)
            del self.guards[ng:]
            if al:
                outs.append(self.frame.state.copy())
            rets.append(r)
        stt = None
        for o in outs:
            stt = o if stt is None else self._merge(None, stt, o)
        alive = stt is not None
        rr = NORET
        live = [r for r in rets if r is not BOT]
        if any(r is not NORET and r is not NORET_DEAD for r in live):
            rr = phi([(NORET if r is NORET_DEAD else r) for r in live])
        if not alive and rr is NORET:
            rr = BOT if all(r is BOT for r in rets) else NORET
        if stt is None:
            stt = body_state
        self._set_state(stt)
        if s.finalbody:
            fin = mk("finally", (s.lineno, s.col_offset))
            self.guards.append((fin, True))
            al, r = self.block(s.finalbody)
            del self.guards[ng:]
            if not al:
                return False, r
        return alive, rr
    s_TryStar = s_Try

    def s_With(self, s):
        ng = len(self.guards)
        for it in s.items:
            v = self.eval(it.context_expr)
            self.emit("with", s, value=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", v) if v.k not in ("call",) else v, s)
        alive, ret = self.block(s.body)
        del self.guards[ng:]
        return alive, ret
    s_AsyncWith = s_With

    # ------------------------------------------------------------ expressions
    def truth(self, c):
        """condition terms: fold what is evident"""
        if is_const(c):
            return const(bool(cval(c)))
        if c.k in ("list", "tuple", "set", "dict"):
            if len(c.a[1]) == 0:
                return FALSE
            if not any(x.k == "star" for x in c.a[1] if isinstance(x, T)):
                return TRUE
        if c.k in ("func", "cls", "closure", "bound", "new", "mod"):
            return TRUE
        if c.k == "ite":
            x, y = self.truth(c.a[1]), self.truth(c.a[2])
            if x is TRUE and y is FALSE:
                return c.a[0]
            if x is FALSE and y is TRUE:
                return negate(c.a[0])
            if is_const(x) and x is y:
                return x
        return c

    def eval(self, n):
        self.steps += 1
        if self.steps > self.budget:
            self.truncated = True
            return mk("opaque", "budget")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("opaque", type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.name(n.id)

    def name(self, nm):
        fr = self.frame
        f = fr
        while f is not None:
            if f.state is not None and nm in f.state.env:
                return self.deref(f.state.env[nm])
            f = f.parent
        # a nested function's module globals
        m = fr.fi.module
        r = self.p.lookup(m, nm)
        if r is not None:
            t = self._res_term(r)
            if t is not None:
                return t
        return mk("glob", nm)

    def e_Attribute(self, n):
        b = self.eval(n.value)
        return self.attr(b, n.attr, n)

    def attr(self, b, name, node=None):
        if b.k == "mod":
            r = self.p.lookup(b.a[0], name)
            t = self._res_term(r)
            if t is not None:
                return t
            sub = b.a[0].name + "." + name
            if sub in self.p.modules:
                return mk("mod", self.p.modules[sub])
            return mk("glob", b.a[0].name + "." + name)
        if b.k == "glob":
            return mk("glob", b.a[0] + "." + name)
        if b.k == "cls":
            f = b.a[0].find_method(name)
            if f is not None:
                return mk("bound", f, b) if f.is_classmethod else mk("func", f)
            a = b.a[0].find_attr(name)
            if a is not None and not self._descriptor(a):
                return self._class_attr(a)
            return mk("attr", b, name)
        if b.k == "super":
            f = None
            cls, recv = b.a
            for c in cls.mro()[1:]:
                if name in c.methods:
                    f = c.methods[name]
                    break
            if f is not None:
                return mk("bound", f, recv)
            return mk("attr", b, name)
        key = (identity(b), name)
        heap = self.st.heap
        if key in heap:
            return self.deref(heap[key])
        if b.k in ("ite", "phi"):
            al = alts(b)
            if any((identity(x), name) in heap or x.k in ("new", "cls", "mod", "bound") for x in al) and len(al) <= 6:
                if b.k == "ite":
                    return ite(b.a[0], self.attr(b.a[1], name, node), self.attr(b.a[2], name, node))
                return phi([self.attr(x, name, node) for x in al])
        cls = self.typeof(b)
        if cls is not None:
            f = cls.find_method(name)
            if f is not None:
                if f.is_property:
                    if self.inline_properties and self.can_inline(f):
                        return self.call_func(f, [b], [], node)
                    return mk("attr", b, name)
                if b.k in ("new", "inst") and b.k == "new" or not self._overridden(cls, name):
                    return mk("bound", f, b)
                return mk("bound", f, b) if self.virtual_ok(f, b) else mk("attr", b, name)
            a = cls.find_attr(name)
            if a is not None and b.k == "new" and not self._descriptor(a):
                return self._class_attr(a)
        t = mk("attr", b, name)
        return self.deref(t)

    def virtual_ok(self, f, b):
        h = self.hooks.get("virtual")
        return h(f, b) if h else True

    def _overridden(self, cls, name):
        return any(name in c.methods for c in self.p.subclasses(cls.name))

    def _descriptor(self, a):
        """the class attribute is an object whose class defines __get__: its value depends on the class it is read from"""
        c, node = a
        if not isinstance(node, ast.Call):
            return False
        r = self.p.resolve_expr(c.module, node.func)
        return bool(r) and r[0] == "class" and r[1].find_method("__get__") is not None

    def _class_attr(self, a):
        c, node = a
        if isinstance(node, ast.Constant):
            return const(node.value)
        r = self.p.resolve_expr(c.module, node)
        t = self._res_term(r) if r else None
        if t is not None:
            return t
        return mk("clsattr", c, ast.dump(node))

    def typeof(self, t):
        c = self._types_memo.get(t, 0)
        if c == 0:
            self._types_memo[t] = None
            c = self._types_memo[t] = self._typeof(t)
        return c

    def _typeof(self, t):
        if t.k == "new":
            return t.a[0]
        if t.k in ("inst",):
            cs = self.p.classes.get(t.a[0])
            return cs[0] if cs else None
        if t.k == "upd":
            return self.typeof(t.a[1])
        if t.k == "param":
            n = self.types.get(t.a[0])
            if n and n in self.p.classes:
                return self.p.classes[n][0]
            return None
        if t.k in ("ite", "phi"):
            ts = {self.typeof(x) for x in alts(t) if not (x.k == "const")}
            if len(ts) == 1:
                return ts.pop()
            return None
        if t.k == "attr":
            n = self.attr_types.get(t.a[1])
            if n and not n.startswith("["):
                return self.p.classes[n][0] if n in self.p.classes else None
        if t.k in ("elem", "item"):
            n = self.container_type(t.a[0])
            if n:
                return self.p.classes[n][0] if n in self.p.classes else None
            # indexing an EntitySet gives an Entity, an Entity gives a Variable
            c = self.typeof(t.a[0])
            if c is not None and t.k == "item":
                if c.name == "EntitySet":
                    return self.p.classes["Entity"][0]
        return None

    def container_type(self, t):
        if t.k == "attr":
            n = self.attr_types.get(t.a[1])
            if n and n.startswith("["):
                return n[1:-1]
        if t.k == "upd":
            return self.container_type(t.a[1])
        if t.k == "param":
            n = self.types.get(t.a[0])
            if n and n.startswith("["):
                return n[1:-1]
        return None

    def e_Subscript(self, n):
        b = self.eval(n.value)
        k = self.eval(n.slice)
        self.emit("getitem", n, recv=b, key=k)
        return self.item(b, k)

    def item(self, b, k):
        if b.k == "gvar":
            return self.item(b.a[1], k)
        if is_const(k):
            v = cval(k)
            if b.k in ("tuple", "list") and isinstance(v, int) and not isinstance(v, bool):
                its = b.a[1]
                if not any(x.k == "star" for x in its) and -len(its) <= v < len(its):
                    return its[v]
            if b.k == "dict":
                for kk, vv in reversed(b.a[1]):
                    if kk is k:
                        return vv
                    if kk.k != "const":
                        break
            if b.k == "upd" and b.a[0] == "setitem":
                kk, vv = b.a[2]
                if kk is k:
                    return vv
                if is_const(kk):
                    return self.item(b.a[1], k)
        else:
            if b.k == "upd" and b.a[0] == "setitem" and b.a[2][0] is k:
                return b.a[2][1]
            if b.k == "dict" and b.a[1] and all(x.k == "const" or x.k in ("cls", "func") for x, _ in b.a[1]) and len(b.a[1]) <= 40:
                return mk("sel", k, b.a[1]) if not all(v.k in ("func", "bound", "cls", "closure") for _, v in b.a[1]) \
                    else phi([v for _, v in b.a[1]])
        if b.k == "ite":
            x, y = b.a[1], b.a[2]
            if x.k in ("tuple", "dict", "ite", "list", "upd") or y.k in ("tuple", "dict", "ite", "list", "upd"):
                if len(alts(b)) <= 8:
                    return ite(b.a[0], self.item(x, k), self.item(y, k))
        if b.k == "phi" and any(x.k in ("tuple", "dict", "list") for x in b.a[0]) and len(b.a[0]) <= 8:
            return phi([self.item(x, k) for x in sorted(b.a[0], key=_tkey)])
        if b.k == "elem" and is_const(k):
            # element of a zip / enumerate / items
            pass
        t = mk("item", b, k)
        return self.deref(t)

    def elem(self, b):
        """an arbitrary element obtained by iterating b"""
        r = _ELEM.get(b)
        if r is None:
            r = _ELEM[b] = self._elem(b)
        return r

    def _elem(self, b):
        if b.k == "gvar":
            return self.elem(b.a[1])
        if b.k in ("list", "tuple", "set"):
            its = []
            for x in b.a[1]:
                its.append(self.elem(x.a[0]) if x.k == "star" else x)
            if its:
                return phi(its)
            return BOT
        if b.k == "dict":
            return phi([k for k, _ in b.a[1]]) if b.a[1] else BOT
        if b.k == "comp":
            if b.a[0] == "dict":
                return b.a[1].a[1][0] if b.a[1].k == "tuple" else mk("elem", b)
            return b.a[1]
        if b.k == "gen":
            return b.a[1]
        if b.k == "upd":
            op, old, args = b.a
            if op in ("append", "add"):
                return phi([self.elem(old), args[0]])
            if op == "insert" and len(args) == 2:
                return phi([self.elem(old), args[1]])
            if op in ("extend", "update"):
                return phi([self.elem(old)] + [self.elem(x) for x in args])
            if op in ("remove", "discard", "pop", "sort", "reverse", "delitem", "clear"):
                return self.elem(old)
            if op == "setitem":
                if identity(b).k in ("dict", "comp"):
                    return phi([self.elem(old), args[0]])
                return phi([self.elem(old), args[1]])
        if b.k == "ite":
            return ite(b.a[0], self.elem(b.a[1]), self.elem(b.a[2]))
        if b.k == "phi":
            return phi([self.elem(x) for x in sorted(b.a[0], key=_tkey)])
        if b.k == "call":
            f, args, kw = b.a
            if f in ("list", "tuple", "set", "sorted", "iter", "reversed", "frozenset") and len(args) >= 1:
                return self.elem(args[0])
            if f == "zip":
                return mk("tuple", None, tuple(self.elem(x.a[0]) if x.k == "star" else self.elem(x) for x in args))
            if f == "enumerate" and args:
                return mk("tuple", None, (mk("idx", args[0]), self.elem(args[0])))
            if f in ("filter", "map") and len(args) == 2 and f == "filter":
                return self.elem(args[1])
        if b.k == "bin" and b.a[0] in ("+", "|"):
            return phi([self.elem(b.a[1]), self.elem(b.a[2])])
        if b.k == "mcall":
            recv, name, args, kw = b.a
            if name == "items" and not args:
                return mk("tuple", None, (self.key_of(recv), self.val_of(recv)))
            if name == "keys" and not args:
                return self.key_of(recv)
            if name == "values" and not args:
                return self.val_of(recv)
            if name == "copy" and not args:
                return self.elem(recv)
        return mk("elem", b)

    def key_of(self, d):
        if d.k == "dict":
            return phi([k for k, _ in d.a[1]]) if d.a[1] else BOT
        return mk("keyof", d)

    def val_of(self, d):
        if d.k == "dict":
            return phi([v for _, v in d.a[1]]) if d.a[1] else BOT
        if d.k == "upd" and d.a[0] == "setitem":
            return phi([self.val_of(d.a[1]), d.a[2][1]])
        return mk("valof", d)

    def e_Slice(self, n):
        return mk("slice", self.eval(n.lower) if n.lower else NONE, self.eval(n.upper) if n.upper else NONE,
                  self.eval(n.step) if n.step else NONE)

    def _items(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                if v.k in ("list", "tuple") and not any(x.k == "star" for x in v.a[1]):
                    out.extend(v.a[1])
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.eval(e))
        return tuple(out)

    def e_List(self, n):
        return self._fresh(mk("list", self._alloc(n), self._items(n.elts)))

    def e_Tuple(self, n):
        return mk("tuple", None, self._items(n.elts))

    def e_Set(self, n):
        return self._fresh(mk("set", self._alloc(n), self._items(n.elts)))

    def e_Dict(self, n):
        ps = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                vt = self.eval(v)
                if vt.k == "dict":
                    ps.extend(vt.a[1])
                else:
                    ps.append((mk("star", vt), mk("star", vt)))
            else:
                ps.append((self.eval(k), self.eval(v)))
        return self._fresh(mk("dict", self._alloc(n), tuple(ps)))

    def _comp(self, n, kind, eltfn):
        fr = self.frame
        base = fr.state
        fr.state = State(dict(base.env), base.heap)
        ng = len(self.guards)
        gens = []
        nl = len(self.loops)
        try:
            for g in n.generators:
                it = self.eval(g.iter)
                self.loops.append((g, it))
                self.guards.append((mk("inloop", it), True))
                self.assign(g.target, self.elem(it), n)
                conds = []
                for c in g.ifs:
                    ct = self.truth(self.eval(c))
                    conds.append(ct)
                    self.guards.append((ct, True))
                gens.append(mk("g", it, tuple(conds)))
            elt = eltfn()
        finally:
            heap = fr.state.heap
            fr.state = base
            base.heap = heap
            self.heap = heap
            del self.guards[ng:]
            del self.loops[nl:]
        return self._fresh(mk("comp", kind, elt, tuple(gens), self._alloc(n)))

    def e_ListComp(self, n):
        return self._comp(n, "list", lambda: self.eval(n.elt))

    def e_SetComp(self, n):
        return self._comp(n, "set", lambda: self.eval(n.elt))

    def e_GeneratorExp(self, n):
        return self._comp(n, "gen", lambda: self.eval(n.elt))

    def e_DictComp(self, n):
        return self._comp(n, "dict", lambda: mk("tuple", None, (self.eval(n.key), self.eval(n.value))))

    def e_BinOp(self, n):
        return self.binop(_OPS.get(type(n.op), "?"), self.eval(n.left), self.eval(n.right), n)

    def binop(self, op, a, b, node=None):
        if is_const(a) and is_const(b) and isinstance(cval(a), str) and isinstance(cval(b), str) and op == "+":
            return const(cval(a) + cval(b))
        if is_const(a) and is_const(b) and all(isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool) for x in (a, b)):
            try:
                return const({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                              "/": lambda x, y: x / y, "//": lambda x, y: x // y}[op](cval(a), cval(b)))
            except Exception:
                pass
        if op == "+" and a.k in ("list", "tuple") and b.k == a.k:
            return mk(a.k, a.a[0], a.a[1] + b.a[1]) if a.k == "tuple" else mk("list", ("+", a.a[0], b.a[0]), a.a[1] + b.a[1])
        return mk("bin", op, a, b)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            v = self.truth(v)
            return negate(v)
        if isinstance(n.op, ast.USub):
            if is_const(v) and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return mk("un", "-", v)
        if isinstance(n.op, ast.Invert):
            return mk("un", "~", v)
        return mk("un", "+", v)

    def e_BoolOp(self, n):
        op = "and" if isinstance(n.op, ast.And) else "or"
        items = []
        ng = len(self.guards)
        for v in n.values:
            t = self.eval(v)
            tt = self.truth(t)
            if is_const(tt):
                if (op == "and") == (not cval(tt)):
                    # short-circuits here
                    items.append(t)
                    break
                if v is not n.values[-1]:
                    continue
            items.append(t)
            self.guards.append((tt, op == "and"))
        del self.guards[ng:]
        if len(items) == 1:
            return items[0]
        last = items[-1]
        if is_const(last) and isinstance(cval(last), bool) and n.values[-1] is not None:
            pass
        return mk("bool", op, tuple(items))

    def e_Compare(self, n):
        l = self.eval(n.left)
        out = []
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c)
            o = _CMP[type(op)]
            t = self.compare(o, l, r)
            self.emit("cmp", n, op=o, left=l, right=r, term=t)
            out.append(t)
            l = r
        if len(out) == 1:
            return out[0]
        return mk("bool", "and", tuple(out))

    def compare(self, o, l, r):
        if is_const(l) and is_const(r) and o in ("==", "!=", "is", "is not"):
            eq = type(cval(l)) == type(cval(r)) and cval(l) == cval(r)
            return const(eq if o in ("==", "is") else not eq)
        if o in ("is", "is not") and r is NONE and l.k in ("list", "dict", "set", "tuple", "func", "cls", "closure", "new",
                                                          "bound", "comp", "upd", "inst", "fstr", "lambda"):
            return const(o == "is not")
        if o in ("is", "is not", "==", "!=") and l.k == "ite" and is_const(r):
            x, y = self.compare(o, l.a[1], r), self.compare(o, l.a[2], r)
            if is_const(x) and is_const(y):
                return self.truth(ite(l.a[0], x, y))
        if o in ("in", "not in") and is_const(l) and r.k in ("list", "tuple", "set") and all(is_const(x) for x in r.a[1]):
            v = any(type(cval(x)) == type(cval(l)) and cval(x) == cval(l) for x in r.a[1])
            return const(v if o == "in" else not v)
        if o in ("in", "not in") and is_const(l) and r.k == "dict" and all(is_const(x) for x, _ in r.a[1]):
            v = any(x is l for x, _ in r.a[1])
            return const(v if o == "in" else not v)
        if o in ("is", "==", "is not", "!=") and l.k == "cls" and r.k == "cls":
            v = l is r
            return const(v if o in ("is", "==") else not v)
        return mk("cmp", o, l, r)

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        if is_const(c):
            return self.eval(n.body if cval(c) else n.orelse)
        self.guards.append((c, True))
        a = self.eval(n.body)
        self.guards[-1] = (c, False)
        b = self.eval(n.orelse)
        self.guards.pop()
        return ite(c, a, b)

    def e_Lambda(self, n):
        fi = FuncInfo("<lambda>", n, self.frame.fi.module, None, self.frame.fi)
        fi.cls_ctx = _cls_ctx(self.frame.fi)
        return self._closure(fi)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.eval(v.value))
        return mk("fstr", tuple(parts))

    def e_FormattedValue(self, n):
        return mk("fstr", (self.eval(n.value),))

    def e_Starred(self, n):
        return mk("star", self.eval(n.value))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        self.emit("yield", n, value=v)
        f = self.frame
        if hasattr(f, "yields"):
            f.yields.append((self._local_guards(f), v))
        return mk("opaque", "yield")

    def _local_guards(self, f):
        return tuple((c, p) for c, p in self.guards[f.guard_base:] if c.k not in ("inloop", "intry", "except", "finally"))

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        f = self.frame
        if hasattr(f, "yields"):
            f.yields.append((self._local_guards(f), self.elem(v)))
        return mk("opaque", "yield")

    def e_Await(self, n):
        return self.eval(n.value)

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self._super(n)
        recv = None
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value)
            f = self.method(recv, n.func.attr, n.func)
        else:
            f = self.eval(n.func)
        args = list(self._items(n.args))
        kws = []
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                vv = v.a[1] if v.k == "gvar" else v
                exp = self._expand_kw(vv)
                if exp is not None:
                    kws.extend(exp)
                else:
                    kws.append(("**", v))
            else:
                kws.append((k.arg, v))
        return self.call(f, args, kws, n, recv, n.func.attr if isinstance(n.func, ast.Attribute) else None)

    def _expand_kw(self, d):
        """dict display with updates -> [(name, term)] or None"""
        if d.k == "dict":
            if all(is_const(k) and isinstance(cval(k), str) for k, _ in d.a[1]):
                return [(cval(k), v) for k, v in d.a[1]]
            return None
        if d.k == "upd" and d.a[0] == "setitem" and is_const(d.a[2][0]):
            b = self._expand_kw(d.a[1])
            if b is None:
                return None
            return [(k, v) for k, v in b if k != cval(d.a[2][0])] + [(cval(d.a[2][0]), d.a[2][1])]
        if d.k == "upd" and d.a[0] == "update" and len(d.a[2]) == 1:
            b = self._expand_kw(d.a[1])
            c = self._expand_kw(d.a[2][0])
            if b is None or c is None:
                return None
            m = dict(b)
            m.update(c)
            return list(m.items())
        if d.k == "call" and d.a[0] == "dict" and not d.a[1]:
            return list(d.a[2])
        if d.k == "ite":
            x, y = self._expand_kw(d.a[1]), self._expand_kw(d.a[2])
            if x is None or y is None:
                return None
            xd, yd = dict(x), dict(y)
            out = []
            for k in list(xd) + [k for k in yd if k not in xd]:
                out.append((k, ite(d.a[0], xd.get(k, UNDEF), yd.get(k, UNDEF))))
            return out
        return None

    def _super(self, n):
        f = self.frame
        while f is not None and f.fi.cls is None:
            f = f.parent
        cls = f.fi.cls if f else None
        if cls is None:
            return mk("opaque", "super")
        if len(n.args) == 2:
            c = self.eval(n.args[0])
            recv = self.eval(n.args[1])
            if c.k == "cls":
                cls = c.a[0]
        else:
            ps = f.fi.params()
            recv = f.state.env.get(ps[0]) if ps else mk("opaque", "super")
        return mk("super", cls, recv)

    def method(self, recv, name, node):
        """callee term for recv.name(...)"""
        t = self.attr(recv, name, node)
        if t.k == "attr" and t.a[0] is recv:
            cands = self.cha(name, recv)
            if cands:
                return mk("virt", tuple(mk("func", c) for c in cands), recv, name)
        return t

    def cha(self, name, recv):
        """project methods an unresolved receiver may dispatch to (unique-name class hierarchy analysis)"""
        if name.startswith("__") or name in NOT_CHA:
            return []
        if recv.k in ("const", "list", "dict", "set", "tuple", "glob", "call", "comp", "fstr"):
            return []
        c = [f for f in self.p.by_method.get(name, []) if not f.is_property]
        return c

    def can_inline(self, fi):
        if self.steps > self.budget:
            self.truncated = True
            return False
        if len(self.stack) >= self.max_depth:
            return False
        if sum(1 for f in self.stack if f.fi.node is fi.node) >= 1:
            return False
        return self.inline_fn(fi)

    def call(self, f, args, kws, node, recv=None, mname=None):
        if f.k == "gvar":
            f = f.a[1]
        h = self.hooks.get("call")
        if h is not None:
            r = h(self, f, args, kws, node, recv, mname)
            if r is not None:
                return r
        if f.k == "func":
            return self.call_func(f.a[0], args, kws, node)
        if f.k == "bound":
            return self.call_func(f.a[0], [f.a[1]] + args, kws, node)
        if f.k == "closure":
            c = self.closures[("closure", f.a[0])]
            return self.call_func(c.fi, args, kws, node, closure=c)
        if f.k == "cls":
            return self.construct(f.a[0], args, kws, node)
        if f.k in ("ite",):
            if any(x.k in ("func", "bound", "closure", "cls", "virt", "glob") for x in alts(f)):
                a = self.call(f.a[1], args, kws, node, recv, mname)
                b = self.call(f.a[2], args, kws, node, recv, mname)
                return ite(f.a[0], a, b)
        if f.k == "phi":
            al = sorted(f.a[0], key=_tkey)
            if any(x.k in ("func", "bound", "closure", "cls", "virt") for x in al):
                return phi([self.call(x, args, kws, node, recv, mname) for x in al if not is_const(x)])
        if f.k == "partial":
            return self.call(f.a[0], list(f.a[1]) + args, list(f.a[2]) + kws, node)
        if f.k == "virt":
            cands = [x.a[0] for x in f.a[0]]
            r0 = f.a[1]
            if len(cands) == 1:
                return self.call_func(cands[0], [r0] + args if not cands[0].is_staticmethod else args, kws, node)
            self.emit("call", node, callee=cands, name=f.a[2], recv=r0, args=tuple(args), kws=tuple(kws), bound=None, virtual=True)
            vh = self.hooks.get("virt_inline")
            if vh and vh(f.a[2], cands, r0):
                outs = []
                for c in cands:
                    outs.append(self.call_func(c, [r0] + args, kws, node))
                return phi(outs)
            t = mk("mcall", r0, f.a[2], tuple(args), tuple(kws))
            return self._mut_model(r0, f.a[2], args, kws, node, t)
        if f.k == "glob":
            return self.builtin(f.a[0], args, kws, node)
        if f.k == "attr" and mname is not None:
            r = self.std_method(recv, mname, args, kws, node)
            return r
        self.emit("call", node, callee=[], name=None, fterm=f, recv=recv, args=tuple(args), kws=tuple(kws), bound=None)
        return mk("dcall", f, tuple(args), tuple(kws))

    def std_method(self, recv, name, args, kws, node):
        t = mk("mcall", recv, name, tuple(args), tuple(kws))
        if args and args[0].k in ("func", "bound", "closure", "partial") and name in CALLBACKS:
            # recv.map(f, xs, **kw): f runs on an element of each sequence; recv.apply(f): on a part of recv
            if name in ("map", "submit") and len(args) > 1:
                cargs = [self.elem(x) if name == "map" else x for x in args[1:]]
            else:
                cargs = [mk("part", recv)] + list(args[1:])
            ck = [(k, v) for k, v in kws if k not in ("axis", "meta", "result_type")]
            r = self.call(args[0], cargs, ck if name in ("map", "submit") else [], node)
            cb = mk("cbcall", recv, name, r, tuple(args), tuple(kws))
            self.emit("call", node, callee=[], name=name, recv=recv, args=tuple(args), kws=tuple(kws), bound=None, term=t, cb=cb)
            return cb
        self.emit("call", node, callee=[], name=name, recv=recv, args=tuple(args), kws=tuple(kws), bound=None, term=t)
        return self._mut_model(recv, name, args, kws, node, t)

    def _mut_model(self, recv, name, args, kws, node, t):
        if name == "get" and recv.k in ("dict", "gvar", "upd") and args:
            base = recv.a[1] if recv.k == "gvar" else recv
            if is_const(args[0]) and base.k == "dict" and all(is_const(k) for k, _ in base.a[1]):
                for k, v in base.a[1]:
                    if k is args[0]:
                        return v
                return args[1] if len(args) > 1 else NONE
            if base.k == "dict" and base.a[1] and len(base.a[1]) <= 40 and all(v.k in ("func", "bound", "cls", "closure") for _, v in base.a[1]):
                return phi([v for _, v in base.a[1]] + [args[1] if len(args) > 1 else NONE])      # a table of functions
        if name == "setdefault" and len(args) == 2:
            cur = mk("item", recv, args[0])
            self.mutate(recv, "setitem", args[0], phi([args[1], cur]))
            return phi([args[1], cur])
        if name in _MUT_METHODS:
            self.mutate(recv, name, *args)
            if name in ("pop", "popitem"):
                return t if not (args and recv.k in ("dict", "upd")) else self._popped(recv, args)
            return NONE
        if dict(kws).get("inplace") is TRUE:
            self.mutate(recv, name + "!", *args)
            return NONE
        if name == "format" and recv.k == "const":
            return mk("fmt", recv, tuple(args), tuple(kws))
        return t

    def _popped(self, recv, args):
        return self.item(recv, args[0])

    def builtin(self, name, args, kws, node):
        t = mk("call", name, tuple(args), tuple(kws))
        self.emit("call", node, callee=[], name=name, recv=None, args=tuple(args), kws=tuple(kws), bound=None, term=t)
        if name == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(cval(args[1]), str):
            if len(args) == 2:
                return self.attr(args[0], cval(args[1]), node)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            self.set_attr(args[0], cval(args[1]), args[2], node)
            return NONE
        if name in ("functools.partial", "partial") and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(kws))
        if name in ("functools.wraps", "wraps"):
            return mk("identityfn")
        if name in ("list", "dict", "set") and not args and not kws:
            return self._fresh(mk({"list": "list", "dict": "dict", "set": "set"}[name], self._alloc(node), ()))
        if name == "dict" and not args and kws and all(k != "**" for k, _ in kws):
            return self._fresh(mk("dict", self._alloc(node), tuple((const(k), v) for k, v in kws)))
        if name == "type" and len(args) == 1:
            c = self.typeof(args[0])
            if args[0].k == "new":
                return mk("cls", args[0].a[0])
        if name.startswith("operator.") and len(args) == 2:
            o = name[9:]
            if o in _OPFN_CMP:
                r = self.compare(_OPFN_CMP[o], args[0], args[1])
                self.emit("cmp", node, op=_OPFN_CMP[o], left=args[0], right=args[1], term=r)
                return r
            if o in _OPFN_BIN:
                return self.binop(_OPFN_BIN[o], args[0], args[1])
            if o == "getitem":
                return self.item(args[0], args[1])
        if name in ("operator.not_", "operator.inv", "operator.invert") and len(args) == 1:
            return negate(self.truth(args[0])) if name == "operator.not_" else mk("un", "~", args[0])
        if name == "bool" and len(args) == 1:
            return self.truth(args[0])
        if name == "str" and len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), str):
            return args[0]
        if name == "isinstance" and len(args) == 2:
            return self._isinstance(args[0], args[1], t)
        if name == "len" and len(args) == 1 and args[0].k in ("list", "tuple") and not any(x.k == "star" for x in args[0].a[1]):
            return const(len(args[0].a[1]))
        if name == "next" and args:
            return self.elem(args[0])
        if name == "map" and len(args) == 2:
            e = self.elem(args[1])
            r = self.call(args[0], [e], [], node)
            return mk("comp", "gen", r, (mk("g", args[1], ()),), self._alloc(node))
        if name == "sorted" or name == "filter":
            # evaluate a key / predicate closure once so that its body is analysed
            fn = dict(kws).get("key") if name == "sorted" else (args[0] if args else None)
            seq = args[0] if name == "sorted" and args else (args[1] if len(args) > 1 else None)
            if fn is not None and seq is not None and fn.k in ("closure", "func", "bound"):
                self.call(fn, [self.elem(seq)], [], node)
        return t

    def _isinstance(self, v, c, t):
        if v.k == "ite" and len(alts(v)) <= 12:
            x = self._isinstance(v.a[1], c, mk("call", "isinstance", (v.a[1], c), ()))
            y = self._isinstance(v.a[2], c, mk("call", "isinstance", (v.a[2], c), ()))
            if is_const(x) or is_const(y):
                return self.truth(ite(v.a[0], x, y))
            return t
        cs = []
        for x in ([c] if c.k != "tuple" else c.a[1]):
            cs.append(x)
        tv = None
        if v.k == "new":
            tv = v.a[0]
        elif v.k == "const":
            tv = type(cval(v)).__name__
        elif v.k in ("list", "dict", "set", "tuple"):
            tv = v.k
        elif v.k == "upd":
            return self._isinstance(v.a[1], c, t)
        elif v.k == "mcall" and v.a[1] in ("groupby", "set_index", "merge", "reset_index"):
            tv = "frame"
        if tv is None:
            return t
        res = []
        for x in cs:
            if x.k == "cls":
                res.append(isinstance(tv, ClassInfo) and tv.is_subclass(x.a[0]))
            elif x.k == "glob":
                if isinstance(tv, str):
                    if x.a[0] == tv:
                        res.append(True)
                    elif x.a[0] in ("str", "int", "float", "bool", "list", "dict", "set", "tuple", "NoneType"):
                        res.append(False)
                    else:
                        return t
                elif x.a[0] in tv.external_bases():
                    res.append(True)
                else:
                    res.append(False)
            else:
                return t
        return const(any(res))

    def construct(self, cls, args, kws, node):
        obj = mk("new", cls, self._alloc(node), tuple(args), tuple(kws))
        init = cls.find_method("__init__")
        self.emit("new", node, cls=cls, args=tuple(args), kws=tuple(kws), obj=obj, init=init,
                  bound=self.bind(init, [obj] + list(args), kws) if init is not None else None)
        if init is not None and self.can_inline(init):
            self.call_func(init, [obj] + args, kws, node, noevent=True)
        return obj

    def bind(self, fi, args, kws):
        """param -> term; None if binding fails"""
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        b, extra, kwextra = {}, [], []
        i = 0
        star = None
        for x in args:
            if x.k == "star":
                star = x.a[0]
                continue
            if star is not None:
                continue
            if i < len(ps):
                b[ps[i]] = x
                i += 1
            else:
                extra.append(x)
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        unk = None
        for k, v in kws:
            if k == "**":
                unk = v
            elif k in names:
                b[k] = v
            else:
                kwextra.append((const(k), v))
        dfl = fi.defaults()
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p in b and b[p] is not UNDEF and not (b[p].k == "ite" and UNDEF in b[p].a):
                continue
            cur = b.get(p)
            d = None
            if p in dfl:
                d = self._default(fi, dfl[p])
            if cur is not None and cur.k == "ite":
                b[p] = ite(cur.a[0], d if (cur.a[1] is UNDEF and d is not None) else cur.a[1],
                           d if (cur.a[2] is UNDEF and d is not None) else cur.a[2])
                continue
            alt = []
            if star is not None and p in ps and ps.index(p) >= i:
                alt.append(mk("elem", star))
            if unk is not None:
                alt.append(mk("item", unk, const(p)))
            if d is not None:
                alt.append(d)
            b[p] = phi(alt) if alt else mk("missing", p)
        if a.vararg:
            b[a.vararg.arg] = mk("tuple", None, tuple(extra) + ((mk("star", star),) if star is not None else ()))
        if a.kwarg:
            ps2 = tuple(kwextra)
            if unk is not None:
                if not ps2:
                    b[a.kwarg.arg] = unk
                else:
                    b[a.kwarg.arg] = mk("dict", ("kw", fi.qual), ps2 + ((mk("star", unk), mk("star", unk)),))
            else:
                b[a.kwarg.arg] = mk("dict", ("kw", fi.qual), ps2)
        return b

    def _default(self, fi, node):
        if isinstance(node, ast.Constant):
            return const(node.value)
        fr = Frame(FuncInfo("<default>", fi.node, fi.module))
        fr.state = State({}, self.heap)
        self.stack.append(fr)
        self.quiet += 1
        try:
            return self.eval(node)
        finally:
            self.quiet -= 1
            self.stack.pop()

    def call_func(self, fi, args, kws, node, closure=None, noevent=False):
        b = self.bind(fi, args, kws)
        inl = self.can_inline(fi)
        ev = None
        if not noevent:
            ev = self.emit("call", node, callee=[fi], name=fi.name, recv=args[0] if (fi.cls is not None and args) else None,
                           args=tuple(args), kws=tuple(kws), bound=b, inlined=inl)
        if inl:
            pf = closure.frame if closure is not None else None
            if pf is not None and pf.state is None:
                pf = None
            cs = getattr(self, "_callsites", ())
            self._callsites = cs + ((getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.frame.fi.qual if self.stack else ""),)
            caller = self.stack[-1] if self.stack else None
            if caller is not None:
                self.heap = caller.state.heap
            try:
                r = self._exec_function(fi, b, pf)
            finally:
                self._callsites = cs
                if caller is not None:
                    caller.state.heap = self.heap
            if ev is not None:
                ev.d["result"] = r
            self.emit("leave", node, fi=fi, result=r)
            return r
        order = fi.all_params()
        t = mk("pcall", fi, tuple((p, b[p]) for p in order if p in b))
        if ev is not None:
            ev.d["result"] = t
        return t


NORET_DEAD = mk("noret_dead")

CALLBACKS = {"map", "submit", "apply", "agg", "aggregate", "transform", "applymap", "map_partitions", "pipe"}

# method names too generic to resolve by name alone
NOT_CHA = {"copy", "get", "pop", "items", "keys", "values", "append", "add", "update", "remove", "insert", "extend",
           "head", "query", "to_pickle", "to_parquet", "to_csv", "to_dictionary", "concat", "plot", "__call__",
           "format", "join", "split", "describe", "load", "save", "close", "count", "sum", "mean", "max", "min",
           "rename", "sort", "index", "isin", "apply", "set_index", "merge"}

# attribute names with one meaning across the analysed package (confirmed by reading)
DEFAULT_ATTR_TYPES = {
    "entityset": "EntitySet",
    "parent_entity": "Entity", "child_entity": "Entity",
    "entities": "[Entity]",
    "relationships": "[Relationship]",
    "variables": "[Variable]",
    "parent_variable": "Variable", "child_variable": "Variable",
}


def _gate_yields(ys):
    """elements of a generator: alternatives under exclusive conditions become gated"""
    if len(ys) == 1:
        return ys[0][1]
    if all(g for g, _ in ys):
        c = ys[0][0][0][0]
        if all(g[0][0] is c for g, _ in ys):
            a = [(g[1:], v) for g, v in ys if g[0][1]]
            b = [(g[1:], v) for g, v in ys if not g[0][1]]
            if a and b:
                return ite(c, _gate_yields(a), _gate_yields(b))
            return _gate_yields(a or b)
    return phi([v for _, v in ys])


def _has_yield(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def _cls_ctx(fi):
    while fi is not None:
        if fi.cls is not None:
            return fi.cls
        fi = fi.parent
    return None


def _load_copy(n):
    import copy
    m = copy.copy(n)
    m.ctx = ast.Load()
    return m


def _subst_noret(r, v):
    if r is NORET or r is NORET_DEAD:
        return v
    if r.k == "ite":
        if not _has_noret(r):
            return r
        return ite(r.a[0], _subst_noret(r.a[1], v), _subst_noret(r.a[2], v))
    if r.k == "phi":
        if not _has_noret(r):
            return r
        return phi([_subst_noret(x, v) for x in sorted(r.a[0], key=_tkey)])
    return r


def _has_noret(r):
    if r is NORET or r is NORET_DEAD:
        return True
    if r.k == "ite":
        return _has_noret(r.a[1]) or _has_noret(r.a[2])
    if r.k == "phi":
        return any(_has_noret(x) for x in r.a[0])
    return False


def _ite_ret(c, ra, rb, al_a, al_b):
    na = ra in (NORET, NORET_DEAD)
    nb = rb in (NORET, NORET_DEAD)
    if na and nb:
        if not al_a and not al_b and ra is NORET_DEAD and rb is NORET_DEAD:
            return NORET_DEAD
        return NORET
    # a branch that fell through (or left the loop) continues with what follows
    return ite_keep(c, NORET if na else ra, NORET if nb else rb)


def ite_keep(c, a, b):
    return ite(c, a, b)
