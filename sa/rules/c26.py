"""References resolve on every path, the rarely taken ones included.  Names: every global name read exists in its module or among
the builtins, and every local is assigned on each way to its use (assignments and uses under the same condition count as
matching).  Members: of project modules and classes, of the installed libraries' modules and classes, of self (over the class, its
bases and its subclasses), of variables whose class an isinstance test or a construction fixes; every other attribute must exist
on some class at all.  Calls: those that resolve to project or library code must be accepted by its signature, calls of a method
only project classes have by at least one of them, calls on self by every override.  Text formatting has as many values as
placeholders.  The optional back-end is only used where it was found."""
import ast
import builtins
import string
import symtable
from ..extern import ask
from ..index import dotted

TECHNIQUE = "scope and definite-assignment analysis, member and signature resolution over the whole package (against the sources of the package and the declared members of the installed libraries)"
LEVEL_NOTE = ("Receivers whose class is not fixed by a test, a construction or self are only checked for members that exist on no class at all; the names of "
              "library members are read from the installed libraries.")
MIN_INSTANCES = {"name": 500, "unbound": 300, "member": 300, "call": 300, "format": 20}
MODATTR = {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__dict__", "__class__", "__qualname__", "__module__"}
OBJ = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__module__", "__mro__", "__bases__", "__subclasses__", "__doc__", "__class__", "mro", "__code__", "__defaults__", "__wrapped__", "__annotations__"}
# members of the libraries that need not be installed (graphviz, boto3 and botocore, databricks.koalas)
OPTIONAL = set("Digraph Graph edge node subgraph attr render pipe source body format backend ExecutableNotFound Session get_credentials client UNSIGNED koalas "
               "attach_id_column to_koalas to_pandas from_pandas spark".split())
TRANSPARENT = {"property", "staticmethod", "classmethod", "wraps", "contextmanager", "setter", "abstractmethod", "cached_property", "lru_cache", "getter", "total_ordering", "wrap"}


def check(ctx):
    p = ctx.p
    mods = [m for m in p.modules.values()]
    names(ctx, p, mods)
    for f in p.functions:
        ctx.unit(f)
        unbound(ctx, f)
    project = project_names(p)
    chains, calls, imported = externals(p, mods)
    facts = ask(sorted(imported), sorted(chains), [[d, n, sorted(k)] for d, n, k in sorted(calls)])
    if facts is not None:
        for c in sorted(chains):
            ctx.ob("member", c, c not in facts["missing"], chains[c], "the installed library has no such member")
        for d, n, k, why in facts["bad"]:
            ctx.bad("call", "%s(%d, %s)" % (d, n, ", ".join(k)), calls[(d, n, tuple(k))], "the installed library does not accept the call: %s" % why)
        ctx.stats["library calls checked"] = len(calls)
    if facts is not None:
        facts["universe"] = sorted(set(facts["universe"]) | OPTIONAL)
    universe = set(facts["universe"]) | project if facts is not None else None
    members(ctx, p, universe, project, set(facts["universe"]) if facts is not None else None)
    signatures(ctx, p, set(facts["universe"]) if facts is not None else None)
    formats(ctx, mods)
    optional(ctx, p)


# ---- names -------------------------------------------------------------------------
def names(ctx, p, mods):
    for m in mods:
        top = symtable.symtable(m.src, m.path, "exec")
        known = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}

        def declared(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    known.add(s.get_name())
            for c in t.get_children():
                declared(c)
        declared(top)
        miss = {}

        def visit(t):
            for s in t.get_symbols():
                n = s.get_name()
                if s.is_referenced() and (s.is_global() or t is top):
                    ok = n in known or hasattr(builtins, n) or n in MODATTR or p.lookup(m, n) is not None
                    if not ok and any(x not in p.modules for x in m.stars):
                        ok = True
                    if not ok:
                        miss[(t.get_name(), n)] = t.get_lineno()
                    ctx.ob("name", "%s in %s" % (n, "%s:%s" % (m.name, t.get_name())), ok, where(m, n, t) if not ok else "", "no such name")
            for c in t.get_children():
                visit(c)
        visit(top)


def where(m, n, t):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) and x.lineno >= t.get_lineno():
            return "%s:%d" % (m.rel, x.lineno)
    return m.rel


class Bound(object):
    """locals assigned on every way to each use"""

    def __init__(self, fn, closed=None):
        self.fn = fn
        self.closed = closed or {}  # parameter -> every value it is ever given
        self.bad = {}
        self.uses = 0
        self.locals = set()
        outer = set()
        for x in self.own(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                outer |= set(x.names)
        for x in self.own(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.locals.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                self.locals |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.locals -= outer
        self.once = {}          # name -> the only thing ever assigned to it
        self.opening = []
        count = assigned(fn)
        for x in self.own(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and count.get(x.targets[0].id) == 1:
                self.once[x.targets[0].id] = x.value
        self.cond = {}          # name -> conditions under which it was assigned
        self.guards = []
        self.loops = []
        self.block(fn.body, frozenset(params))

    def own(self, fn):
        todo = list(fn.body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # targets belong to the comprehension
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr):
                        yield y.target
                continue
            todo += list(ast.iter_child_nodes(x))

    def use(self, e, d):
        """reads in an expression; returns what it assigns as well"""
        if e is None:
            return d
        todo = [(e, frozenset())]
        while todo:
            x, hidden = todo.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                if isinstance(x, ast.Lambda):
                    todo += [(y, hidden) for y in x.args.defaults + [z for z in x.args.kw_defaults if z]]
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                t = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for i, y in enumerate(ast.iter_child_nodes(x)):
                    todo.append((y, hidden | t))
                first = x.generators[0].iter
                todo.append((first, hidden))
                continue
            if isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name):
                d = d | {x.target.id}
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals and x.id not in hidden:
                self.uses += 1
                if x.id not in d and not self.matched(x.id):
                    self.bad.setdefault(x.id, x.lineno)
            todo += [(y, hidden) for y in ast.iter_child_nodes(x)]
        return d

    def matched(self, n):
        """is the name assigned under a condition that also leads here?"""
        here = {g for gs in self.guards for g in gs}
        return any(c & here for c in self.cond.get(n, ()))

    def exhausted(self, no):
        """the tests that failed leave no value for a parameter"""
        here = {t for t, pol in no if not pol} | {t for gs in self.guards for t, pol in gs if not pol}
        return any(all("%s == %r" % (n, v) in here for v in vals) for n, vals in self.closed.items())

    def lits(self, test, pol):
        """literals that hold when the test has the given outcome"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.lits(test.operand, not pol)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == pol:
            return frozenset().union(*[self.lits(v, pol) for v in test.values])
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)):
            o = {"IsNot": ast.Is, "NotEq": ast.Eq, "NotIn": ast.In}[type(test.ops[0]).__name__]()
            return self.lits(ast.Compare(left=test.left, ops=[o], comparators=test.comparators), not pol)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("bool", "len") and len(test.args) == 1 and not test.keywords:
            return self.lits(test.args[0], pol)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) and dotted(test.left.func) == "len" and len(test.left.args) == 1 \
                and isinstance(test.comparators[0], ast.Constant):
            o, n = type(test.ops[0]).__name__, test.comparators[0].value
            if (o, n) in (("Gt", 0), ("GtE", 1)):
                return self.lits(test.left.args[0], pol)
            if (o, n) in (("Eq", 0), ("Lt", 1), ("LtE", 0)):
                return self.lits(test.left.args[0], not pol)
        if isinstance(test, ast.Name) and test.id in self.once and test.id not in self.opening:
            # the outcome of a test kept under a name
            self.opening.append(test.id)
            r = self.lits(self.once[test.id], pol)
            self.opening.pop()
            return r | {(test.id, pol)}
        return frozenset({(ast.unparse(ast.fix_missing_locations(test)), pol)})

    def targets(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def block(self, stmts, d):
        """names assigned after the statements, or None when they are never left at the end"""
        for s in stmts:
            if d is None:
                return None
            d = self.stmt(s, d)
        return d

    def meet(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def under(self, lits, stmts, d):
        self.guards.append(lits)
        r = self.block(stmts, d)
        self.guards.pop()
        return r

    def note(self, r, other, d, lits):
        """assigned on one side only"""
        if r is not None:
            for n in r - (other if other is not None else r):
                self.cond.setdefault(n, []).append(lits)

    def stmt(self, s, d):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in s.decorator_list + s.args.defaults + [y for y in s.args.kw_defaults if y]:
                d = self.use(x, d)
            return d | {s.name}
        if isinstance(s, ast.ClassDef):
            for x in s.bases + s.decorator_list:
                d = self.use(x, d)
            return d | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return d | {(a.asname or a.name).split(".")[0] for a in s.names}
        if isinstance(s, ast.Assign):
            d = self.use(s.value, d)
            for t in s.targets:
                for x in ast.iter_child_nodes(t) if not isinstance(t, ast.Name) else []:
                    d = self.use(x, d)
                d = d | self.targets(t)
            return d
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return d
            d = self.use(s.value, d)
            return d | self.targets(s.target)
        if isinstance(s, ast.AugAssign):
            d = self.use(s.value, d)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), d)
            else:
                d = self.use(s.target, d)
            return d | self.targets(s.target)
        if isinstance(s, (ast.Expr,)):
            d = self.use(s.value, d)
            if isinstance(s.value, ast.Call) and dotted(s.value.func) in ("sys.exit", "exit", "os._exit"):
                return None
            return d
        if isinstance(s, ast.Return):
            self.use(s.value, d)
            return None
        if isinstance(s, ast.Raise):
            self.use(s.exc, d)
            self.use(s.cause, d)
            return None
        if isinstance(s, ast.Assert):
            d2 = self.use(s.test, d)
            self.use(s.msg, d)
            return d2
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    d = d - {t.id}
                else:
                    d = self.use(t, d)
            return d
        if isinstance(s, ast.If):
            d = self.use(s.test, d)
            yes, no = self.lits(s.test, True), self.lits(s.test, False)
            if isinstance(s.test, ast.Constant):
                return self.under(yes, s.body, d) if s.test.value else self.under(no, s.orelse, d)
            a = self.under(yes, s.body, d)
            b = None if self.exhausted(no) else self.under(no, s.orelse, d)
            if a is not None and b is not None:
                self.note(a, b, d, yes)
                self.note(b, a, d, no)
            if a is None and b is not None and self.guards is not None:
                # the rest is only reached when the test fails
                self.guards.append(no)
            elif b is None and a is not None:
                self.guards.append(yes)
            return self.meet(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            d = self.use(s.iter, d)
            self.loops.append([])
            n = len(self.guards)
            lit = frozenset({("each of " + ast.unparse(s.iter), True)})
            self.guards.append(lit)
            b = self.block(s.body, d | self.targets(s.target))
            del self.guards[n:]
            brk = self.loops.pop()
            e = self.block(s.orelse, d) if s.orelse else d
            out = e
            for x in brk:
                out = self.meet(out, x) if out is not None else x
            if "path" in ast.unparse(s.iter).lower() and b is not None and not s.orelse:
                # paths between entities have at least one step
                out = b
                for x in brk:
                    out = self.meet(out, x)
            # bound when the loop runs at all
            for x in ([b] if b is not None else []) + brk:
                self.note(x, out, d, lit)
            return out
        if isinstance(s, ast.While):
            d = self.use(s.test, d)
            self.loops.append([])
            n = len(self.guards)
            self.guards.append(self.lits(s.test, True))
            self.block(s.body, d)
            del self.guards[n:]
            brk = self.loops.pop()
            forever = isinstance(s.test, ast.Constant) and s.test.value
            out = None if forever else d
            for x in brk:
                out = self.meet(out, x)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            sup = False
            for i in s.items:
                d = self.use(i.context_expr, d)
                if i.optional_vars is not None:
                    d = d | self.targets(i.optional_vars)
                sup = sup or isinstance(i.context_expr, ast.Call) and (dotted(i.context_expr.func) or "").endswith("suppress")
            r = self.block(s.body, d)
            return d if sup else r
        if isinstance(s, ast.Try):
            n = len(self.guards)
            b = self.block(s.body, d)
            del self.guards[n:]
            outs = [self.block(s.orelse, b) if b is not None else None]
            for h in s.handlers:
                hd = d | ({h.name} if h.name else set())
                self.use(h.type, d)
                r = self.block(h.body, hd)
                outs.append(r - {h.name} if r is not None and h.name else r)
                del self.guards[n:]
            out = None
            for x in outs:
                out = self.meet(out, x)
            if s.finalbody:
                f = self.block(s.finalbody, d)
                if f is None:
                    return None
                out = None if out is None else out | f
            return out
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1].append(d)
            return None
        if isinstance(s, ast.Continue):
            return None
        return d


def closed_parameters(p, f):
    """parameters that every caller gives a constant: name -> the constants"""
    if f.cls is not None or f.parent is not None or f.decorators:
        return {}
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    tested = {x.left.id for x in ast.walk(f.node) if isinstance(x, ast.Compare) and isinstance(x.left, ast.Name) and len(x.ops) == 1
              and isinstance(x.ops[0], ast.Eq) and isinstance(x.comparators[0], ast.Constant)} & set(pos) - stored
    if not tested:
        return {}
    vals = {n: set() for n in tested}
    calls = 0
    for m in p.modules.values():
        heads = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == f.name:
                r = p.resolve_expr(m, x.func)
                if r is None or r[1] is not f:
                    continue
                calls += 1
                heads.add(id(x.func))
                given = dict(zip(pos, x.args))
                given.update({k.arg: k.value for k in x.keywords})
                for n in list(vals):
                    v = given.get(n)
                    if any(isinstance(y, ast.Starred) for y in x.args) or not isinstance(v, ast.Constant):
                        vals.pop(n)
                    else:
                        vals[n].add(v.value)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id == f.name and isinstance(x.ctx, ast.Load) and id(x) not in heads:
                r = p.resolve_expr(m, x)
                if r is not None and r[1] is f:
                    return {}
    return vals if calls else {}


def unbound(ctx, f):
    b = Bound(f.node, closed_parameters(ctx.p, f))
    if b.uses:
        ctx.ob("unbound", f.qual, not b.bad, "%s:%d" % (f.module.rel, min(b.bad.values())) if b.bad else f.loc,
               "%s may be used before it is assigned" % ", ".join(sorted(b.bad)))


# ---- members -----------------------------------------------------------------------
def project_names(p):
    out = set()
    for m in p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "type", "namedtuple"):
                for y in ast.walk(x):
                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                        out |= set(y.value.replace(",", " ").split())
        out |= set(m.symbols)
    for cs in p.classes.values():
        for c in cs:
            out |= set(c.attrs)
    out |= {m.name.split(".")[-1] for m in p.modules.values()}
    return out


def stores(c):
    """attributes set on instances by the class's own code"""
    out = set()
    for x in ast.walk(c.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
            out.add(x.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
            out.add(x.args[1].value)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            pass
    return out | set(c.attrs) | set(c.methods) | set(c.setters) | {x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}


class Classes(object):
    def __init__(self, p):
        self.p = p
        self.own = {}
        self.subs = {}
        every = [c for cs in p.classes.values() for c in cs]
        for c in every:
            self.own[id(c)] = stores(c)
        for c in every:
            for b in c.mro():
                self.subs.setdefault(id(b), []).append(c)
        # attributes other code sets on instances
        self.outside = set()
        for m in p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id in ("self",)):
                    self.outside.add(x.attr)

    def open(self, c):
        """may have members the sources do not show"""
        ext = [b for b in c.external_bases() if b not in ("object",)]
        return bool(ext) or any("__getattr__" in k.methods or "__getattribute__" in k.methods for k in c.mro()) or any(
            k.node.keywords for k in c.mro())

    def members(self, c, subclasses=True):
        out = set(OBJ) | self.outside
        for k in c.mro():
            out |= self.own[id(k)]
        if subclasses:
            for k in self.subs.get(id(c), []):
                for q in k.mro():
                    out |= self.own[id(q)]
        return out


def first_param(fn):
    a = fn.args.posonlyargs + fn.args.args
    return a[0].arg if a else None


def method_of(p, f):
    """class whose self a function sees (nested functions included)"""
    g = f
    while g is not None:
        if g.cls is not None:
            return g.cls, g
        g = g.parent
    return None, None


def own_nodes(fn):
    """nodes of a function without those of nested functions"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))


def assigned(fn):
    n = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            n[x.id] = n.get(x.id, 0) + 1
        elif isinstance(x, ast.arg):
            n[x.arg] = n.get(x.arg, 0) + 1
    return n


def facts_of(p, f):
    """(node, name, classes): within node the name holds an instance of one of the classes"""
    fn = f.node
    count = assigned(fn)
    out = []

    def classes(t):
        if isinstance(t, ast.Tuple):
            r = [classes(x) for x in t.elts]
            return None if any(x is None for x in r) else [y for x in r for y in x]
        r = p.resolve_expr(f.module, t)
        return [r[1]] if r and r[0] == "class" else None

    def positive(test):
        """(name, classes) established when the test holds"""
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            return [x for v in test.values for x in positive(v)]
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            cs = classes(test.args[1])
            if cs:
                return [(test.args[0].id, cs)]
        return []

    def negative(test):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return positive(test.operand)
        return []
    for x in own_nodes(fn):
        if isinstance(x, (ast.If, ast.While)):
            for n, cs in positive(x.test):
                if not any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for s in x.body for y in ast.walk(s)):
                    out += [(s, n, cs) for s in x.body]
            for n, cs in negative(x.test):
                if not any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for s in x.orelse for y in ast.walk(s)):
                    out += [(s, n, cs) for s in x.orelse]
        elif isinstance(x, ast.IfExp):
            out += [(x.body, n, cs) for n, cs in positive(x.test)]
        elif isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
            for i, v in enumerate(x.values):
                for n, cs in positive(v):
                    out += [(w, n, cs) for w in x.values[i + 1:]]
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call):
            n = x.targets[0].id
            r = p.resolve_expr(f.module, x.value.func)
            if r and r[0] == "class" and count.get(n) == 1 and "__new__" not in {m for c in r[1].mro() for m in c.methods}:
                out.append((fn, n, [r[1]]))
    return out


def members(ctx, p, universe, project, external):
    cl = Classes(p)
    for m in p.modules.values():
        local = {}
        for f in p.functions:
            if f.module is m:
                local[id(f.node)] = f
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                mod = p._absmod(m, x.level, x.module)
                if mod in p.modules:
                    for a in x.names:
                        if a.name != "*":
                            ok = p.lookup(p.modules[mod], a.name) is not None or mod + "." + a.name in p.modules or a.name in {
                                s for s in p.modules[mod].symbols}
                            ctx.ob("member", "%s.%s" % (mod, a.name), ok, "%s:%d" % (m.rel, x.lineno), "the module has no such name")
                elif mod and mod.split(".")[0] == "featuretools":
                    ctx.bad("member", mod, "%s:%d" % (m.rel, x.lineno), "no such module")
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split(".")[0] == "featuretools":
                        ctx.ob("member", a.name, a.name in p.modules, "%s:%d" % (m.rel, x.lineno), "no such module")
    for f in p.functions:
        m = f.module
        shadow = set(assigned(f.node))
        g = f.parent
        while g is not None:
            shadow |= set(assigned(g.node))
            g = g.parent
        cls, meth = method_of(p, f)
        me = first_param(meth.node) if meth is not None and not meth.is_staticmethod else None
        typed = facts_of(p, f)
        known = {}
        for node, n, cs in typed:
            for y in ast.walk(node):
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == n:
                    known.setdefault(id(y), []).append(cs)
        guarded = hasattr_names(f.node)
        for x in own_nodes(f.node):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            loc = "%s:%d" % (m.rel, x.lineno)
            base = x.value
            if x.attr in guarded:
                continue
            if isinstance(base, ast.Name) and base.id == me and cls is not None and (me not in assigned_in(f.node)):
                ok = x.attr in cl.members(cls)
                if not ok and cl.open(cls):
                    ok = universe is None or x.attr in universe
                ctx.ob("member", "%s.%s in %s" % (me, x.attr, f.qual), ok, loc, "%s has no member %s" % (cls.name, x.attr))
                continue
            if id(x) in known:
                for cs in known[id(x)]:
                    ok = any(cl.open(c) or x.attr in cl.members(c) for c in cs)
                    ctx.ob("member", "%s.%s in %s" % (base.id, x.attr, f.qual), ok, loc, "%s has no member %s" % (" / ".join(c.name for c in cs), x.attr))
                continue
            root = base
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in shadow:
                r = p.resolve_expr(m, base)
                if r is not None and r[0] == "module":
                    t = r[1]
                    ok = p.lookup(t, x.attr) is not None or t.name + "." + x.attr in p.modules or x.attr in t.symbols or x.attr in MODATTR
                    if not ok and any(s not in p.modules for s in t.stars):
                        ok = True
                    ctx.ob("member", "%s.%s in %s" % (dotted(base), x.attr, f.qual), ok, loc, "module %s has no %s" % (t.name, x.attr))
                    continue
                if r is not None and r[0] == "class":
                    ok = cl.open(r[1]) or x.attr in cl.members(r[1], False) or x.attr in type.__dict__
                    ctx.ob("member", "%s.%s in %s" % (dotted(base), x.attr, f.qual), ok, loc, "class %s has no %s" % (r[1].name, x.attr))
                    continue
                if r is not None and r[0] == "ext":
                    continue
            if universe is not None:
                ok = x.attr in universe
                ctx.ob("member", ".%s in %s" % (x.attr, f.qual), ok, loc, "nothing has a member %s" % x.attr)


def assigned_in(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def hasattr_names(fn):
    """attributes whose presence the function tests itself"""
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr" and len(x.args) == 2 and isinstance(x.args[1], ast.Constant):
            out.add(x.args[1].value)
        elif isinstance(x, ast.Try):
            if any(h.type is not None and "AttributeError" in ast.unparse(h.type) for h in x.handlers):
                out |= {y.attr for s in x.body for y in ast.walk(s) if isinstance(y, ast.Attribute)}
    return out


# ---- the installed libraries ---------------------------------------------------------
def optional_names(p, m):
    """module-level names that hold a library that may be missing"""
    out = set()
    for n, vals in m.assigns.items():
        if any(isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "import_or_none" for v in vals):
            out.add(n)
    return out


def externals(p, mods):
    chains, calls, imported = {}, {}, set()
    for m in mods:
        guarded = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Try):
                if any(h.type is None or "Import" in ast.unparse(h.type) or ast.unparse(h.type) == "Exception" for h in x.handlers):
                    guarded |= {id(y) for s in x.body for y in ast.walk(s)}
        for x in ast.walk(m.tree):
            if id(x) in guarded:
                continue
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split(".")[0] != "featuretools":
                        imported.add(a.name)
                        chains.setdefault(a.name, "%s:%d" % (m.rel, x.lineno))
            elif isinstance(x, ast.ImportFrom) and not x.level and x.module and x.module.split(".")[0] != "featuretools":
                imported.add(x.module)
                for a in x.names:
                    if a.name != "*":
                        chains.setdefault(x.module + "." + a.name, "%s:%d" % (m.rel, x.lineno))
        scopes = [(f.node, f) for f in p.functions if f.module is m]
        for x in ast.walk(m.tree):
            if id(x) in guarded:
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                root = x
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name) or m.symbols.get(root.id, ("",))[0] != "import":
                    continue
                if any(root.id in assigned(n) for n, f in scopes if n.lineno <= x.lineno <= n.end_lineno):
                    continue
                r = p.resolve_expr(m, x)
                if r is not None and r[0] == "ext":
                    chains.setdefault(r[1], "%s:%d" % (m.rel, x.lineno))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and id(x) not in guarded:
                root = x.func
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name) or any(root.id in assigned(n) for n, f in scopes if n.lineno <= x.lineno <= n.end_lineno):
                    continue
                r = p.resolve_expr(m, x.func)
                if r is None or r[0] != "ext" or any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                calls.setdefault((r[1], len(x.args), tuple(sorted(k.arg for k in x.keywords))), "%s:%d" % (m.rel, x.lineno))
    return chains, calls, imported


# ---- calls ---------------------------------------------------------------------------
def accepts(fi, call, skip):
    """why the function does not accept the call, or None; skip: leading parameters already given"""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not a.vararg:
        return "%d positional arguments given, %d accepted" % (n, len(pos))
    given = set(pos[:n])
    only = {x.arg for x in a.posonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return "%s given twice" % k.arg
        if (k.arg not in pos and k.arg not in kwonly or k.arg in only) and not a.kwarg:
            return "no parameter %s" % k.arg
        given.add(k.arg)
    if star or dstar:
        return None
    need = set(pos[:max(0, len(pos) - len(a.defaults))]) if len(a.defaults) <= len(pos) else set()
    need |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    miss = sorted(need - given)
    return "%s not given" % ", ".join(miss) if miss else None


def plain(fi):
    for d in fi.decorators:
        n = (dotted(d.func if isinstance(d, ast.Call) else d) or "?").split(".")[-1]
        if n not in TRANSPARENT:
            return False
    return not fi.is_property


def signatures(ctx, p, external):
    byname = {}
    for cs in p.classes.values():
        for c in cs:
            for n, f in c.methods.items():
                byname.setdefault(n, []).append(f)
    attrs = {x.attr for m in p.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    for cs in p.classes.values():
        for c in cs:
            attrs |= set(c.attrs)
    cl = Classes(p)
    for f in p.functions:
        m = f.module
        shadow = assigned(f.node)
        g = f.parent
        outer = {}
        while g is not None:
            outer.update(assigned(g.node))
            g = g.parent
        cls, meth = method_of(p, f)
        me = first_param(meth.node) if meth is not None and not meth.is_staticmethod else None
        nested = {h.name: h for h in p.functions if h.parent is not None and (h.parent is f or h.parent is f.parent)}
        known = {}
        for node, n, cs in facts_of(p, f):
            for y in ast.walk(node):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == n:
                    known.setdefault(id(y), cs)
        for x in own_nodes(f.node):
            if not isinstance(x, ast.Call):
                continue
            loc = "%s:%d" % (m.rel, x.lineno)
            fn = x.func
            con = "%s in %s" % (ast.unparse(fn)[:60], f.qual)

            def say(fis, skips, every=True):
                res = [accepts(q, x, k) for q, k in zip(fis, skips)]
                bad = [(q, w) for q, w in zip(fis, res) if w]
                ok = not bad if every else len(bad) < len(fis)
                ctx.ob("call", con, ok, loc, "; ".join("%s: %s" % (q.qual, w) for q, w in bad[:2]))
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            name = root.id if isinstance(root, ast.Name) else None
            if isinstance(fn, ast.Name):
                if fn.id in nested and shadow.get(fn.id, 0) + outer.get(fn.id, 0) == 0:
                    if plain(nested[fn.id]):
                        say([nested[fn.id]], [0])
                    continue
                if fn.id in shadow or fn.id in outer:
                    continue
                if fn.id == "cls" and cls is not None:
                    continue
            if name is not None and name not in shadow and name not in outer:
                r = p.resolve_expr(m, fn)
                if r is not None and r[0] == "func":
                    q = r[1]
                    if plain(q):
                        viaclass = isinstance(fn, ast.Attribute) and q.cls is not None
                        say([q], [1 if viaclass and q.is_classmethod else 0])
                    continue
                if r is not None and r[0] == "class":
                    init = r[1].find_method("__init__")
                    new = r[1].find_method("__new__")
                    if r[1].external_bases() and set(r[1].external_bases()) - {"object"} and init is None:
                        continue
                    if new is not None or any(k.node.keywords for k in r[1].mro()):
                        continue
                    if init is not None and plain(init):
                        say([init], [1])
                    elif init is None and not [b for b in r[1].external_bases() if b != "object"]:
                        ctx.ob("call", con, not x.args and not x.keywords, loc, "%s takes no arguments" % r[1].name)
                    continue
            if not isinstance(fn, ast.Attribute):
                continue
            v = fn.value
            if isinstance(v, ast.Name) and v.id == me and cls is not None:
                if v.id in assigned_in(f.node):
                    continue
                c = cls
                defs = []
                d = c.find_method(fn.attr)
                if d is not None:
                    defs.append(d)
                for k in cl.subs.get(id(c), []):
                    if fn.attr in k.methods and k.methods[fn.attr] not in defs:
                        defs.append(k.methods[fn.attr])
                defs = [q for q in defs if plain(q)]
                if defs and fn.attr not in attrs:
                    say(defs, [0 if q.is_staticmethod else 1 for q in defs])
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls is not None:
                k = cls
                d = None
                for b in k.mro()[1:]:
                    if fn.attr in b.methods:
                        d = b.methods[fn.attr]
                        break
                if d is not None and plain(d):
                    say([d], [0 if d.is_staticmethod else 1])
                elif d is None and not [b for b in k.external_bases() if b != "object"] and fn.attr not in OBJ:
                    ctx.bad("call", con, loc, "no base class of %s has %s" % (k.name, fn.attr))
                continue
            if id(x) in known:
                defs = [c.find_method(fn.attr) for c in known[id(x)]]
                if all(d is not None and plain(d) for d in defs) and fn.attr not in attrs:
                    say(defs, [0 if d.is_staticmethod else 1 for d in defs])
                continue
            # some class of the project must have such a method
            cand = byname.get(fn.attr, [])
            if cand and external is not None and fn.attr not in external and fn.attr not in attrs and all(plain(q) for q in cand):
                say(cand, [0 if q.is_staticmethod else 1 for q in cand], every=False)


# ---- text ----------------------------------------------------------------------------
def specs(s):
    n, i = 0, 0
    while i < len(s):
        if s[i] == "%":
            i += 1
            if i < len(s) and s[i] == "%":
                i += 1
                continue
            if i < len(s) and s[i] == "(":
                return None
            while i < len(s) and s[i] in "#0- +123456789.*hlL":
                if s[i] == "*":
                    return None
                i += 1
            n += 1
        i += 1
    return n


def text_of(x, fn):
    if isinstance(x, ast.Constant) and isinstance(x.value, str):
        return x.value
    if isinstance(x, ast.Name) and fn is not None:
        vals = [y.value for y in ast.walk(fn) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Name) and t.id == x.id]
        n = sum(1 for y in ast.walk(fn) if isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store))
        if len(vals) == 1 and n == 1 and isinstance(vals[0], ast.Constant) and isinstance(vals[0].value, str):
            return vals[0].value
    return None


def formats(ctx, mods):
    for m in mods:
        owner = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(f):
                    owner[id(x)] = f
        for x in ast.walk(m.tree):
            fn = owner.get(id(x))
            where_ = "%s:%s" % (m.name, fn.name if fn is not None else "")
            loc = "%s:%d" % (m.rel, getattr(x, "lineno", 0))
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
                s = text_of(x.left, fn)
                if s is None:
                    continue
                n = specs(s)
                if n is None:
                    continue
                if isinstance(x.right, ast.Tuple):
                    if any(isinstance(y, ast.Starred) for y in x.right.elts):
                        continue
                    ctx.ob("format", "%s: %s" % (where_, s[:40]), n == len(x.right.elts), loc, "%d placeholders, %d values" % (n, len(x.right.elts)))
                else:
                    ctx.ob("format", "%s: %s" % (where_, s[:40]), n >= 1 and (n == 1 or not isinstance(x.right, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp))), loc,
                           "%d placeholders, 1 value" % n)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "format":
                s = text_of(x.func.value, fn)
                if s is None or any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                try:
                    fields = [f_ for _, f_, _, _ in string.Formatter().parse(s) if f_ is not None]
                except ValueError as e:
                    ctx.bad("format", "%s: %s" % (where_, s[:40]), loc, str(e))
                    continue
                auto, why = 0, []
                for f_ in fields:
                    h = f_.split(".")[0].split("[")[0]
                    if h == "":
                        auto += 1
                    elif h.isdigit():
                        if int(h) >= len(x.args):
                            why.append("no value %s" % h)
                    elif h not in {k.arg for k in x.keywords}:
                        why.append("no value %s" % h)
                if auto > len(x.args):
                    why.append("%d placeholders, %d values" % (auto, len(x.args)))
                ctx.ob("format", "%s: %s" % (where_, s[:40]), not why, loc, "; ".join(why))


# ---- optional back-end ---------------------------------------------------------------
def optional(ctx, p):
    for f in p.functions:
        opt = optional_names(p, f.module)
        if not opt or f.parent is not None:
            continue
        parents = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                parents[id(y)] = x
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in opt and isinstance(x.ctx, ast.Load):
                ok, y = False, x
                while id(y) in parents and not ok:
                    z = parents[id(y)]
                    if isinstance(z, ast.If) and y is not z.test or isinstance(z, ast.IfExp) and y is not z.test:
                        inelse = y in z.orelse if isinstance(z, ast.If) else y is z.orelse
                        ok = implies(z.test, x.value.id, f.node, not inelse)
                    elif isinstance(z, ast.BoolOp) and isinstance(z.op, ast.And):
                        ok = any(implies(v, x.value.id, f.node, True) for v in z.values[:z.values.index(y)])
                    y = z
                ctx.ob("optional", "%s.%s in %s" % (x.value.id, x.attr, f.qual), ok, "%s:%d" % (f.module.rel, x.lineno),
                       "used where %s may not be installed" % x.value.id)


def implies(test, name, fn, pol, seen=()):
    """does the outcome of the test show that the optional library is there?"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return implies(test.operand, name, fn, not pol, seen)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == pol:
            return any(implies(v, name, fn, pol, seen) for v in test.values)
        return all(implies(v, name, fn, pol, seen) for v in test.values)
    if isinstance(test, ast.Name) and test.id == name:
        return pol
    if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == name and len(test.ops) == 1:
        return isinstance(test.ops[0], (ast.IsNot, ast.NotEq)) == pol
    if isinstance(test, ast.Call) and pol:
        if any(isinstance(y, ast.Name) and y.id == name for a in test.args for y in ast.walk(a)):
            return True
    if isinstance(test, ast.Compare) and pol and "KOALAS" in ast.unparse(test).upper():
        return True
    if isinstance(test, ast.Name) and pol and test.id not in seen:
        vals = [y.value for y in ast.walk(fn) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Name) and t.id == test.id]
        return bool(vals) and all(implies(v, name, fn, True, seen + (test.id,)) or isinstance(v, ast.Constant) and not v.value for v in vals)
    return False
