"""Predicate functions as quantified propositional formulas.

`Pred(p).returns_true(fi)` abstracts a function that answers yes or no (loops with early returns, flags set in loops,
any/all, helper predicates, closures, filters) into a formula over atoms, where an atom is the canonical text of an
expression over the parameters and `elem(collection)`.  Nothing is executed: statements are folded into path conditions.
`implies_false(F, literals)` decides by propositional reasoning whether the formula is false whenever the literals hold."""
import ast
import re
import copy
import itertools
from .index import AnalysisBroken, FuncInfo, ClassInfo

TRUE, FALSE = ("const", True), ("const", False)
MAXATOMS = 22


def f_not(a):
    if a[0] == "const":
        return FALSE if a[1] else TRUE
    if a[0] == "not":
        return a[1]
    return ("not", a)


def _nary(op, xs):
    absorb = op == "or"
    out = []
    for x in xs:
        if x[0] == "const":
            if x[1] == absorb:
                return x
            continue
        for y in (x[1] if x[0] == op else [x]):
            if y not in out:
                out.append(y)
    for y in out:
        if f_not(y) in out:
            return TRUE if absorb else FALSE
    if not out:
        return FALSE if absorb else TRUE
    return out[0] if len(out) == 1 else (op, out)


def f_and(*xs):
    return _nary("and", xs)


def f_or(*xs):
    return _nary("or", xs)


def f_ite(c, a, b):
    if a == b:
        return a
    return f_or(f_and(c, a), f_and(f_not(c), b))


def f_ex(coll, f):
    if f == FALSE:
        return FALSE
    return ("ex", coll, f)


class V(object):
    """value: an expression, a choice, or a list built from a collection"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d


def E(node):
    return V("expr", node=node)


OPAQUE = itertools.count()


def opaque(tag="?"):
    return E(ast.Name(id="@%s%d" % (tag, next(OPAQUE)), ctx=ast.Load()))


class Pred(object):
    def __init__(self, p, depth=4, stop=()):
        self.p, self.depth, self.stop = p, depth, set(stop)
        self.forms = {}                 # name of a boolean placeholder -> formula
        self.vals = {}                  # name of a placeholder -> V (built lists, closures)
        self.fi = None
        self.cls = None
        self.equiv = {}

    # -- expressions ---------------------------------------------------------
    def subst(self, node, env):
        """expression with locals replaced by what they are"""
        me = self

        class S(ast.NodeTransformer):
            def __init__(s):
                s.bound = set()

            def visit_Name(s, n):
                if n.id in s.bound or not isinstance(n.ctx, ast.Load) or n.id not in env:
                    return n
                return me.as_node(env[n.id])

            def visit_Lambda(s, n):
                old = set(s.bound)
                s.bound |= {a.arg for a in n.args.args}
                r = s.generic_visit(n)
                s.bound = old
                return r

            def comp(s, n):
                # comprehension variables become elements of their collections
                return me.comp_node(n, env)
            visit_ListComp = visit_SetComp = visit_GeneratorExp = comp

            def visit_DictComp(s, n):
                old = set(s.bound)
                for g in n.generators:
                    s.bound |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                r = s.generic_visit(n)
                s.bound = old
                return r

            def visit_NamedExpr(s, n):
                return s.visit(n.value)
        return S().visit(copy.deepcopy(node))

    def as_node(self, v):
        if v.kind == "expr":
            return copy.deepcopy(v.d["node"])
        if v.kind == "ite":
            n = self.fname(v.d["c"])
            return ast.IfExp(test=n, body=self.as_node(v.d["a"]), orelse=self.as_node(v.d["b"]))
        for k, x in self.vals.items():
            if x is v:
                return ast.Name(id=k, ctx=ast.Load())
        k = "@v%d" % next(OPAQUE)
        self.vals[k] = v
        return ast.Name(id=k, ctx=ast.Load())

    def fname(self, f):
        for k, x in self.forms.items():
            if x == f:
                return ast.Name(id=k, ctx=ast.Load())
        k = "@f%d" % next(OPAQUE)
        self.forms[k] = f
        return ast.Name(id=k, ctx=ast.Load())

    def value(self, node, env):
        """V of an expression"""
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(node, env)
        if isinstance(node, ast.Name) and node.id in env:
            return env[node.id]
        if isinstance(node, ast.Lambda):
            return V("closure", args=[a.arg for a in node.args.args], node=node, env=dict(env))
        if isinstance(node, ast.IfExp):
            c = self.boolean(node.test, env)
            return self.choose(c, self.value(node.body, env), self.value(node.orelse, env))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "tuple", "set", "sorted", "iter") \
                and len(node.args) >= 1:
            v = self.value(node.args[0], env)
            if v.kind == "built":
                return v
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "filter" and len(node.args) == 2:
            src = self.value(node.args[1], env)
            fn = self.value(node.args[0], env)
            coll, elem, cond = self.source(src)
            if isinstance(fn.d.get("node"), ast.Constant) and fn.d["node"].value is None:
                g = self.boolean(elem, {})
            else:
                g = self.apply(self.as_node(fn), [elem], {}, {})
            return V("built", coll=coll, elem=elem, cond=f_and(cond, g))
        if isinstance(node, (ast.BoolOp, ast.Compare)) or isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            if isinstance(node, ast.BoolOp):
                f = self.boolean(node, env)
                n = self.fname(f)
                self.vals.setdefault(n.id, E(self.subst(node, env)))
                return E(n)
            return E(self.fname(self.boolean(node, env)))
        if isinstance(node, (ast.List, ast.Tuple)) and not node.elts or isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                node.func.id in ("set", "list") and not node.args or _empty_set(node):
            return V("built", coll=None, elem=None, cond=FALSE)
        if isinstance(node, ast.Call):
            r = self.call_value(node, env)
            if r is not None:
                return r
        return E(self.subst(node, env))

    def call_value(self, node, env):
        """a helper that returns a filtered list or an expression"""
        if isinstance(node.func, ast.Name) and node.func.id in ("make_tqdm_iterator", "tqdm"):
            it = [k.value for k in node.keywords if k.arg == "iterable"] or node.args[:1]
            if it:
                return self.value(it[0], env)
        t = self.target(node.func, env)
        if t is None or self.depth <= 0:
            return None
        r = self.invoke(t, node, env, want="value")
        return r

    def choose(self, c, a, b):
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a is b:
            return a
        if a.kind == "expr" and b.kind == "expr" and ast.dump(a.d["node"]) == ast.dump(b.d["node"]):
            return a
        if a.kind == "built" and b.kind == "built" and a.d["coll"] == b.d["coll"] and a.d["coll"] is not None and \
                ast.dump(a.d["elem"]) == ast.dump(b.d["elem"]):
            return V("built", coll=a.d["coll"], elem=a.d["elem"], cond=f_ite(c, a.d["cond"], b.d["cond"]))
        if a.kind == "built" and b.kind == "built" and (a.d["coll"] is None or b.d["coll"] is None):
            x = b if a.d["coll"] is None else a
            return V("built", coll=x.d["coll"], elem=x.d["elem"], cond=f_ite(c, a.d["cond"], b.d["cond"]))
        return V("ite", c=c, a=a, b=b)

    def source(self, v):
        """(collection text, element node, condition) of iterating a value"""
        if v.kind == "built" and v.d["coll"] is not None:
            return v.d["coll"], v.d["elem"], v.d["cond"]
        if v.kind == "ite":
            a, b = self.source(v.d["a"]), self.source(v.d["b"])
            if a[0] == b[0] and ast.dump(a[1]) == ast.dump(b[1]):
                return a[0], a[1], f_ite(v.d["c"], a[2], b[2])
        n = self.as_node(v)
        if isinstance(n, ast.Name) and n.id in self.vals and self.vals[n.id].kind == "built":
            return self.source(self.vals[n.id])
        while isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "sorted", "iter", "set", "reversed") \
                and len(n.args) == 1:
            n = n.args[0]
        while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "keys") and not n.args:
            n = n.func.value
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and not (n.slice.lower or n.slice.upper or n.slice.step):
            n = n.value
        if isinstance(n, ast.Name) and n.id in self.vals and self.vals[n.id].kind == "built" and self.vals[n.id].d["coll"] is not None:
            return self.source(self.vals[n.id])
        t = self.text(n)
        return t, ast.Call(func=ast.Name(id="elem", ctx=ast.Load()), args=[n], keywords=[]), TRUE

    def bind(self, target, elem, env):
        if isinstance(target, ast.Name):
            env[target.id] = E(elem)
        elif isinstance(target, (ast.Tuple, ast.List)):
            inner = elem.args[0] if isinstance(elem, ast.Call) and isinstance(elem.func, ast.Name) and elem.func.id == "elem" else None
            if isinstance(inner, ast.Call) and isinstance(inner.func, ast.Attribute) and inner.func.attr == "items" and len(target.elts) == 2:
                k = ast.Call(func=ast.Name(id="elem", ctx=ast.Load()), args=[inner.func.value], keywords=[])
                self.bind(target.elts[0], k, env)
                self.bind(target.elts[1], ast.Subscript(value=inner.func.value, slice=k, ctx=ast.Load()), env)
                return
            if isinstance(inner, ast.Call) and isinstance(inner.func, ast.Name) and inner.func.id == "zip" and len(inner.args) == len(target.elts):
                for t, a in zip(target.elts, inner.args):
                    self.bind(t, ast.Call(func=ast.Name(id="elem", ctx=ast.Load()), args=[a], keywords=[]), env)
                return
            if isinstance(inner, ast.Call) and isinstance(inner.func, ast.Name) and inner.func.id == "enumerate" and len(target.elts) == 2:
                self.bind(target.elts[0], opaque("i").d["node"], env)
                self.bind(target.elts[1], ast.Call(func=ast.Name(id="elem", ctx=ast.Load()), args=[inner.args[0]], keywords=[]), env)
                return
            for i, t in enumerate(target.elts):
                self.bind(t, ast.Subscript(value=elem, slice=ast.Constant(i), ctx=ast.Load()), env)

    def comp(self, node, env):
        """comprehension -> built list"""
        env2 = dict(env)
        colls, cond = [], TRUE
        for g in node.generators:
            coll, elem, c = self.source(self.value(g.iter, env2))
            self.bind(g.target, elem, env2)
            cond = f_and(cond, c, *[self.boolean(x, env2) for x in g.ifs])
            colls.append(coll)
        return V("built", coll=" x ".join(colls), elem=self.subst(node.elt, env2), cond=cond, colls=colls, eltast=node.elt, env=env2)

    def comp_node(self, node, env):
        return self.as_node(self.comp(node, env))

    def quant(self, v, negate):
        """exists(v: truthy) or exists(v: falsy)"""
        if v.kind == "built" and v.d.get("eltast") is not None:
            f = self.boolean(v.d["eltast"], v.d["env"])
            f = f_and(v.d["cond"], f_not(f) if negate else f)
            for c in reversed(v.d["colls"]):
                f = f_ex(c, f)
            return f
        if v.kind == "expr" and isinstance(v.d["node"], (ast.List, ast.Tuple, ast.Set)):
            fs = [self.boolean(x, {}) for x in v.d["node"].elts]
            return f_or(*[f_not(x) if negate else x for x in fs])
        coll, elem, cond = self.source(v)
        f = self.boolean(elem, {})
        return f_ex(coll, f_and(cond, f_not(f) if negate else f))

    def boolean(self, node, env):
        """formula of an expression's truth"""
        if isinstance(node, ast.BoolOp):
            fs = [self.boolean(x, env) for x in node.values]
            return f_and(*fs) if isinstance(node.op, ast.And) else f_or(*fs)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return f_not(self.boolean(node.operand, env))
        if isinstance(node, ast.Constant):
            return TRUE if node.value else FALSE
        if isinstance(node, ast.Name):
            if node.id in self.forms:
                return self.forms[node.id]
            if node.id in self.vals and self.vals[node.id].kind == "built":
                v = self.vals[node.id]
                return f_ex(v.d["coll"], v.d["cond"]) if v.d["coll"] else FALSE
            if node.id in env:
                v = env[node.id]
                if v.kind == "ite":
                    return f_ite(v.d["c"], self.boolean(self.as_node(v.d["a"]), {}), self.boolean(self.as_node(v.d["b"]), {}))
                if v.kind == "built":
                    return f_ex(v.d["coll"], v.d["cond"]) if v.d["coll"] else FALSE
                if v.kind == "closure":
                    return TRUE
                return self.boolean(v.d["node"], {})
        if isinstance(node, ast.IfExp):
            return f_ite(self.boolean(node.test, env), self.boolean(node.body, env), self.boolean(node.orelse, env))
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            parts, left = [], node.left
            for op, r in zip(node.ops, node.comparators):
                parts.append(self.boolean(ast.Compare(left=left, ops=[op], comparators=[r]), env))
                left = r
            return f_and(*parts)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and not node.keywords:
            n = node.func.id
            if n in ("any", "all") and len(node.args) == 1 and n not in env:
                v = self.value(node.args[0], env)
                return self.quant(v, False) if n == "any" else f_not(self.quant(v, True))
            if n == "bool" and len(node.args) == 1:
                return self.boolean(node.args[0], env)
            if n == "isinstance" and len(node.args) == 2 and isinstance(node.args[1], ast.Tuple):
                return f_or(*[self.boolean(ast.Call(func=node.func, args=[node.args[0], x], keywords=[]), env) for x in node.args[1].elts])
        if isinstance(node, ast.Call):
            t = self.target(node.func, env)
            if t is not None and self.depth > 0:
                r = self.invoke(t, node, env, want="bool")
                if r is not None:
                    return r
        if isinstance(node, ast.Compare):
            f = self.all_of(node, env)
            if f is not None:
                return f
            # comparisons of a truth value with a literal
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
                l = node.left
                if isinstance(l, ast.Name) and l.id in env:
                    v = env[l.id]
                    if v.kind == "ite" or v.kind == "expr" and (isinstance(v.d["node"], ast.Constant) or isinstance(v.d["node"], ast.Name) and v.d["node"].id in self.forms):
                        f = self.boolean(l, env)
                        pos = isinstance(op, (ast.Eq, ast.Is)) == r.value
                        return f if pos else f_not(f)
            if isinstance(op, (ast.In, ast.NotIn)):
                f = self.member(node.left, self.value(r, env), env)
                if f is not None:
                    return f if isinstance(op, ast.In) else f_not(f)
        return self.atom(self.subst(node, env))

    def all_of(self, node, env):
        """len(filtered) == n, where filtered walks range(n) or a collection of n elements, says that nothing was filtered out"""
        op = node.ops[0]
        if not isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.GtE, ast.Gt, ast.LtE)):
            return None
        sides = [node.left, node.comparators[0]]
        for i in (0, 1):
            n = sides[i]
            if not _len(n) or len(n.args) != 1:
                continue
            v = self.value(n.args[0], env)
            if v.kind != "built" or v.d.get("coll") is None or len(v.d.get("colls") or [1]) > 1:
                continue
            o = self.text(self.subst(sides[1 - i], env))
            c = v.d["coll"]
            some, every = f_ex(c, v.d["cond"]), f_not(f_ex(c, f_not(v.d["cond"])))
            if o in ("0", "1") and isinstance(sides[1 - i], ast.Constant):
                k = {("0", ast.Eq): f_not(some), ("0", ast.NotEq): some, ("0", ast.Gt): some, ("1", ast.GtE): some, ("1", ast.Lt): f_not(some)}
                return k.get((o, type(op))) if i == 0 else None
            os = {o}
            m = re.match(r"^len\((.*)\.get_feature_names\(\)\)$", o)
            if m:
                os.add(m.group(1) + ".number_output_features")
            if o.endswith(".number_output_features"):
                os.add("len(%s.get_feature_names())" % o[:-len(".number_output_features")])
            if any(c in ("range(%s)" % o, "range(0, %s)" % o) or o == "len(%s)" % c for o in os):
                if isinstance(op, ast.Eq):
                    return every
                if isinstance(op, ast.NotEq):
                    return f_not(every)
                if i == 0 and isinstance(op, (ast.Lt, ast.GtE)):
                    return every if isinstance(op, ast.GtE) else f_not(every)
                if i == 1 and isinstance(op, (ast.Gt, ast.LtE)):
                    return every if isinstance(op, ast.LtE) else f_not(every)
        return None

    def member(self, left, v, env):
        if v.kind == "ite":
            return f_ite(v.d["c"], self.member(left, v.d["a"], env) or TRUE, self.member(left, v.d["b"], env) or TRUE)
        n = v.d.get("node") if v.kind == "expr" else None
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and not any(isinstance(x, ast.Starred) for x in n.elts):
            return f_or(*[self.boolean(ast.Compare(left=left, ops=[ast.Eq()], comparators=[x]), env) for x in n.elts])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and 1 <= len(n.args) <= 2:
            d = n.args[1] if len(n.args) == 2 else None
            empty = d is not None and (isinstance(d, (ast.Tuple, ast.List, ast.Set)) and not d.elts or isinstance(d, ast.Dict) and not d.keys or
                                       isinstance(d, ast.Call) and not d.args or isinstance(d, ast.Name) and d.id in self.vals and self.vals[d.id].kind == "built")
            if empty:
                k = ast.Compare(left=n.args[0], ops=[ast.In()], comparators=[n.func.value])
                e = ast.Compare(left=self.subst(left, env), ops=[ast.In()], comparators=[ast.Subscript(value=n.func.value, slice=n.args[0], ctx=ast.Load())])
                return f_and(self.boolean(k, {}), self.boolean(e, {}))
        return None

    def atom(self, n):
        k = _get_parts(n)
        if k is not None:
            return self.boolean(ast.Compare(left=k[1], ops=[ast.In()], comparators=[k[0]]), {})
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and \
                n.comparators[0].value is None and _get_parts(n.left) is not None:
            k = _get_parts(n.left)
            f = self.boolean(ast.Compare(left=k[1], ops=[ast.In()], comparators=[k[0]]), {})
            return f_not(f) if isinstance(n.ops[0], ast.Is) else f
        # alternatives inside the expression are lifted out
        for x in ast.walk(n):
            if isinstance(x, ast.IfExp):
                c = self.boolean(x.test, {})
                return f_ite(c, self.boolean(_replace(n, x, x.body), {}), self.boolean(_replace(n, x, x.orelse), {}))
            if isinstance(x, ast.Name) and x.id in self.vals and self.vals[x.id].kind == "ite":
                v = self.vals[x.id]
                return f_ite(v.d["c"], self.boolean(_replace(n, x, self.as_node(v.d["a"])), {}), self.boolean(_replace(n, x, self.as_node(v.d["b"])), {}))
        if isinstance(n, ast.Compare):
            op, l, r = n.ops[0], n.left, n.comparators[0]
            if isinstance(l, ast.Constant) and isinstance(r, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                eq = l.value == r.value and type(l.value) is type(r.value)
                return TRUE if eq == isinstance(op, (ast.Eq, ast.Is)) else FALSE
            lit = (ast.List, ast.Tuple, ast.Dict, ast.Set)
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and (isinstance(l, ast.Constant) and isinstance(r, lit) or
                                                                           isinstance(r, ast.Constant) and isinstance(l, lit)):
                return TRUE if isinstance(op, (ast.NotEq, ast.IsNot)) else FALSE
            if isinstance(op, ast.NotIn):
                return f_not(self.boolean(ast.Compare(left=l, ops=[ast.In()], comparators=[r]), {}))
            if isinstance(op, ast.IsNot):
                return f_not(self.boolean(ast.Compare(left=l, ops=[ast.Is()], comparators=[r]), {}))
            if isinstance(op, ast.NotEq):
                return f_not(self.boolean(ast.Compare(left=l, ops=[ast.Eq()], comparators=[r]), {}))
            if isinstance(op, ast.LtE):
                return f_not(self.atom(ast.Compare(left=l, ops=[ast.Gt()], comparators=[r])))
            if isinstance(op, ast.Lt):
                return self.atom(ast.Compare(left=r, ops=[ast.Gt()], comparators=[l]))
            if isinstance(op, ast.GtE):
                return f_not(self.atom(ast.Compare(left=r, ops=[ast.Gt()], comparators=[l])))
            if isinstance(op, ast.Gt):
                if isinstance(l, ast.Constant) and isinstance(l.value, int) and _len(r):       # n > len(x)  <=>  not len(x) > n-1
                    return f_not(self.atom(ast.Compare(left=r, ops=[ast.Gt()], comparators=[ast.Constant(l.value - 1)])))
                return self.lookup(("atom", "%s > %s" % (self.text(l), self.text(r))))
            if isinstance(op, ast.Eq):
                a, b = sorted([self.text(l), self.text(r)])
                return self.lookup(("atom", "%s == %s" % (a, b)))
            if isinstance(op, ast.Is):
                a, b = self.text(l), self.text(r)
                if a == b:
                    return TRUE
                return self.lookup(("atom", "%s is %s" % (a, b)))
            if isinstance(op, ast.In):
                return self.lookup(("atom", "%s in %s" % (self.text(l), self.text(r))))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2:
            b = n.args[1]
            while isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ("tuple", "list") and len(b.args) == 1:
                b = b.args[0]
            return self.lookup(("atom", "isinstance(%s, %s)" % (self.text(n.args[0]), self.text(b))))
        return self.lookup(("atom", self.text(n)))

    def lookup(self, a):
        e = self.equiv.get(a[1])
        if e is None:
            return a
        return ("atom", e[0]) if e[1] else f_not(("atom", e[0]))

    def text(self, n):
        n = _GetForm().visit(copy.deepcopy(n))
        s = ast.unparse(ast.fix_missing_locations(copy.deepcopy(n)))
        return s

    # -- calls -----------------------------------------------------------------
    def target(self, f, env):
        """what is called: ('fi', FuncInfo, bound self node or None) or ('cl', closure)"""
        if isinstance(f, ast.Name):
            if f.id in env:
                v = env[f.id]
                if v.kind == "closure":
                    return ("cl", v)
                if v.kind == "expr" and isinstance(v.d["node"], ast.Name) and v.d["node"].id in self.vals and self.vals[v.d["node"].id].kind == "closure":
                    return ("cl", self.vals[v.d["node"].id])
                return None
            if f.id in self.vals and self.vals[f.id].kind == "closure":
                return ("cl", self.vals[f.id])
            r = self.resolved(f)
            if isinstance(r, FuncInfo) and r.name not in self.stop:
                return ("fi", r, None)
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "self" and self.cls is not None:
                m = self.cls.find_method(f.attr)
                if m is not None and m.name not in self.stop and not m.is_property:
                    return ("fi", m, f.value)
                return None
            r = self.resolved(f) if isinstance(f.value, (ast.Name, ast.Attribute)) else None
            if isinstance(r, FuncInfo) and r.cls is None and r.name not in self.stop:
                return ("fi", r, None)
        return None

    def resolved(self, f):
        r = self.p.resolve_expr(self.fi.module, f)
        return r[1] if isinstance(r, tuple) and r[0] == "func" else None

    def apply(self, fnode, args, kws, env):
        call = ast.Call(func=fnode, args=args, keywords=[ast.keyword(arg=k, value=v) for k, v in kws.items()])
        return self.boolean(call, env)

    def invoke(self, t, call, env, want):
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        vals = [self.value(a, env) for a in call.args]
        kws = {k.arg: self.value(k.value, env) for k in call.keywords}
        if t[0] == "cl":
            c = t[1]
            env2 = dict(c.d["env"])
            node = c.d["node"]
            names = c.d["args"]
            defaults = node.args.defaults
            fi, cls = self.fi, self.cls
        else:
            fi = t[1]
            node = fi.node
            names = [a.arg for a in node.args.args]
            defaults = node.args.defaults
            env2 = {}
            cls = fi.cls if fi.cls is not None else None
            if t[2] is not None and not fi.is_staticmethod:
                vals = [E(t[2])] + vals
                cls = self.cls
        if isinstance(node, ast.FunctionDef) and (node.args.vararg or node.args.kwarg or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))):
            return None
        b = dict(zip(names, vals))
        b.update(kws)
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in b:
                b[n] = E(d)
        if any(n not in b for n in names):
            return None
        env2.update(b)
        save = self.fi, self.cls
        self.fi, self.cls = fi, cls
        self.depth -= 1
        try:
            if isinstance(node, ast.Lambda):
                if want == "bool":
                    return self.boolean(node.body, env2)
                return self.value(node.body, env2)
            outs = self.run(node.body, env2)
            if want == "bool":
                return self.outs_true(outs)
            return self.outs_value(outs)
        finally:
            self.depth += 1
            self.fi, self.cls = save

    def outs_true(self, outs):
        r = FALSE
        for kind, cond, v, env in outs:
            if kind == "return" and v is not None:
                r = f_or(r, f_and(cond, self.boolean(self.as_node(v), {})))
        return r

    def outs_value(self, outs):
        rets = [(c, v) for k, c, v, e in outs if k == "return" and v is not None]
        if not rets or any(k == "next" and c != FALSE for k, c, v, e in outs):
            return None
        val = rets[-1][1]
        for c, v in reversed(rets[:-1]):
            val = self.choose(c, v, val)
        return val

    # -- statements ------------------------------------------------------------
    def run(self, stmts, env):
        """[(kind, condition, value, env)] for kind in next/return/raise/break/continue"""
        cur, cond, outs = env, TRUE, []
        for s in stmts:
            res = self.stmt(s, cur)
            nxt = None
            for kind, c, v, e in res:
                if kind == "next":
                    nxt = (c, e)
                else:
                    outs.append((kind, f_and(cond, c), v, e))
            if nxt is None or nxt[0] == FALSE:
                return outs
            cond, cur = f_and(cond, nxt[0]), nxt[1]
        outs.append(("next", cond, None, cur))
        return outs

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            return [("return", TRUE, self.value(s.value, env) if s.value is not None else E(ast.Constant(None)), env)]
        if isinstance(s, ast.Raise):
            return [("raise", TRUE, None, env)]
        if isinstance(s, ast.Continue):
            return [("continue", TRUE, None, env)]
        if isinstance(s, ast.Break):
            return [("break", TRUE, None, env)]
        if isinstance(s, ast.If):
            return self.branch(self.boolean(s.test, env), s.body, s.orelse, env)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            e = dict(env)
            e[s.targets[0].id] = self.value(s.value, env)
            return [("next", TRUE, None, e)]
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            e = dict(env)
            e[s.target.id] = self.value(s.value, env)
            return [("next", TRUE, None, e)]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple):
            e = dict(env)
            if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                vals = [self.value(x, env) for x in s.value.elts]
                for t, v in zip(s.targets[0].elts, vals):
                    if isinstance(t, ast.Name):
                        e[t.id] = v
            else:
                self.bind(s.targets[0], self.subst(s.value, env), e)
            return [("next", TRUE, None, e)]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            e = dict(env)
            op = s.op
            if isinstance(op, (ast.BitAnd, ast.BitOr)) :
                a, b = self.boolean(s.target, env), self.boolean(s.value, env)
                e[s.target.id] = E(self.fname(f_and(a, b) if isinstance(op, ast.BitAnd) else f_or(a, b)))
            else:
                old = env.get(s.target.id)
                v = self.append(old, s.value, env) if isinstance(op, ast.Add) else None
                e[s.target.id] = v or E(ast.BinOp(left=self.subst(ast.Name(id=s.target.id, ctx=ast.Load()), env), op=op, right=self.subst(s.value, env)))
            return [("next", TRUE, None, e)]
        if isinstance(s, ast.FunctionDef):
            e = dict(env)
            e[s.name] = V("closure", args=[a.arg for a in s.args.args], node=s, env=e)
            return [("next", TRUE, None, e)]
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in env \
                    and c.func.attr in ("append", "add") and len(c.args) == 1:
                e = dict(env)
                old = env[c.func.value.id]
                e[c.func.value.id] = V("added", old=old, elem=self.subst(c.args[0], env))
                return [("next", TRUE, None, e)]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in env \
                    and c.func.attr in ("extend", "update") and len(c.args) == 1:
                e = dict(env)
                e[c.func.value.id] = self.append(env[c.func.value.id], c.args[0], env)
                return [("next", TRUE, None, e)]
            return [("next", TRUE, None, env)]
        if isinstance(s, (ast.For,)):
            return self.loop(s, env)
        if isinstance(s, ast.While):
            e = dict(env)
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    e[x.id] = opaque("w")
            outs = self.run(s.body, e)
            r = []
            for k, c, v, en in outs:
                if k in ("return", "raise"):
                    r.append((k, f_and(self.boolean(opaque("loop").d["node"], {}), c), v, en))
            r.append(("next", TRUE, None, e))
            return r
        if isinstance(s, ast.With):
            return self.run(s.body, env)
        if isinstance(s, ast.Try):
            a = self.run(s.body + s.orelse, env)
            t = self.boolean(opaque("raised").d["node"], {})
            outs = [(k, f_and(f_not(t), c), v, e) for k, c, v, e in a]
            share = t
            for h in s.handlers:
                outs += [(k, f_and(share, c), v, e) for k, c, v, e in self.run(h.body, env)]
                share = f_and(share, self.boolean(opaque("raised").d["node"], {}))
            outs = self.merge(outs)
            if s.finalbody:
                res = []
                for k, c, v, e in outs:
                    for k2, c2, v2, e2 in self.run(s.finalbody, e):
                        res.append((k if k2 == "next" else k2, f_and(c, c2), v if k2 == "next" else v2, e2))
                outs = res
            return outs
        return [("next", TRUE, None, env)]

    def append(self, old, node, env):
        if isinstance(node, ast.List) and len(node.elts) == 1 and old is not None:
            return V("added", old=old, elem=self.subst(node.elts[0], env))
        if old is not None and old.kind in ("added", "extended", "built") or old is not None and old.kind == "expr" and (
                isinstance(old.d["node"], ast.Name) and old.d["node"].id.startswith("@pre_") or isinstance(old.d["node"], (ast.List, ast.ListComp)) or _empty_set(old.d["node"])
                or isinstance(old.d["node"], ast.Call) and isinstance(old.d["node"].func, ast.Name) and old.d["node"].func.id in ("list", "set")):
            ps = self.vparts(self.value(node, env))
            return V("extended", old=old, parts=ps if ps is not None else [("?", opaque("?").d["node"], TRUE)])
        return None

    def vparts(self, v):
        """a list value as parts (collection, element node, condition); None when it is not understood"""
        if v.kind == "expr" and isinstance(v.d["node"], ast.Name) and v.d["node"].id in self.vals:
            return self.vparts(self.vals[v.d["node"].id])
        if v.kind == "ite" or v.kind == "expr" and isinstance(v.d["node"], ast.IfExp):
            if v.kind == "ite":
                c, x, y = v.d["c"], v.d["a"], v.d["b"]
            else:
                n = v.d["node"]
                c, x, y = self.boolean(n.test, {}), E(n.body), E(n.orelse)
            a, b = self.vparts(x), self.vparts(y)
            if a is None or b is None:
                return None
            return [(q, e, f_and(c, f)) for q, e, f in a] + [(q, e, f_and(f_not(c), f)) for q, e, f in b]
        if v.kind == "built":
            if v.d.get("parts"):
                return list(v.d["parts"])
            return [] if v.d["coll"] is None else [(v.d["coll"], v.d["elem"], v.d["cond"])]
        if v.kind in ("added", "extended"):
            a = self.vparts(v.d["old"])
            if a is None:
                return None
            return a + ([("", v.d["elem"], TRUE)] if v.kind == "added" else list(v.d["parts"]))
        if v.kind == "expr":
            n = v.d["node"]
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                a, b = self.vparts(E(n.left)), self.vparts(E(n.right))
                return None if a is None or b is None else a + b
            if isinstance(n, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in n.elts):
                return [("", x, TRUE) for x in n.elts]
            c, e, f = self.source(v)
            return [(c, e, f)]
        return None

    def branch(self, c, body, orelse, env):
        if c == TRUE:
            return self.run(body, env)
        if c == FALSE:
            return self.run(orelse, env)
        outs = [(k, f_and(c, x), v, e) for k, x, v, e in self.run(body, env)]
        outs += [(k, f_and(f_not(c), x), v, e) for k, x, v, e in self.run(orelse, env)]
        return self.merge(outs, c)

    def merge(self, outs, c=None):
        nx = [o for o in outs if o[0] == "next" and o[1] != FALSE]
        rest = [o for o in outs if o[0] != "next" and o[1] != FALSE]
        if len(nx) < 2:
            return rest + nx
        cond, env = nx[-1][1], dict(nx[-1][3])
        for o in reversed(nx[:-1]):
            g = o[1] if c is None or o[1] != f_and(c, o[1]) else c if len(nx) == 2 else o[1]
            e2 = {}
            for k in set(env) | set(o[3]):
                a, b = o[3].get(k), env.get(k)
                if a is None or b is None:
                    e2[k] = a or b
                else:
                    e2[k] = a if a is b else self.choose(g, a, b)
            env = e2
            cond = f_or(o[1], cond)
        if c is not None and len(nx) == 2:
            a, b = nx[0][1], nx[1][1]
            if a == c and b == f_not(c):
                cond = TRUE
        return rest + [("next", cond, None, env)]

    def loop(self, s, env):
        src = self.value(s.iter, env)
        # a literal sequence is unrolled
        n0 = src.d.get("node") if src.kind == "expr" else None
        if isinstance(n0, (ast.Tuple, ast.List)) and len(n0.elts) <= 8 and not any(isinstance(x, ast.Starred) for x in n0.elts):
            outs, cond, cur = [], TRUE, env
            done = []
            for el in n0.elts:
                e = dict(cur)
                self.bind(s.target, el, e)
                res = self.run(s.body, e)
                nxt = self.merge([("next", c, v, en) for k, c, v, en in res if k in ("next", "continue")])
                for k, c, v, en in res:
                    if k == "break":
                        done.append(("next", f_and(cond, c), None, en))
                    elif k in ("return", "raise"):
                        outs.append((k, f_and(cond, c), v, en))
                if not nxt:
                    cond = FALSE
                    break
                cond, cur = f_and(cond, nxt[-1][1]), nxt[-1][3]
            if cond != FALSE:
                done.append(("next", cond, None, cur))
            return outs + self.merge(done)
        # x + [y] and chains are the union of their parts
        coll, elem, base = self.source(src)
        inner = elem.args[0] if isinstance(elem, ast.Call) and isinstance(elem.func, ast.Name) and elem.func.id == "elem" else None
        e = dict(env)
        assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        muts = set()
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "add", "extend", "update"):
                    muts.add(x.func.value.id)
        marks = {}
        for v in (assigned | muts) - tnames:
            if v in env:
                marks[v] = opaque("pre_" + v)
                e[v] = marks[v]
        self.bind(s.target, elem, e)
        res = self.run(s.body, e)
        outs, ret_any, brk = [], FALSE, FALSE
        for k, c, v, en in res:
            if k in ("return", "raise"):
                if k == "return":
                    bv = self.boolean(self.as_node(v), {}) if v is not None else FALSE
                    if bv[0] == "const":
                        outs.append((k, f_ex(coll, f_and(base, c)), v, env))
                    else:
                        outs.append((k, f_ex(coll, f_and(base, c, bv)), E(ast.Constant(True)), env))
                        outs.append((k, f_ex(coll, f_and(base, c, f_not(bv))), E(ast.Constant(False)), env))
                else:
                    outs.append((k, f_ex(coll, f_and(base, c)), v, env))
                ret_any = f_or(ret_any, f_and(base, c))
            elif k == "break":
                brk = f_or(brk, f_and(base, c))
        after = dict(env)
        for v in (assigned | muts) - tnames:
            ends = [(c, en.get(v)) for k, c, x, en in res if k in ("next", "continue", "break")]
            after[v] = self.loop_value(v, env.get(v), marks.get(v), ends, coll, base)
        for t in tnames:
            after.pop(t, None)
        cond = f_not(f_ex(coll, ret_any)) if ret_any != FALSE else TRUE
        nxt = [("next", cond, None, after)]
        if s.orelse:
            b = f_ex(coll, brk) if brk != FALSE else FALSE
            els = self.run(s.orelse, after)
            nxt = self.merge([("next", f_and(cond, b), None, after)] + [(k, f_and(cond, f_not(b), c), v, en) for k, c, v, en in els])
        return outs + nxt

    def loop_value(self, name, old, mark, ends, coll, base):
        """value of a variable after a loop that changes it"""
        mk_ = mark.d["node"].id if mark is not None else None

        def uses(node):
            return mk_ is not None and any(isinstance(x, ast.Name) and x.id == mk_ for x in ast.walk(node))

        flat = []

        def open_(c, v):
            if v is None:
                return
            if v.kind == "ite":
                open_(f_and(c, v.d["c"]), v.d["a"])
                open_(f_and(c, f_not(v.d["c"])), v.d["b"])
            else:
                flat.append((c, v))
        for c, v in ends:
            open_(c, v)
        flat = [(c, v) for c, v in flat if c != FALSE]
        changed = [(c, v) for c, v in flat if not (v is mark or v.kind == "expr" and isinstance(v.d["node"], ast.Name) and v.d["node"].id == mk_)]
        if not changed:
            return old if old is not None else opaque(name)
        if old is None:
            return opaque(name)
        # additions to a list
        def parts_of(c, v):
            if v.kind in ("added", "extended"):
                if v.d["old"] is mark:
                    pre = []
                elif v.d["old"].kind in ("added", "extended", "built"):
                    pre = parts_of(c, v.d["old"])
                    if pre is None:
                        return None
                else:
                    return None
                if v.kind == "extended":
                    return pre + [(coll + (" x " + c2 if c2 else ""), el, f_and(base, c, f)) for c2, el, f in v.d["parts"]]
                return pre + [(coll, v.d["elem"], f_and(base, c))]
            if v.kind == "built" and v.d.get("mark") == mk_ and mk_ is not None:
                return [(coll + " x " + c2, el, f_and(base, c, f)) for c2, el, f in v.d["parts"]]
            return None
        if any(v.kind in ("added", "extended", "built") for c, v in changed):
            allp = [parts_of(c, v) for c, v in changed]
            if all(x is not None for x in allp):
                groups = {}
                for x in allp:
                    for c2, el, f in x:
                        groups.setdefault((c2, ast.dump(el)), [c2, el, []])[2].append(f)
                return self.joined(old, [(c2, el, f_or(*fs)) for c2, el, fs in groups.values()], name)
            return opaque(name)
        # flags: the same constant in every changed case
        texts = {ast.dump(v.d["node"]) if v.kind == "expr" else None for c, v in changed}
        if len(texts) == 1 and None not in texts and not uses(changed[0][1].d["node"]):
            n = changed[0][1].d["node"]
            if isinstance(n, ast.Constant):
                cond = f_or(*[f_and(base, c) for c, v in changed])
                cond = self.drop(cond, mk_, old)
                return self.choose(f_ex(coll, cond), changed[0][1], old)
        # flag &= test / flag = flag and test
        if len(changed) == 1 and changed[0][1].kind == "expr" and isinstance(changed[0][1].d["node"], ast.Name) and changed[0][1].d["node"].id in self.forms:
            c, v = changed[0]
            f = self.forms[v.d["node"].id]
            m = ("atom", mk_)
            if f[0] == "and" and m in f[1]:
                rest = f_and(*[x for x in f[1] if x != m])
                return E(self.fname(f_and(self.boolean(self.as_node(old), {}), f_not(f_ex(coll, f_and(base, c, f_not(rest)))))))
            if f[0] == "or" and m in f[1]:
                rest = f_or(*[x for x in f[1] if x != m])
                return E(self.fname(f_or(self.boolean(self.as_node(old), {}), f_ex(coll, f_and(base, c, rest)))))
            if not _mentions(f, mk_):
                return opaque(name)
        return opaque(name)

    def joined(self, old, parts, name):
        """a list that had `old` in it and to which the parts were added"""
        m = None
        if old.kind == "built":
            parts = list(old.d.get("parts") or ([(old.d["coll"], old.d["elem"], old.d["cond"])] if old.d["coll"] else [])) + parts
            m = old.d.get("mark")
        elif old.kind == "expr" and isinstance(old.d["node"], ast.Name) and old.d["node"].id.startswith("@pre_"):
            m = old.d["node"].id
        elif old.kind == "expr" and (isinstance(old.d["node"], ast.Call) and isinstance(old.d["node"].func, ast.Name) and
                                     old.d["node"].func.id in ("set", "list") and not old.d["node"].args or _empty_set(old.d["node"])):
            pass
        else:
            return opaque(name)
        if len(parts) == 1:
            return V("built", coll=parts[0][0], elem=parts[0][1], cond=parts[0][2], parts=parts, mark=m)
        return V("built", coll=" + ".join(p[0] for p in parts), elem=opaque("elem").d["node"], cond=f_or(*[p[2] for p in parts]), parts=parts, mark=m)

    def drop(self, f, mk_, old):
        """a flag's own earlier value inside the loop stands for its value before the loop"""
        if not _mentions(f, mk_):
            return f
        b = self.boolean(self.as_node(old), {})

        def go(x):
            if x[0] == "atom":
                return b if x[1] == mk_ else x
            if x[0] == "not":
                return f_not(go(x[1]))
            if x[0] in ("and", "or"):
                return _nary(x[0], [go(y) for y in x[1]])
            if x[0] == "ex":
                return f_ex(x[1], go(x[2]))
            return x
        return go(f)

    # -- entry points -----------------------------------------------------------
    def start(self, fi, cls=None):
        self.fi, self.cls = fi, cls or fi.cls
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        return {n: E(ast.Name(id=n, ctx=ast.Load())) for n in names if n != "self"}

    def outcomes(self, fi, cls=None, params=None):
        env = self.start(fi, cls)
        for k, v in (params or {}).items():
            env[k] = E(ast.Constant(v))
        return self.run(fi.node.body, env)

    def returns_true(self, fi, cls=None, params=None):
        return self.outs_true(self.outcomes(fi, cls, params))

    def returns_value(self, fi, cls=None, params=None):
        v = self.outs_value(self.outcomes(fi, cls, params))
        return v

    def raises(self, fi, cls=None, params=None):
        return f_or(*[c for k, c, v, e in self.outcomes(fi, cls, params) if k == "raise"])


class _GetForm(ast.NodeTransformer):
    """x.get(k), x.get(k, empty) read as x[k]"""
    def visit_Call(self, n):
        self.generic_visit(n)
        k = _get_parts(n)
        if k is not None:
            return ast.Subscript(value=k[0], slice=k[1], ctx=ast.Load())
        return n


def _get_parts(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and not n.keywords and 1 <= len(n.args) <= 2:
        if len(n.args) == 1:
            return n.func.value, n.args[0]
        d = n.args[1]
        if isinstance(d, (ast.Tuple, ast.List, ast.Set)) and not d.elts or isinstance(d, ast.Dict) and not d.keys or \
                isinstance(d, ast.Call) and not d.args and isinstance(d.func, ast.Name) or isinstance(d, ast.Constant) and d.value is None:
            return n.func.value, n.args[0]
    return None


def _empty_set(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "set" and len(n.args) == 1 and \
        isinstance(n.args[0], (ast.List, ast.Tuple)) and not n.args[0].elts


def _len(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len"


def _replace(root, old, new):
    """copy of root in which the node `old` is replaced"""
    if root is old:
        return copy.deepcopy(new)
    r = copy.copy(root)
    for f, v in ast.iter_fields(root):
        if isinstance(v, ast.AST):
            setattr(r, f, _replace(v, old, new))
        elif isinstance(v, list):
            setattr(r, f, [_replace(x, old, new) if isinstance(x, ast.AST) else x for x in v])
    return r


def _mentions(f, name):
    if f[0] == "atom":
        return name is not None and name in f[1]
    if f[0] == "not":
        return _mentions(f[1], name)
    if f[0] in ("and", "or"):
        return any(_mentions(x, name) for x in f[1])
    if f[0] == "ex":
        return _mentions(f[2], name)
    return False


def rename(f, table):
    """canonical names: every (old, new) pair applied to atom and collection texts"""
    def tx(s):
        for o, n in table:
            s = s.replace(o, n)
        return s
    if f[0] == "atom":
        return ("atom", tx(f[1]))
    if f[0] == "not":
        return f_not(rename(f[1], table))
    if f[0] in ("and", "or"):
        return _nary(f[0], [rename(x, table) for x in f[1]])
    if f[0] == "ex":
        return ("ex", tx(f[1]), rename(f[2], table))
    return f


def atoms(f, out=None):
    out = set() if out is None else out
    if f[0] == "atom":
        out.add(f[1])
    elif f[0] == "not":
        atoms(f[1], out)
    elif f[0] in ("and", "or"):
        for x in f[1]:
            atoms(x, out)
    elif f[0] == "ex":
        atoms(f[2], out)
    return out


def show(f):
    if f[0] == "const":
        return str(f[1])
    if f[0] == "atom":
        return f[1]
    if f[0] == "not":
        return "not(%s)" % show(f[1])
    if f[0] in ("and", "or"):
        return "(" + (" %s " % f[0]).join(show(x) for x in f[1]) + ")"
    return "some[%s](%s)" % (f[1], show(f[2]))


def upper(f, pol, known, who=None):
    """quantifier-free weakening of `f has truth value pol`, instantiated at the elements the caller speaks about:
    a denied existence is denied for those elements; an asserted existence says nothing about them"""
    if f[0] in ("atom", "const"):
        return f if pol else f_not(f)
    if f[0] == "not":
        return upper(f[1], not pol, known, who)
    if f[0] in ("and", "or"):
        op = f[0] if pol else ("or" if f[0] == "and" else "and")
        return _nary(op, [upper(x, pol, known, who) for x in f[1]])
    if f[0] == "ex":
        if pol:
            # conditions that do not depend on the element survive
            return _free(f[2], who)
        if not known(f[1]):
            return TRUE
        return upper(f[2], False, known, who)


def _free(f, who=None):
    """consequence of `some x: f` that does not mention an element"""
    def bound(a):
        return "elem(" in a or who is not None and who in a
    if f[0] == "atom":
        return TRUE if bound(f[1]) else f
    if f[0] == "not":
        return f if not any(bound(a) for a in atoms(f)) and f[1][0] != "ex" else TRUE
    if f[0] == "and":
        return f_and(*[_free(x, who) for x in f[1]])
    if f[0] == "or":
        return f_or(*[_free(x, who) for x in f[1]])
    if f[0] == "ex":
        return _free(f[2], who)
    return f


def sat(f, fixed):
    """is the quantifier-free formula satisfiable when the atoms in `fixed` have the given values?"""
    def simp(x):
        if x[0] == "atom":
            return (TRUE if fixed2[x[1]] else FALSE) if x[1] in fixed2 else x
        if x[0] == "not":
            return f_not(simp(x[1]))
        if x[0] in ("and", "or"):
            return _nary(x[0], [simp(y) for y in x[1]])
        return x

    fixed2 = dict(fixed)
    f = simp(f)
    if f[0] == "const":
        return f[1]
    # unit literals first
    if f[0] == "and":
        for x in f[1]:
            if x[0] == "atom":
                return sat(f, dict(fixed2, **{x[1]: True}))
            if x[0] == "not" and x[1][0] == "atom":
                return sat(f, dict(fixed2, **{x[1][1]: False}))
    a = sorted(atoms(f))[0]
    return sat(f, dict(fixed2, **{a: True})) or sat(f, dict(fixed2, **{a: False}))


def can_be(f, pol, lits, known=lambda c: True, who=None):
    """may `f` have truth value pol when the literals {atom: bool} hold for the elements spoken about?"""
    return sat(upper(f, pol, known, who), lits)
