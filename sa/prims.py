"""Shared view of the built-in primitives: class attributes, backends, computation per backend, what a computation reads."""
import ast
from .flow import Engine, mk, const, walk, alts, T, is_const, cval

LIBS = ("PANDAS", "DASK", "KOALAS")


def primitives(p, package="featuretools.primitives.standard"):
    return [c for c in sorted(p.subclasses("PrimitiveBase"), key=lambda c: c.qual)
            if c.module.name.startswith(package)]


def kind(c):
    return "aggregation" if c.is_subclass("AggregationPrimitive") else "transform" if c.is_subclass("TransformPrimitive") else None


def lib_values(p):
    """Library member name -> value, from the enum's class body"""
    lib = p.cls("Library")
    out = {}
    for n, v in lib.attrs.items():
        if isinstance(v, ast.Constant):
            out[n] = v.value
    return out


def attr_ast(c, name):
    r = c.find_attr(name)
    return None if r is None else r[1]


def compatibility(p, c):
    """names of the declared Library members; None when it is not a literal list"""
    a = attr_ast(c, "compatibility")
    if a is None:
        return ["PANDAS"]
    e = Engine(p, inline=lambda g: False)
    owner = c.find_attr("compatibility")[0]
    names = set()
    todo = [a]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            todo += n.elts
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.BitOr)):
            todo += [n.left, n.right]
        elif isinstance(n, ast.Attribute) and n.attr in lib_values(p):
            names.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "set", "sorted") and len(n.args) == 1:
            todo += n.args
        elif isinstance(n, (ast.Name, ast.Attribute)):
            if isinstance(n, ast.Name) and n.id == "Library":
                names |= set(lib_values(p))
                continue
            v = resolve_value(p, owner, n)
            if v is None:
                return None
            todo.append(v)
        else:
            return None
    return [x for x in LIBS if x in names] + sorted(names - set(LIBS))


def resolve_value(p, c, n):
    """syntax of a module or class level constant"""
    if isinstance(n, ast.Name):
        if n.id in c.attrs:
            return c.attrs[n.id]
        r = p.lookup(c.module, n.id)
        if r and r[0] in ("var", "value", "assign"):
            return r[1]
        for st in c.module.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets):
                return st.value
    elif isinstance(n, ast.Attribute):
        r = p.resolve_expr(c.module, n.value)
        if r and r[0] == "class":
            f = r[1].find_attr(n.attr)
            if f:
                return f[1]
    return None


def computation(p, c, lib="PANDAS"):
    """(engine, term) of get_function for a backend; (None, None) when it has none of its own"""
    g = c.find_method("get_function")
    if g is None or g.cls.name == "PrimitiveBase":
        return None, None
    e = Engine(p, inline=lambda f: f.cls is not None and f.name not in ("__init__",) and c.is_subclass(f.cls), inline_properties=False)
    args = {}
    prms = g.all_params()[1:]
    if prms:
        args[prms[0]] = const(lib_values(p).get(lib, lib))
    r = e.run(g, args=args, self_term=mk("inst", c.name, "self"))
    return e, r


def closures(t):
    return [x.a[1] for x in walk(t) if x.k == "closure"]


def nested(fi):
    """functions defined directly inside fi (name -> node)"""
    out = {}
    body = fi.node.body if isinstance(fi.node.body, list) else [fi.node.body]
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = n.value
    return out


def body_nodes(fi, c=None, p=None):
    """syntax nodes of a computation: its body, the sibling functions it names and the own methods it calls"""
    seen, todo, out = set(), [(fi.node, fi)], []
    while todo:
        node, f = todo.pop()
        if id(node) in seen:
            continue
        seen.add(id(node))
        sib = {}
        par = f
        while par is not None:
            sib = dict(nested(par), **sib)
            par = par.parent
        for n in ast.walk(node):
            out.append(n)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in sib:
                todo.append((sib[n.id], f))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and p is not None:
                r = p.lookup(f.module, n.id)
                if r and r[0] == "func":
                    todo.append((r[1].node, r[1]))
            elif c is not None and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                m = c.find_method(n.attr)
                if m is not None and m.cls.name not in ("PrimitiveBase",):
                    todo.append((m.node, m))
    return out


def reads(c, e, t, p=None):
    """attributes of the primitive that the computation depends on"""
    out = set()
    for x in walk(t):
        if x.k == "attr" and x.a[0].k == "inst":
            out.add(x.a[1])
        elif x.k in ("mcall",) and x.a[0].k == "inst":
            out.add(x.a[1])
    for f in closures(t):
        for n in body_nodes(f, c, p):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                # a local of get_function holding an attribute
                pass
        # locals of the enclosing function captured by the closure
        par = f.parent
        free = {n.id for n in body_nodes(f, c, p) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        changed = True
        while par is not None and changed:
            changed = False
            for st in ast.walk(par.node):
                if isinstance(st, ast.Assign):
                    tg = {n.id for t2 in st.targets for n in ast.walk(t2) if isinstance(n, ast.Name)}
                    if tg & free:
                        for n in ast.walk(st.value):
                            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                                out.add(n.attr)
                            elif isinstance(n, ast.Name) and n.id not in free:
                                free.add(n.id)
                                changed = True
            if not changed:
                par = par.parent
                changed = par is not None
    done = set()
    for x in walk(t):
        f = x.a[0] if x.k == "func" else x.a[1] if x.k == "bound" and len(x.a) > 1 and hasattr(x.a[1], "node") else None
        if f is None and x.k == "bound":
            f = next((a for a in x.a if hasattr(a, "node")), None)
        if f is not None and getattr(f, "cls", None) is not None:
            out.add(f.name)
    while True:
        ms = [c.find_method(n) for n in out - done]
        done |= out
        ms = [m for m in ms if m is not None and m.name not in ("get_function", "__init__") and m.cls.name != "PrimitiveBase"]
        if not ms:
            return out
        for m in ms:
            for n in body_nodes(m, c, p):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)


def run_computation(p, c, lib="PANDAS"):
    """[(FuncInfo, result term)] of every function a backend's computation may be, evaluated with the locals it captured"""
    g = c.find_method("get_function")
    if g is None or g.cls.name == "PrimitiveBase":
        return []
    e = Engine(p, inline=lambda f: f.parent is not None or f.cls is not None and f.name != "__init__" and c.is_subclass(f.cls) or ".utils" in f.module.name,
               inline_properties=False, max_depth=6)
    args = {}
    prms = g.all_params()[1:]
    if prms:
        args[prms[0]] = const(lib_values(p).get(lib, lib))
    t = e.run(g, args=args, self_term=mk("inst", c.name, "self"))
    out = []
    for x in alts(t):
        if x.k == "closure":
            k = e.closures[("closure", x.a[0])]
            bind = {q: mk("param", q) for q in k.fi.all_params()}
            del e.guards[:]
            out.append((k.fi, e._exec_function(k.fi, bind, k.frame)))
    return out
