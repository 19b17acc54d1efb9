"""Every wrapped public call tells each plugin once before the call and once after it.  The decorator that reads the plugin
registry is run by a path-sensitive interpreter (sa/paths.py) with one representative plugin, a wrapped function that returns
or fails and hooks that may fail: on every path the hook sees the call (all arguments, in its own mapping) before the function
runs, then exactly one of its result and its error; the function runs once with the caller's arguments and its result or its
exception is what the caller gets.  Import-time plugin loops are run with loads that fail: no failure may escape."""
import ast
from ..paths import Paths, Client, TooBig, NONE, has
from ..index import dotted

TECHNIQUE = "path-sensitive protocol (typestate) analysis of the plugin decorator and of the import-time plugin loops"
LEVEL_NOTE = "A plugin is taken to have no means to change the library except through what it is handed; a hook that fails may end the call."
MIN_INSTANCES = {"notified": 1, "transparent": 1, "arguments": 1, "isolated": 3}
REG = ("iter_entry_points", "entry_points")
MUT = ("update", "pop", "popitem", "clear", "setdefault", "__setitem__")


def reads_registry(node):
    return any(isinstance(x, ast.Attribute) and x.attr in REG or isinstance(x, ast.Name) and x.id in REG for x in ast.walk(node))


class Hooks(Client):
    def traced(self, name):
        return name in MUT

    def elements(self, val, st):
        if val[0] == "call" and val[1] in REG:
            return [("entry",)]
        if val[0] in ("list", "tuple", "set") and val[1]:
            return list(val[1])
        if has(val, lambda x: x in (("param", "args"), ("param", "kwargs"))):
            return [("elem", val)]
        return None

    def call(self, paths, e, name, fval, recv, args, kws, st):
        args_ = args[:1]
        if recv == ("entry",) and name in ("load", "resolve"):
            return [("next", st, ("cls",))]
        if fval == ("cls",) or recv == ("cls",) and name == "__call__":
            return [("next", st, ("plugin",))]
        if recv == ("plugin",):
            n = st.ev(name, args, kws)
            return [("next", n, NONE), ("raise", n.ev("hookfail"), ("exc", "hook"))]
        if fval == ("attr", ("plugin",), "on_call") or fval is not None and fval[0] == "attr" and fval[1] == ("plugin",):
            n = st.ev(fval[2], args, kws)
            return [("next", n, NONE), ("raise", n.ev("hookfail"), ("exc", "hook"))]
        if fval == self.func:
            n = st.ev("func", args, kws)
            return [("next", n, ("result",)), ("raise", n, ("exc", "func"))]
        if name in ("list", "tuple", "iter") and len(args_) == 1 and not kws and recv is None and args_[0][0] in ("list", "tuple", "set"):
            return [("next", st, args_[0])]
        if name in ("list", "tuple", "iter") and len(args_) == 1 and recv is None and args_[0][0] == "call" and args_[0][1] in REG:
            return [("next", st, ("list", (("entry",),)))]
        if name == "getattr" and len(args) >= 2 and args[0] == ("plugin",) and args[1][0] == "const":
            return [("next", st, ("attr", ("plugin",), args[1][1].strip("'")))]
        return None


class Loads(Client):
    """import-time loops: whatever touches what a plugin supplied may fail"""
    def elements(self, val, st):
        if val[0] == "call" and val[1] in REG:
            return [("entry",)]
        if val[0] in ("list", "tuple", "set") and val[1]:
            return list(val[1])
        return None

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if recv == ("entry",) and name in ("load", "resolve"):
            return [("next", st.ev("load"), ("loaded",)), ("raise", st.ev("load"), ("exc", "load"))]
        parts = [x for x in (recv, fval) if x is not None] + list(args) + [v for k, v in kws]
        if any(has(x, lambda y: y == ("loaded",)) for x in parts) and name not in ("callable", "hasattr", "isinstance", "type", "id", "repr", "str", "len"):
            return [("next", st, ("call", name, recv, args, kws, "")), ("raise", st, ("exc", "plugin"))]
        if name in ("list", "tuple", "iter") and recv is None and args and args[0][0] == "call" and args[0][1] in REG:
            return [("next", st, ("list", (("entry",),)))]
        return None

    def catches(self, handler_types, exc):
        if exc[0] == "exc" and handler_types and not ({"Exception", "BaseException"} & set(handler_types)):
            return None
        return Client.catches(self, handler_types, exc)


def decorators(p):
    """(wrapped function, decorator function, decorator called with arguments?) where the decorator reads the registry"""
    seen = {}
    for f in p.functions:
        if ".tests" in f.module.name:
            continue
        for d in f.node.decorator_list:
            r = p.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
            if r is not None and r[0] == "func" and (reads_registry(r[1].node) or calls_reader(p, r[1])):
                seen.setdefault(id(r[1].node), (r[1], isinstance(d, ast.Call), []))[2].append(f)
    return list(seen.values())


def calls_reader(p, f, seen=None):
    seen = seen if seen is not None else set()
    if id(f.node) in seen:
        return False
    seen.add(id(f.node))
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            r = p.resolve_expr(f.module, x.func)
            if r is not None and r[0] == "func" and (reads_registry(r[1].node) or calls_reader(p, r[1], seen)):
                return True
    return False


def closures_of(outs):
    return [(st, v) for k, st, v in outs if k == "return" and v[0] == "closure"]


def wrapper_of(p, dec, called):
    """the innermost wrapper closure, its environment and the value of the wrapped function in it"""
    cl = Hooks()
    cl.func = None
    ps = Paths(p, cl)
    outs = ps.run(dec.module, dec.node, dec)
    env, stage, node = {}, 1 if called else 0, dec.node
    level = dec.node
    while True:
        c = closures_of(outs)
        if not c:
            return None
        st, v = c[0]
        fn, m, fi = ps.closures[v[1]]
        a = fn.args
        first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
        if a.vararg is not None and a.kwarg is not None:
            func = None
            if called or stage:
                # the function is the parameter of the level before
                func = ("param", (level.args.posonlyargs + level.args.args)[0].arg)
            else:
                func = ("param", (dec.node.args.posonlyargs + dec.node.args.args)[0].arg)
            return fn, m, fi, dict(st.env), func, ps.closures
        level = fn
        ps2 = Paths(p, cl)
        env2 = dict(st.env)
        for x in a.posonlyargs + a.args:
            env2[x.arg] = ("param", x.arg)
        outs = ps2.run(m, fn, fi, env2)
        ps2.closures.update(ps.closures)
        ps = ps2


def check(ctx):
    p = ctx.p
    decs = decorators(p)
    ctx.need(decs, "a decorator that reads the plugin registry")
    total = 0
    for dec, called, wrapped in decs:
        w = wrapper_of(p, dec, called)
        ctx.need(w is not None, "the wrapper %s returns" % dec.qual)
        fn, m, fi, env, func, closures = w
        va, kw = fn.args.vararg.arg, fn.args.kwarg.arg
        env = {k: v for k, v in env.items()}
        env[va], env[kw] = ("param", "args"), ("param", "kwargs")
        cl = Hooks()
        cl.func = func
        ps = Paths(p, cl)
        # closures of the enclosing levels stay callable
        outs = run_with(ps, closures, m, fn, fi, env)
        ctx.unit(fi if fi is not None else dec)
        total += len(outs)
        names = ", ".join(f.qual for f in wrapped)
        notify, transparent, arguments = [], [], []
        for k, st, v in outs:
            protocol(k, st, v, notify, transparent, arguments)
        loc = "%s:%d" % (m.rel, fn.lineno)
        ctx.ob("notified", "hooks around %s" % names, not notify, loc, "; ".join(sorted(set(notify))[:3]))
        ctx.ob("transparent", "result of %s" % names, not transparent, loc, "; ".join(sorted(set(transparent))[:3]))
        ctx.ob("arguments", "arguments of %s" % names, not arguments, loc, "; ".join(sorted(set(arguments))[:3]))
    # import-time loops
    sites = 0
    for m in p.modules.values():
        if ".tests" in m.name:
            continue
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            hit = reads_registry(s)
            if not hit:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call):
                        r = p.resolve_expr(m, x.func)
                        if r is not None and r[0] == "func" and (reads_registry(r[1].node) or calls_reader(p, r[1])):
                            hit = True
            if not hit or guard_main(s):
                continue
            mod = ast.parse("def module(): pass").body[0]
            mod.body = [s]
            outs = Paths(p, Loads()).run(m, mod, None)
            esc = [v for k, st, v in outs if k == "raise" and v[0] == "exc"]
            loads = any(e[0] == "load" for k, st, v in outs for e in st.trace)
            if not loads:
                continue
            sites += 1
            ctx.ob("isolated", "plugins loaded by %s" % m.name + ("" if sites == 1 else " (%s)" % registry_name(s)), not esc, "%s:%d" % (m.rel, s.lineno),
                   "a plugin that fails to %s stops the import" % ("load" if any(x[1] == "load" for x in esc) else "register"))
    ctx.stats.update({"paths through wrappers": total, "import-time plugin loops": sites})


def registry_name(s):
    for x in ast.walk(s):
        if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in REG:
            for a in list(x.args) + [k.value for k in x.keywords]:
                if isinstance(a, ast.Constant):
                    return str(a.value)
    return "helper"


def guard_main(s):
    return isinstance(s, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(s.test))


def run_with(ps, closures, m, fn, fi, env):
    orig = ps.run

    ps.budget, ps.depth, ps.stack, ps.module, ps.func, ps.closures = ps.budget0, 0, [id(fn)], m, fi, dict(closures)
    from ..paths import St
    return ps.block(fn.body, [St(dict(env))])


def protocol(k, st, v, notify, transparent, arguments):
    tr = [e for e in st.trace]
    names = [e[0] for e in tr]
    failed = "hookfail" in names or any(e[0] == "skipped" and len(e) > 2 and e[2] == ("exc", "hook") for e in tr)
    seen = [n for n in names if n in ("on_return", "on_error")]
    if len(seen) > 1:
        notify.append("a plugin is told of the outcome more than once (%s)" % " then ".join(seen))
    if names.count("on_call") > 1:
        notify.append("a plugin is told of the call more than once")
    if names.count("func") > 1:
        transparent.append("the function runs more than once")
    if failed:
        return
    if "skipped" in names:
        notify.append("not every plugin is told")
        return
    if k in ("return", "next"):
        if "func" not in names:
            transparent.append("the call returns without running the function")
            return
        if v != ("result",):
            transparent.append("the call does not return what the function returned")
        if "on_return" not in names:
            notify.append("a call that returns is not reported with its result")
        if "on_error" in names:
            notify.append("a call that returns is reported as failed")
    elif k == "raise":
        if v != ("exc", "func"):
            transparent.append("the call raises something else than the function did")
            return
        if "on_error" not in names:
            notify.append("a call that fails is not reported with its error")
        if "on_return" in names:
            notify.append("a call that fails is reported as returning")
    if "on_call" not in names:
        notify.append("a plugin is not told of the call before it runs")
    elif "func" in names and names.index("on_call") > names.index("func"):
        notify.append("a plugin is told of the call only after it ran")
    for i, e in enumerate(tr):
        if e[0] == "on_return" and value(e, "return_value") != ("result",):
            notify.append("on_return is given something else than the result")
        if e[0] == "on_error" and value(e, "error") != ("exc", "func"):
            notify.append("on_error is given something else than the error")
        if e[0] == "func" and not same_arguments(e, tr[:i]):
            arguments.append("the function is not called with the caller's arguments")
        if e[0] == "on_call":
            x = value(e, "kwargs")
            why = described(x, tr[:i])
            if why:
                arguments.append(why)


def value(e, name):
    for k, v in e[2]:
        if k == name:
            return v
    return e[1][0] if e[1] else e[2][0][1] if len(e[2]) == 1 and e[2][0][0] != "runtime" else None


def same_arguments(e, before):
    def plain(x, n):
        if x == ("param", n):
            return True
        # the arguments bound to the signature
        if n == "args" and x[0] == "attr" and x[2] == "args" or n == "kwargs" and x[0] == "attr" and x[2] == "kwargs":
            b = x[1]
            return b[0] == "call" and b[1] == "bind" and b[3] == (("star", ("param", "args")),) and b[4] == (("**", ("param", "kwargs")),)
        if x[0] == "call" and x[1] in ("dict", "tuple", "list", "copy"):
            src = x[3][0] if x[3] else x[2]
            return src is not None and plain(src, n)
        return False
    if len(e[1]) != 1 or e[1][0][0] != "star" or not plain(e[1][0][1], "args"):
        return False
    if len(e[2]) != 1 or e[2][0][0] != "**" or not plain(e[2][0][1], "kwargs"):
        return False
    kwv = e[2][0][1]
    for b in before:
        if b[0] == "setitem" and b[1] == kwv or b[0] == "del" and b[1] == kwv or b[0] == "call" and b[2] == kwv and b[1] in MUT:
            return False
    return True


def described(x, before):
    """is the mapping handed to on_call built from all arguments?"""
    if x is None:
        return "on_call is not given the arguments"
    if x == ("param", "kwargs"):
        return "on_call is given the very mapping the function is called with"
    parts = [x]
    for b in before:
        if b[0] == "setitem" and b[1] == x:
            parts += [b[2], b[3]]
        if b[0] == "call" and b[2] == x and b[1] == "update":
            parts += list(b[3]) + [v for k, v in b[4]]
        if b[0] == "del" and b[1] == x or b[0] == "call" and b[2] == x and b[1] in ("pop", "popitem", "clear"):
            return "arguments are dropped before on_call is told"
    whole = tuple(parts)
    for n in ("args", "kwargs"):
        if not any(has(y, lambda z: z == ("param", n)) for y in whole):
            return "on_call is not given the %s arguments" % ("positional" if n == "args" else "keyword")
    if any(has(y, lambda z: z[0] == "sub" and len(z) > 2 and z[1] == ("param", "args") and z[2][0] == "slice") for y in whole):
        return "on_call is given only part of the positional arguments"
    return None
