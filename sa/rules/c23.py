"""Operator primitives compute the operator they are named for.  The function each operator primitive returns, the text it
displays, its description and the overload on features that builds it are each evaluated to a term over the operands, and the
terms are compared: the operator, the operands and their order."""
import ast
import re
from ..paths import Paths, Client, TooBig, has
from .c18 import clean

TECHNIQUE = "symbolic terms extracted from each operator primitive's function, name, description and from the overloads on features, normalised and compared; symmetry of declared-commutative operations by normal form under exchange of the operands"
LEVEL_NOTE = "NumPy and pandas operators are taken to compute what they are named for; how they treat missing values and data types is not decided."
MIN_INSTANCES = {"computes": 24, "displays": 20, "overload": 20, "commutes": 6}

X0, X1, V = ("x", 0), ("x", 1), ("V",)
BIN = {"greater_than": "Gt", "greater_than_equal_to": "GtE", "less_than": "Lt", "less_than_equal_to": "LtE", "equal": "Eq", "not_equal": "NotEq",
       "add_numeric": "Add", "subtract_numeric": "Sub", "multiply_numeric": "Mult", "divide_numeric": "Div", "modulo_numeric": "Mod"}
SPEC = {n: (o, X0, X1) for n, o in BIN.items()}
SPEC.update({n + "_scalar": (o, X0, V) for n, o in BIN.items()})
SPEC.update({"scalar_subtract_numeric_feature": ("Sub", V, X0), "divide_by_feature": ("Div", V, X0), "modulo_by_feature": ("Mod", V, X0),
             "and": ("And", X0, X1), "or": ("Or", X0, X1), "not": ("Not", X0), "negate": ("USub", X0), "absolute": ("Abs", X0),
             "is_null": ("IsNull", X0), "isin": ("IsIn", X0, V), "multiply_boolean": ("And", X0, X1)})
UFUNC = {"greater": "Gt", "greater_equal": "GtE", "less": "Lt", "less_equal": "LtE", "equal": "Eq", "not_equal": "NotEq", "add": "Add", "subtract": "Sub",
         "multiply": "Mult", "divide": "Div", "true_divide": "Div", "mod": "Mod", "remainder": "Mod", "logical_and": "And", "logical_or": "Or",
         "bitwise_and": "And", "bitwise_or": "Or", "logical_not": "Not", "invert": "Not", "bitwise_not": "Not", "negative": "USub", "absolute": "Abs",
         "abs": "Abs", "fabs": "Abs", "isnan": "IsNull", "isna": "IsNull", "isnull": "IsNull", "power": "Pow", "square": "Square", "sub": "Sub",
         "mul": "Mult", "truediv": "Div", "div": "Div", "gt": "Gt", "ge": "GtE", "lt": "Lt", "le": "LtE", "eq": "Eq", "ne": "NotEq", "and_": "And", "or_": "Or",
         "not_": "Not", "neg": "USub", "isin": "IsIn", "in1d": "IsIn", "floordiv": "FloorDiv", "floor_divide": "FloorDiv", "xor": "Xor", "logical_xor": "Xor",
         "bitwise_xor": "Xor", "notnull": "NotNull", "notna": "NotNull", "fmod": "fmod", "radd": "Add", "rmul": "Mult"}
MIRROR = {"rsub": "Sub", "rdiv": "Div", "rtruediv": "Div", "rmod": "Mod"}
OPS = {"Add": "Add", "Sub": "Sub", "Mult": "Mult", "Div": "Div", "Mod": "Mod", "BitAnd": "And", "BitOr": "Or", "Invert": "Not", "USub": "USub", "FloorDiv": "FloorDiv",
       "BitXor": "Xor", "Pow": "Pow"}
CMP = ("Gt", "GtE", "Lt", "LtE", "Eq", "NotEq")
SYMMETRIC = {"Add", "Mult", "Eq", "NotEq", "And", "Or", "Xor"}
FLIP = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}
SYMBOL = {">": "Gt", ">=": "GtE", "<": "Lt", "<=": "LtE", "=": "Eq", "==": "Eq", "!=": "NotEq", "+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "%": "Mod", "//": "FloorDiv"}
SAME = ("add_categories", "copy", "union_categories", "to_numpy", "array", "asarray")
PHRASES = [(r"whether (\S+) is greater than or equal to (\S+)$", "GtE"), (r"whether (\S+) is greater than (\S+)$", "Gt"), (r"whether (\S+) is less than or equal to (\S+)$", "LtE"),
           (r"whether (\S+) is less than (\S+)$", "Lt"), (r"whether (\S+) does not equal (\S+)$", "NotEq"), (r"whether (\S+) equals (\S+)$", "Eq"), (r"the sum of (\S+) and (\S+)$", "Add"),
           (r"the result (?:of )?(\S+) minus (\S+)$", "Sub"), (r"the product of (\S+) and (\S+)$", "Mult"), (r"the result (?:of )?(\S+) divided by (\S+)$", "Div"),
           (r"the remainder after dividing (\S+) by (\S+)$", "Mod"), (r"whether (\S+) and (\S+) are true$", "And"), (r"whether (\S+) is true or (\S+) is true$", "Or"),
           (r"whether (\S+) is null$", "IsNull"), (r"whether (\S+) is in (\S+)$", "IsIn"), (r"the absolute value of (\S+)$", "Abs")]


def norm(t):
    """comparisons and symmetric operators with their operands in a fixed order"""
    if not isinstance(t, tuple) or not t or t[0] in ("x", "V", "c", "self", "other"):
        return t
    op, args = t[0], [norm(x) for x in t[1:]]
    if op == "USub" and args[0][0] == "c" and isinstance(args[0][1], (int, float)):
        return ("c", -args[0][1])
    if op == "Mult" and len(args) == 2 and ("c", -1) in args:
        return norm(("USub", [x for x in args if x != ("c", -1)][0])) if args[0] != args[1] else (op,) + tuple(args)
    if op == "Sub" and len(args) == 2 and args[0] == ("c", 0):
        return ("USub", args[1])
    if op == "Not" and args[0][0] == "Eq":
        return norm(("NotEq",) + args[0][1:])
    if op == "Not" and args[0][0] == "NotEq":
        return norm(("Eq",) + args[0][1:])
    if op == "Not" and args[0][0] == "NotNull":
        return ("IsNull",) + args[0][1:]
    if op in ("Gt", "GtE"):
        op, args = FLIP[op], args[::-1]
    if op in SYMMETRIC:
        args = sorted(args, key=repr)
    return (op,) + tuple(args)


class Value(Client):
    max_depth = 4

    def call(self, paths, e, name, fval, recv, args, kws, st):
        if name == "isinstance" and len(args) == 2:
            return [("next", st, ("isinst", args[0], clean(args[1])))]
        if name in ("FeatureBase", "Feature", "TransformFeature"):
            return [("next", st, ("call", "Feature", None, args, kws, paths.loc(e)))]
        if isinstance(e.func, ast.Name) and recv is None and fval is not None and fval[0] in ("attr", "name") and fval[-1] != name and isinstance(fval[-1], str):
            return [("next", st, ("call", fval[-1], None, args, kws, paths.loc(e)))]
        if name == "map" and recv is None and len(args) == 2 and args[1][0] in ("list", "tuple"):
            f = args[0]
            return [("next", st, ("list", tuple(("call", f[2] if f[0] == "attr" else f[-1], f[1] if f[0] == "attr" else None, (x,), (), "") for x in args[1][1])))]
        return None

    def enter(self, fi):
        return True


def init_fields(p, c):
    """self attribute -> constructor parameter"""
    f = c.find_method("__init__")
    if f is None:
        return {}
    params = [a.arg for a in f.node.args.args[1:]]
    out = {}
    for k, st, v in Paths(p, Value(), budget=20000).run(f.module, f.node, f):
        for e in st.trace:
            if e[0] == "setattr" and e[1] == ("param", "self") and e[3][0] == "param" and e[3][1] in params:
                out[e[2]] = e[3][1]
    return out


class Unknown(Exception):
    pass


def term(v, xs, fields, raw=False):
    """a value of the interpreter as a term over the operands"""
    t = lambda w: term(w, xs, fields)
    if v in xs:
        return ("x", xs[v])
    if v[0] == "attr" and v[1] == ("param", "self") and v[2] in fields:
        return V
    if v[0] == "const":
        try:
            return ("c", ast.literal_eval(v[1]))
        except Exception:
            return ("c", v[1])
    if v[0] == "attr" and v[2] in ("values", "array"):
        return t(v[1])
    if v[0] == "cmp" and len(v[1]) == 1 and v[1][0] in CMP:
        return (v[1][0], t(v[2][0]), t(v[2][1]))
    if v[0] == "op" and v[1] in OPS:
        return (OPS[v[1]],) + tuple(t(x) for x in v[2:])
    if v[0] == "call":
        name, recv, args = v[1], v[2], list(v[3])
        lib = recv is None or recv[0] == "name"
        if name in ("Series", "array", "asarray", "list") and lib and args:
            return t(args[0])
        if name in SAME and not lib:
            b = recv[1] if recv[0] == "attr" and recv[2] == "cat" else recv
            return t(b)
        ops = args if lib else [recv] + args
        if name in MIRROR and not lib:
            return (MIRROR[name],) + tuple(t(x) for x in ops[::-1])
        if name == "isin" and len(ops) == 2:
            y = ops[1]
            return ("IsIn", t(ops[0]), t(y))
        if name in UFUNC and ops:
            return (UFUNC[name],) + tuple(t(x) for x in ops)
        if lib and recv is not None and recv[1] in ("np", "numpy"):
            return (name,) + tuple(t(x) for x in ops)
    raise Unknown(repr(v)[:80])


def function_terms(p, c, fields):
    """the terms the primitive's function computes, one per path, or None when the shape is unknown"""
    f = c.find_method("get_function")
    if f is None:
        return None
    ps = Paths(p, Value(), budget=60000)
    out = []
    for k, st, v in ps.run(f.module, f.node, f):
        if k != "return":
            continue
        if v[0] == "attr" and v[1][0] == "name" and v[1][1] in ("np", "numpy", "operator", "pd") or v[0] == "name":
            n = v[2] if v[0] == "attr" else v[1]
            op = UFUNC.get(n, n if v[0] == "attr" else None)
            if op is None:
                r = f.module.symbols.get(n)
                if r is None or r[0] != "func":
                    return None
                g = r[1]
                outs = ps.enter(g.node, g.module, g, n, [("param", "#%d" % i) for i in range(len(g.node.args.args))], (), st, None)
            else:
                out.append((op,) + ((X0,) if op in ("Not", "USub", "Abs", "IsNull", "NotNull") else (X0, X1)))
                continue
        elif v[0] == "closure":
            node, m, g = ps.closures[v[1]]
            n = len(node.args.args)
            outs = ps.enter(node, m, g, None, [("param", "#%d" % i) for i in range(n)], (), st, dict(st.env))
        elif v[0] == "attr" and v[1] == ("param", "self") and c.find_method(v[2]) is not None:
            g = c.find_method(v[2])
            n = len(g.node.args.args) - 1
            outs = ps.enter(g.node, g.module, g, v[2], [("param", "#%d" % i) for i in range(n)], (), st, None)
        elif v[0] == "call" and v[1] == "partial":
            return None
        else:
            return None
        for kind, n, w in outs:
            if kind not in ("next", "return"):
                continue
            w = clean(w)
            xs = {("param", "#%d" % i): i for i in range(4)}
            # x or [] when x is empty
            try:
                out.append(term(w, xs, fields))
            except Unknown:
                if w[0] == "call" and w[1] == "isin" and w[3] and w[3][0][0] in ("list", "tuple") and not w[3][0][1]:
                    continue
                return None
    return out or None


def pieces(v, leaf):
    """a text value as a list of str and leaves"""
    if v[0] == "const":
        try:
            s = ast.literal_eval(v[1])
        except Exception:
            raise Unknown(v[1])
        return [s if isinstance(s, str) else str(s)]
    w = leaf(v)
    if w is not None:
        return [w]
    if v[0] == "call" and v[1] in ("str", "format", "repr") and v[2] is None and v[3]:
        return pieces(v[3][0], leaf)
    if v[0] == "op" and v[1] == "Add":
        return pieces(v[2], leaf) + pieces(v[3], leaf)
    if v[0] == "text":
        return [y for x in v[1:] for y in pieces(x, leaf)]
    if v[0] == "op" and v[1] == "Mod":
        base = pieces(v[2], leaf)
        args = list(v[3][1]) if v[3][0] == "tuple" else [v[3]]
        out = []
        for b in base:
            if not isinstance(b, str):
                out.append(b)
                continue
            for part in re.split(r"(%%|%[sdr])", b):
                if part == "%%":
                    out.append("%")
                elif part in ("%s", "%d", "%r"):
                    if not args:
                        raise Unknown("format")
                    out += pieces(args.pop(0), leaf)
                elif part:
                    out.append(part)
        return out
    if v[0] == "call" and v[1] == "format" and v[2] is not None:
        base = pieces(v[2], leaf)
        args, kw, out, k = list(v[3]), dict(v[4]), [], 0
        for b in base:
            if not isinstance(b, str):
                raise Unknown("format")
            for part in re.split(r"(\{\{|\}\}|\{\w*\})", b):
                if part in ("{{", "}}"):
                    out.append(part[0])
                elif part[:1] == "{" and part[-1:] == "}":
                    n = part[1:-1]
                    x = kw.get(n) if n and not n.isdigit() else None
                    if x is None:
                        i = int(n) if n.isdigit() else k
                        k += 1
                        if i >= len(args):
                            if args and args[0][0] == "star":
                                x = ("sub", args[0][1], ("const", str(i)))
                            else:
                                raise Unknown("format")
                        else:
                            x = args[i]
                    out += pieces(x, leaf)
                elif part:
                    out.append(part)
        return out
    if v[0] == "call" and v[1] == "join" and v[2] is not None and v[3]:
        if v[3][0][0] in ("list", "tuple"):
            sep, out = pieces(v[2], leaf), []
            for i, x in enumerate(v[3][0][1]):
                out += (sep if i else []) + pieces(x, leaf)
            return out
    raise Unknown(repr(v)[:80])


def shown(v, namep, fields):
    """the displayed name as a term"""
    base = ("param", namep)

    def leaf(x):
        if x[0] == "sub" and x[1] == base and x[2][0] == "const" and x[2][1].lstrip("-").isdigit():
            return ("x", int(x[2][1]))
        if x[0] == "attr" and x[1] == ("param", "self") and x[2] in fields:
            return V
        return None
    ps = pieces(v, leaf)
    return parse(ps)


def parse(ps):
    """pieces -> term, for infix and prefix displays"""
    flat = []
    for x in ps:
        if isinstance(x, str) and flat and isinstance(flat[-1], str):
            flat[-1] += x
        else:
            flat.append(x)
    if len(flat) == 3 and isinstance(flat[1], str) and not isinstance(flat[0], str) and not isinstance(flat[2], str):
        return (SYMBOL.get(flat[1].strip(), flat[1].strip()), flat[0], flat[2])
    s = [x.strip() if isinstance(x, str) else x for x in flat]
    if len(s) == 5 and s[2] == "," and s[4] == ")" and isinstance(s[0], str) and s[0].endswith("("):
        return (s[0][:-1].title(), s[1], s[3])
    if len(s) == 3 and s[2] == ")" and s[0] == "-(":
        return ("USub", s[1])
    if len(s) == 3 and s[2] == ")" and isinstance(s[0], str) and s[0].endswith("("):
        return (s[0][:-1].title(), s[1])
    if len(s) == 2 and s[0] == "-":
        return ("USub", s[1])
    if len(s) == 4 and s[1] == ".isin(":
        return ("IsIn", s[0], s[2])
    raise Unknown("display")


def described(text_pieces):
    """a description template as a term"""
    k, out, vals = 0, "", {}
    for x in text_pieces:
        if isinstance(x, str):
            out += x
        else:
            vals["<V>"] = V
            out += "<V>"
    names = {}
    while "{}" in out:
        out = out.replace("{}", "<%d>" % k, 1)
        names["<%d>" % k] = ("x", k)
        k += 1
    out = re.sub(r"\{(\d)\}", lambda m: "<%s>" % m.group(1), out)
    for i in range(3):
        names.setdefault("<%d>" % i, ("x", i))
    names["<V>"] = V
    for rx, op in PHRASES:
        m = re.match(rx, out.strip())
        if m and all(g in names for g in m.groups()):
            return (op,) + tuple(names[g] for g in m.groups())
    return None


def by_name(p):
    out = {}
    from ..prims import primitives
    for c in primitives(p):
        n = c.attrs.get("name") if hasattr(c, "attrs") else None
        v = attr_value(c, "name")
        if isinstance(v, str):
            out[v] = c
    return out


def attr_value(c, name):
    from ..prims import attr_ast
    a = attr_ast(c, name)
    return a.value if isinstance(a, ast.Constant) else None


def check(ctx):
    p = ctx.p
    prims = by_name(p)
    found = {}
    for n, want in sorted(SPEC.items()):
        c = prims.get(n)
        if c is None:
            continue
        ctx.unit(c)
        fields = init_fields(p, c)
        ts = function_terms(p, c, fields)
        f = c.find_method("get_function")
        loc = f.loc if f is not None else c.loc
        if ts is None:
            ctx.stats.setdefault("function not recognised", []).append(n)
        else:
            wrong = [t for t in ts if norm(t) != norm(want)]
            ctx.ob("computes", n, not wrong, loc, "the function computes %s, the primitive is %s" % (show(wrong[0]) if wrong else "", show(want)))
            found[c.name] = norm(ts[0])
        g = c.find_method("generate_name")
        if g is not None and g.cls.name not in ("PrimitiveBase", "TransformPrimitive"):
            args = [a.arg for a in g.node.args.args]
            disp = None
            try:
                for k, st, v in Paths(p, Value(), budget=20000).run(g.module, g.node, g):
                    if k == "return":
                        disp = shown(clean(v), args[1], fields)
                        want2 = ("Mult", X0, X1) if n == "multiply_boolean" else want
                        okd = exact(disp, want2)
                        ctx.ob("displays", n, okd, g.loc, "the name shows %s, the primitive is %s" % (show(disp), show(want2)))
            except Unknown:
                ctx.stats.setdefault("name not recognised", []).append(n)
        for d, l in descriptions(p, c, fields):
            want2 = ("Mult", X0, X1) if n == "multiply_boolean" else want
            ctx.ob("displays", n + " description", exact(d, want2), l, "the description says %s, the primitive is %s" % (show(d), show(want2)))
        ctx.stats["primitives"] = ctx.stats.get("primitives", 0) + 1
    commutes(ctx, p)
    overloads(ctx, p, prims)
    operands(ctx, p)


def exact(d, want):
    return d == want or norm(d) == norm(want) and d[0] in SYMMETRIC and sorted(map(repr, d[1:])) == sorted(map(repr, want[1:]))


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "x":
        return ("first input", "second input", "third input", "fourth input")[min(t[1], 3)] if t[1] >= 0 else "last input"
    if t == V:
        return "value"
    if t[0] == "c":
        return str(t[1])
    if len(t) == 1:
        return str(t[0])
    return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))


def descriptions(p, c, fields):
    from ..prims import attr_ast
    out = []
    a = attr_ast(c, "description_template")
    f = c.methods.get("__init__") if hasattr(c, "methods") else None
    f = f or c.find_method("__init__")
    vals = []
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        vals.append((("const", repr(a.value)), "%s:%d" % (c.module.rel, a.lineno) if hasattr(c.module, "rel") else c.loc))
    if f is not None and f.cls is c:
        for k, st, v in Paths(p, Value(), budget=20000).run(f.module, f.node, f):
            for e in st.trace:
                if e[0] == "setattr" and e[2] == "description_template":
                    vals.append((clean(e[3]), f.loc))
    for v, l in vals:
        def leaf(x):
            if x[0] == "param" and x[1] in fields.values() or x[0] == "attr" and x[1] == ("param", "self") and x[2] in fields:
                return V
            return None
        try:
            d = described(pieces(v, leaf))
        except Unknown:
            d = None
        if d is not None:
            out.append((d, l))
    return out


# ---- symmetry ------------------------------------------------------------------------
ODD = ("sin", "tan", "arcsin", "arctan", "sinh", "radians", "degrees")
EVEN = ("cos", "cosh", "abs", "absolute", "fabs", "square")


def signed(v):
    """(sign, normal form) of an arithmetic value, with differences and odd functions freed of their sign"""
    if v[0] == "op" and v[1] == "Sub":
        s, (a, b) = 1, (sf(v[2]), sf(v[3]))
        return (1, ("Sub", a, b)) if repr(a) <= repr(b) else (-1, ("Sub", b, a))
    if v[0] == "op" and v[1] in ("Mult", "Div"):
        (s1, a), (s2, b) = signed(v[2]), signed(v[3])
        args = sorted([a, b], key=repr) if v[1] == "Mult" else [a, b]
        return s1 * s2, (v[1],) + tuple(args)
    if v[0] == "op" and v[1] == "USub":
        s, a = signed(v[2])
        return -s, a
    if v[0] == "op" and v[1] == "Pow" and v[3][0] == "const" and v[3][1].isdigit():
        s, a = signed(v[2])
        return (1 if int(v[3][1]) % 2 == 0 else s), ("Pow", a, v[3])
    if v[0] == "op" and v[1] == "Add":
        return 1, ("Add",) + tuple(sorted([sf(v[2]), sf(v[3])], key=repr))
    if v[0] == "call" and v[1] in ODD and len(v[3]) == 1:
        s, a = signed(v[3][0])
        return s, (v[1], a)
    if v[0] == "call" and v[1] in EVEN and len(v[3]) == 1:
        s, a = signed(v[3][0])
        return 1, (v[1], a)
    if v[0] == "cmp" and len(v[1]) == 1 and v[1][0] in ("Eq", "NotEq"):
        return 1, (v[1],) + tuple(sorted([sf(x) for x in v[2]], key=repr))
    if v[0] == "call" and v[1] in UFUNC and UFUNC[v[1]] in SYMMETRIC:
        ops = list(v[3]) if v[2] is None or v[2][0] == "name" else [v[2]] + list(v[3])
        return 1, (UFUNC[v[1]],) + tuple(sorted([sf(x) for x in ops], key=repr))
    if isinstance(v, tuple):
        return 1, tuple(sf(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(sf(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x) for x in v)
    return 1, v


def sf(v):
    s, t = signed(v)
    return t if s > 0 else ("USub", t)


def swap(v):
    if v == ("param", "#0"):
        return ("param", "#1")
    if v == ("param", "#1"):
        return ("param", "#0")
    if isinstance(v, tuple):
        return tuple(swap(x) for x in v)
    return v


def commutes(ctx, p):
    from ..prims import primitives, attr_ast
    for c in primitives(p):
        a = attr_ast(c, "commutative")
        init = c.find_method("__init__")
        choice = init is not None and init.cls is c and any(x.arg == "commutative" for x in init.node.args.args)
        if choice:
            d = init.node.args.defaults[-1] if init.node.args.defaults else None
            names = [x.arg for x in init.node.args.args]
            i = names.index("commutative") - (len(names) - len(init.node.args.defaults))
            d = init.node.args.defaults[i] if 0 <= i < len(init.node.args.defaults) else None
            doc = ast.get_docstring(c.node) or ""
            m = re.search(r"commutative \(bool\).*?[Dd]efaults? (?:to|is) (True|False)", doc, re.S)
            if m and isinstance(d, ast.Constant):
                ctx.ob("commutes", c.name + " default", str(d.value) == m.group(1), init.loc, "the documented default of commutative is %s" % m.group(1))
            continue
        if not (isinstance(a, ast.Constant) and a.value is True):
            continue
        f = c.find_method("get_function")
        if f is None:
            continue
        ps = Paths(p, Value(), budget=120000)
        res = []
        bad = None
        try:
            for k, st, v in ps.run(f.module, f.node, f):
                if k != "return":
                    continue
                if v[0] == "attr" and v[1][0] == "name":
                    op = UFUNC.get(v[2])
                    if op is not None:
                        res.append(op in SYMMETRIC)
                    continue
                if v[0] != "closure":
                    continue
                node, m, g = ps.closures[v[1]]
                outs = ps.enter(node, m, g, None, [("param", "#%d" % i) for i in range(len(node.args.args))], (), st, dict(st.env))
                try:
                    ts = [term(clean(w), {("param", "#%d" % i): i for i in range(4)}, {}) for kind, n, w in outs if kind in ("next", "return")]
                    res.append(all(t[0] in SYMMETRIC for t in ts))
                    continue
                except Unknown:
                    pass
                # values are compared over all paths: exchanging the inputs may exchange paths
                vals = {repr(sf(clean(w))) for kind, n, w in outs if kind in ("next", "return")}
                mir = {repr(sf(clean(swap(w)))) for kind, n, w in outs if kind in ("next", "return")}
                res.append(vals == mir)
        except TooBig:
            pass
        if res:
            ctx.ob("commutes", c.name, all(res), f.loc, "declared to treat its inputs as interchangeable, but exchanging them changes the result")


# ---- overloads -----------------------------------------------------------------------
S, O = ("self",), ("other",)
DUNDER = {"__eq__": ("Eq", S, O), "__ne__": ("NotEq", S, O), "__gt__": ("Gt", S, O), "__ge__": ("GtE", S, O), "__lt__": ("Lt", S, O), "__le__": ("LtE", S, O),
          "__add__": ("Add", S, O), "__radd__": ("Add", O, S), "__sub__": ("Sub", S, O), "__rsub__": ("Sub", O, S), "__div__": ("Div", S, O), "__truediv__": ("Div", S, O),
          "__rtruediv__": ("Div", O, S), "__rdiv__": ("Div", O, S), "__mul__": ("Mult", S, O), "__rmul__": ("Mult", O, S), "__mod__": ("Mod", S, O), "__rmod__": ("Mod", O, S),
          "__and__": ("And", S, O), "__rand__": ("And", O, S), "__or__": ("Or", S, O), "__ror__": ("Or", O, S), "__abs__": ("Abs", S), "__neg__": ("USub", S),
          "AND": ("And", S, O), "OR": ("Or", S, O), "NOT": ("Not", S), "__invert__": ("Not", S), "is_null": ("IsNull", S), "isin": ("IsIn", S, O), "__not__": ("Not", S)}


def overloads(ctx, p, prims):
    fb = p.cls("FeatureBase")
    ctx.need(fb is not None, "FeatureBase")
    classes = {c.name: (n, c) for n, c in prims.items()}
    for d, want in sorted(DUNDER.items()):
        f = fb.find_method(d)
        if f is None:
            continue
        ctx.unit(f)
        params = [a.arg for a in f.node.args.args][1:]
        other = ("param", params[0]) if params else None
        n, bad = 0, None
        try:
            outs = Paths(p, Value(), budget=60000).run(f.module, f.node, f)
        except TooBig:
            outs = []
        for k, st, v in outs:
            if k == "raise":
                continue
            v = clean(v)
            conds = {clean(c): b for c, b in st.conds.items()}
            t = built(v, other, conds, classes, p)
            if t is None:
                ctx.stats.setdefault("overload path not recognised", []).append(d)
                continue
            n += 1
            t = norm(t)
            w = norm(want)
            if t == w:
                continue
            if want[0] == "Mult" and t == norm(("And",) + want[1:]) and booleans(conds, other):
                continue
            bad = t
        if n:
            ctx.ob("overload", d, bad is None, f.loc, "builds %s, the operator is %s" % (show(bad) if bad else "", show(want)))


def booleans(conds, other):
    got = set()
    for c, b in conds.items():
        if b and has(c, lambda z: z[0] in ("name", "attr") and "Boolean" in z):
            for who in (("param", "self"), other):
                if has(c, lambda z: z == ("attr", who, "variable_type")):
                    got.add(who)
    return len(got) == 2


def built(v, other, conds, classes, p):
    """the term over self and other that a Feature(...) call denotes"""
    if v[0] != "call" or v[1] != "Feature":
        return None
    kw = dict(v[4])
    base = v[3][0] if v[3] else kw.get("base", kw.get("base_features"))
    prim = kw.get("primitive")
    if prim is None and len(v[3]) > 1:
        prim = v[3][1]
    if base is None or prim is None:
        return None
    if base[0] in ("param",):
        base = ("list", (base,))
    if base[0] not in ("list", "tuple"):
        return None
    who = []
    for x in base[1]:
        if x == ("param", "self"):
            who.append(S)
        elif other is not None and x == other:
            who.append(O)
        else:
            return None
    val = None
    if prim[0] == "call":
        name = prim[1]
        args = list(prim[3]) + [y for k, y in prim[4]]
        if len(args) == 1 and args[0] == other:
            val = O
        elif args:
            return None
    elif prim[0] in ("attr", "name"):
        name = prim[-1]
    else:
        return None
    if name not in classes:
        return None
    n, c = classes[name]
    if n not in SPEC:
        return None
    spec = SPEC[n]
    feature = None
    for cc, b in conds.items():
        if cc[0] == "isinst" and cc[1] == other and has(cc[2], lambda z: "FeatureBase" in z):
            feature = b
    if other is not None:
        # a feature as the scalar, or a plain value as the second column
        if O in who and feature is False:
            return ("column of a value",) + spec[1:]
        if val == O and feature is True:
            return ("value of a feature",) + spec[1:]

    def sub(t):
        if t[0] == "x":
            return who[t[1]] if t[1] < len(who) else ("missing",)
        if t == V:
            return val if val is not None else ("default",)
        return (t[0],) + tuple(sub(x) for x in t[1:])
    if sum(1 for x in flat(spec) if x[0] == "x") != len(who):
        return ("wrong number of inputs",)
    return sub(spec)


def flat(t):
    return [t] if t[0] in ("x", "V") else [y for x in t[1:] for y in flat(x)]


# ---- operand order in the calculation ------------------------------------------------
def operands(ctx, p):
    """the inputs reach the function in the order of the feature's base features"""
    calc = p.cls("FeatureSetCalculator")
    if calc is None:
        return
    mod = calc.module
    for f in p.functions:
        if f.module is not mod:
            continue
        funcs = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "get_function":
                funcs |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in funcs or isinstance(x.func, ast.Call) and isinstance(x.func.func, ast.Attribute) and x.func.func.attr == "get_function")):
                continue
            stars = [a for a in x.args if isinstance(a, ast.Starred)]
            if not stars:
                continue
            names, todo, exprs = set(), [s.value for s in stars], []
            while todo:
                e = todo.pop()
                exprs.append(e)
                for y in ast.walk(e):
                    if isinstance(y, ast.Name) and y.id not in names:
                        names.add(y.id)
                        for z in ast.walk(f.node):
                            if isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == y.id for t in z.targets) and y.id not in funcs:
                                todo.append(z.value)
            whole = any(isinstance(y, ast.Attribute) and y.attr == "base_features" for e in exprs for y in ast.walk(e))
            if not whole:
                continue
            bad = None
            for e in exprs:
                for y in ast.walk(e):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("reversed", "sorted", "set", "frozenset"):
                        if any(isinstance(z, ast.Attribute) and z.attr == "base_features" or isinstance(z, ast.Name) for z in ast.walk(y)) and about_inputs(y, f):
                            bad = y
                    if isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Slice) and y.slice.step is not None:
                        bad = y
                    if isinstance(y, ast.SetComp):
                        bad = y
            ctx.ob("operands", "%s inputs" % f.qual, bad is None, "%s:%d" % (f.loc.rsplit(":", 1)[0], (bad or x).lineno), "the inputs do not reach the function in the order of the feature's base features")


def about_inputs(call, f):
    a = call.args[0] if call.args else None
    if a is None:
        return False
    if any(isinstance(z, ast.Attribute) and z.attr == "base_features" for z in ast.walk(a)):
        return True
    if isinstance(a, ast.Name):
        for z in ast.walk(f.node):
            if isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in z.targets):
                if any(isinstance(y, ast.Attribute) and y.attr == "base_features" for y in ast.walk(z.value)):
                    return True
    return False
