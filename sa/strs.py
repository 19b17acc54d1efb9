"""What a string-valued term carries: the leaves that reach the string through operations that keep them recognisable.

carry(t) -> [(Conds, leaves)]: one entry per way the string is built; leaves is a frozenset of terms.  A collection joined
into the string contributes ("each", collection, leaf-of-element).  Anything cut, filtered, sorted, deduplicated or passed
to an unknown function contributes nothing."""
import re
from .flow import mk, walk, contains, is_const, cval, NONE
from .norm import canon, rewrite, strip_copy
from .util import Conds

STR_CALLS = {"str", "repr", "format", "unicode"}
CASE = {"upper", "lower", "title", "capitalize", "strip", "rstrip", "lstrip", "casefold"}
FMT = re.compile(r"%(?:\((\w+)\))?[#0\- +]*[\d*]*(?:\.[\d*]+)?([a-zA-Z%])")


class Ways(Exception):
    pass


def normal(t):
    return rewrite(t, canon)


def tail(t, n=1):
    """the string certainly ends with at least n literal characters"""
    if is_const(t) and isinstance(cval(t), str):
        return len(cval(t)) >= n or cval(t) == ""
    if t.k == "bin" and t.a[0] == "+":
        return tail(t.a[2], n)
    if t.k == "fmt" and is_const(t.a[0]):
        return not str(cval(t.a[0]))[-n:].count("}")
    if t.k == "bin" and t.a[0] == "%" and is_const(t.a[1]):
        return not re.search(r"%[a-z]", str(cval(t.a[1]))[-n - 1:])
    if t.k == "fstr" and t.a[0]:
        return tail(t.a[0][-1], n)
    if t.k == "phi":
        return all(tail(x, n) for x in t.a[0])
    if t.k == "ite":
        return all(tail(x, n) for x in t.a[1:3])
    return False


def _prod(ways_list, conds):
    out = [(conds, frozenset())]
    for f in ways_list:
        nxt = []
        for c, s in out:
            for c2, s2 in f(c):
                nxt.append((c2, s | s2))
        out = nxt
        if len(out) > 600:
            raise Ways()
    return out


def seq_items(t):
    """('lit', items) | ('each', collection, element, conds) | None, for something joined or formatted over"""
    t = strip_copy(t)
    if t.k in ("list", "tuple"):
        return ("lit", t.a[1])
    if t.k == "comp" and t.a[0] in ("list", "gen") and len(t.a[2]) == 1:
        g = t.a[2][0]
        return ("each", strip_copy(g.a[0]), t.a[1], g.a[1])
    if t.k == "call" and t.a[0] == "map" and len(t.a[1]) == 2:
        f, x = t.a[1]
        if f.k == "glob" and f.a[0].split(".")[-1] in STR_CALLS or f.k == "cls" and f.a[0] == "str":
            r = seq_items(x)
            return r
        return None
    if t.k in ("param", "attr", "elem", "item", "keyof", "valof", "mcall", "pcall", "call", "ite", "phi"):
        if t.k == "call" and t.a[0] in ("sorted", "set", "frozenset", "reversed", "filter", "dict.fromkeys"):
            return None
        return ("each", t, mk("elem", t), ())
    return None


def carry(t, conds=None, leaf=None):
    """leaf(t): True to stop at t and take it as a leaf"""
    return _carry(normal(t), conds or Conds(), leaf or (lambda x: False))


def _carry(t, conds, leaf):
    if leaf(t):
        return [(conds, frozenset([t]))]
    if is_const(t):
        return [(conds, frozenset())]
    k = t.k
    if k == "ite":
        out = []
        v = conds.value(t.a[0])
        for pol, br in ((True, t.a[1]), (False, t.a[2])):
            if v is not None and v != pol:
                continue
            c2 = conds.add(t.a[0], pol)
            if c2 is not None:
                out += _carry(br, c2, leaf)
        return out
    if k == "phi":
        # a string grown in a loop: everything any round adds
        looped = any(contains(x, lambda z: z.k in ("elem", "keyof", "valof", "phi")) for x in t.a[0])
        subs = [_carry(x, conds, leaf) for x in t.a[0]]
        if looped:
            grown = [s for s in subs]
            best = max(grown, key=lambda ws: min([len(s) for _, s in ws] or [0]))
            return best
        return [w for s in subs for w in s]
    if k == "fstr":
        return _prod([lambda c, x=x: _carry(x, c, leaf) for x in t.a[0]], conds)
    if k == "bin" and t.a[0] == "+":
        return _prod([lambda c, x=x: _carry(x, c, leaf) for x in t.a[1:3]], conds)
    if k == "bin" and t.a[0] == "%" and is_const(t.a[1]):
        fmt = str(cval(t.a[1]))
        specs = [m for m in FMT.finditer(fmt) if m.group(2) != "%"]
        items = t.a[2].a[1] if t.a[2].k == "tuple" else None
        if items is None and t.a[2].k == "dict":
            d = {cval(a): b for a, b in t.a[2].a[1] if is_const(a)}
            items = [d[m.group(1)] for m in specs if m.group(1) in d]
        if items is None:
            items = [t.a[2]]
        keep = [x for m, x in zip(specs, items) if m.group(2) in "sra" and "." not in m.group(0) or
                m.group(2) in "di" and x.k in ("elem", "item", "keyof") and contains(x, lambda z: z.k == "call" and z.a[0] in ("range", "enumerate"))]
        return _prod([lambda c, x=x: _carry(x, c, leaf) for x in keep], conds)
    if k == "fmt" and is_const(t.a[0]):
        fmt = str(cval(t.a[0]))
        pos, kws = list(t.a[1]), dict(t.a[2])
        used, auto = [], 0
        for m in re.finditer(r"\{([^{}]*)\}", fmt.replace("{{", "").replace("}}", "")):
            spec = m.group(1)
            key, _, f = spec.partition(":")
            key = key.partition("!")[0]
            if "." in f:
                continue
            if key == "":
                key, auto = str(auto), auto + 1
            m2 = re.match(r"^(\w+)((?:\.\w+|\[\w+\])*)$", key)
            if not m2:
                continue
            base = m2.group(1)
            x = (pos[int(base)] if int(base) < len(pos) else None) if base.isdigit() else kws.get(base)
            if x is None:
                continue
            for part in re.findall(r"\.(\w+)|\[(\w+)\]", m2.group(2)):
                x = mk("attr", x, part[0]) if part[0] else mk("item", x, mk("const", int(part[1]) if part[1].isdigit() else part[1]))
            used.append(x)
        return _prod([lambda c, x=x: _carry(x, c, leaf) for x in used], conds)
    if k == "call" and t.a[0] in STR_CALLS and len(t.a[1]) >= 1:
        return _carry(t.a[1][0], conds, leaf)
    if k == "mcall" and t.a[1] == "join" and len(t.a[2]) == 1:
        s = seq_items(t.a[2][0])
        if s is None:
            return [(conds, frozenset())]
        if s[0] == "lit":
            return _prod([lambda c, x=x: _carry(x, c, leaf) for x in s[1]], conds)
        _, coll, elt, cs = s
        if cs:
            return [(conds, frozenset())]
        out = []
        for c, lv in _carry(elt, conds, leaf):
            out.append((c, frozenset(mk("each", coll, x) for x in lv)))
        return out
    if k == "mcall" and t.a[1] in CASE and not t.a[2]:
        b = t.a[0]
        if t.a[1].endswith("strip") or b.k == "attr" and b.a[1] == "name":
            return _carry(b, conds, leaf)
        return [(conds, frozenset())]
    if k == "mcall" and t.a[1] == "format" and t.a[0].k != "const":
        return [(conds, frozenset())]
    if k == "item" and t.a[1].k == "slice":
        lo, hi, st = t.a[1].a
        n = cval(hi) if is_const(hi) else None
        if lo is NONE and st is NONE and isinstance(n, int) and n < 0 and tail(t.a[0], -n):
            return _carry(t.a[0], conds, leaf)
        if lo is NONE and hi is NONE:
            return _carry(t.a[0], conds, leaf)
        return [(conds, frozenset())]
    if k == "call" and t.a[0] in ("sorted", "set", "hash", "id", "len", "abs", "type", "bool"):
        return [(conds, frozenset())]
    return [(conds, frozenset([t]))]


def shape(t, hole):
    """set of literal texts with holes; hole(t) -> label or None; None when some part is not understood"""
    out = _shape(normal(t), Conds(), hole)
    return None if out is None else {s for _, s in out}


def _shape(t, conds, hole):
    h = hole(t)
    if h is not None:
        return [(conds, h)]
    if is_const(t):
        return [(conds, str(cval(t)))]
    k = t.k
    if k == "ite":
        out = []
        v = conds.value(t.a[0])
        for pol, br in ((True, t.a[1]), (False, t.a[2])):
            if v is not None and v != pol:
                continue
            c2 = conds.add(t.a[0], pol)
            if c2 is not None:
                s = _shape(br, c2, hole)
                if s is None:
                    return None
                out += s
        return out
    if k == "phi":
        out = []
        for x in t.a[0]:
            s = _shape(x, conds, hole)
            if s is None:
                return None
            out += s
        return out

    def seq(parts):
        out = [(conds, "")]
        for x in parts:
            nxt = []
            for c, s in out:
                if isinstance(x, str):
                    nxt.append((c, s + x))
                    continue
                r = _shape(x, c, hole)
                if r is None:
                    return None
                nxt += [(c2, s + s2) for c2, s2 in r]
            out = nxt
        return out
    if k == "fstr":
        return seq(list(t.a[0]))
    if k == "bin" and t.a[0] == "+":
        return seq(list(t.a[1:3]))
    if k == "bin" and t.a[0] == "%" and is_const(t.a[1]):
        fmt = str(cval(t.a[1]))
        items = list(t.a[2].a[1]) if t.a[2].k == "tuple" else [t.a[2]]
        parts, last, i = [], 0, 0
        for m in FMT.finditer(fmt):
            parts.append(fmt[last:m.start()])
            last = m.end()
            if m.group(2) == "%":
                parts.append("%")
            elif i < len(items):
                parts.append(items[i])
                i += 1
        parts.append(fmt[last:])
        return seq(parts)
    if k == "fmt" and is_const(t.a[0]):
        fmt = str(cval(t.a[0]))
        pos, kws = list(t.a[1]), dict(t.a[2])
        parts, last, auto = [], 0, 0
        for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}", fmt):
            parts.append(fmt[last:m.start()])
            last = m.end()
            if m.group(1) is None:
                parts.append(m.group(0)[0])
                continue
            key = m.group(1).partition(":")[0].partition("!")[0]
            if key == "":
                key, auto = str(auto), auto + 1
            x = (pos[int(key)] if int(key) < len(pos) else None) if key.isdigit() else kws.get(key)
            if x is None:
                return None
            parts.append(x)
        parts.append(fmt[last:])
        return seq(parts)
    if k == "call" and t.a[0] in STR_CALLS and t.a[1]:
        return _shape(t.a[1][0], conds, hole)
    if k == "mcall" and t.a[1] == "join" and is_const(t.a[0]) and len(t.a[2]) == 1:
        s = seq_items(t.a[2][0])
        if s and s[0] == "lit":
            parts = []
            for i, x in enumerate(s[1]):
                if i:
                    parts.append(str(cval(t.a[0])))
                parts.append(x)
            return seq(parts)
        return None
    if k == "mcall" and t.a[1] in ("upper", "lower") and not t.a[2]:
        r = _shape(t.a[0], conds, hole)
        return None if r is None else [(c, getattr(s, t.a[1])()) for c, s in r]
    return None
