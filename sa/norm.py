"""Canonical forms: loop-built containers look like comprehensions; element-wise identity copies collapse."""
from .flow import *  # noqa
from .flow import mk, const, walk, contains, alts, identity, show, NONE, is_const, cval, negate, phi, ite
from .rules.c06 import rewrite, step, look, MISSING, kids_all, sub  # noqa

EMPTY = {"list": "list", "dict": "dict", "set": "set", "collections.OrderedDict": "dict", "OrderedDict": "dict"}
WRAP = ("list", "tuple", "iter", "copy.copy", "sorted", "reversed", "set", "frozenset")


def is_empty(t):
    if t.k in ("list", "dict", "set") and not t.a[1]:
        return t.k
    if t.k == "call" and t.a[0] in EMPTY and not t.a[2] and (not t.a[1] or len(t.a[1]) == 1 and is_empty(t.a[1][0])):
        return EMPTY[t.a[0]]
    return None


def outer(t):
    """sub-terms outside the changes made to containers"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st += [x.a[1]] if x.k == "upd" else [y for y in kids_all(x)]


def loop_build(t):
    """comprehension equivalent to a container filled in a loop, or None"""
    adds, base = {}, []
    st, seen = [(t, frozenset())], set()
    while st:
        x, cs = st.pop()
        if (x, cs) in seen:
            continue
        seen.add((x, cs))
        if x.k == "phi":
            st += [(y, cs) for y in x.a[0]]
        elif x.k == "ite":
            st.append((x.a[1], cs | {x.a[0]}))
            st.append((x.a[2], cs | {negate(x.a[0])}))
        elif x.k == "upd" and x.a[0] in ("append", "add", "setitem"):
            adds.setdefault((x.a[0], x.a[2]), set()).add(cs)
            st.append((x.a[1], frozenset()))
        elif x.k == "comp" and x.a[3] is None and len(x.a[2]) == 1:
            if x.a[0] == "dict":
                key = ("setitem", x.a[1].a[1])
            else:
                key = ("append", (x.a[1],)) if x.a[0] == "list" else ("add", (x.a[1],))
            adds.setdefault(key, set()).add(frozenset(x.a[2][0].a[1]) | cs)
            base.append(x.a[0])
        elif is_empty(x):
            base.append(is_empty(x))
        else:
            return None
    if len(adds) != 1 or len(set(base)) != 1:
        return None
    (m, args), css = list(adds.items())[0]
    cs = frozenset.intersection(*[frozenset(c) for c in css])
    if m == "setitem":
        elt, kind = mk("tuple", None, (args[0], args[1])), "dict"
    else:
        elt, kind = args[0], base[0]
    srcs = [x.a[0] for x in outer(elt) if x.k in ("elem", "keyof", "valof")] or [x.a[0] for x in walk(elt) if x.k in ("elem", "keyof", "valof")]
    srcs = [s for s in srcs if not any(s is not o and contains(o, lambda z, s=s: z is s) for o in srcs)] or srcs
    if len(set(srcs)) != 1:
        return None
    return mk("comp", kind, elt, (mk("g", srcs[0], tuple(sorted(cs, key=repr))),), None)


def strip_copy(t, kinds=("list", "tuple", "iter", "copy.copy")):
    while True:
        if t.k == "call" and t.a[0] in kinds and len(t.a[1]) == 1 and (not t.a[2] or t.a[0] == "sorted"):
            t = t.a[1][0]
        elif t.k == "mcall" and t.a[1] == "copy" and not t.a[2]:
            t = t.a[0]
        elif t.k == "item" and t.a[1].k == "slice" and all(x is NONE for x in t.a[1].a):
            t = t.a[0]
        else:
            return t


def canon(x):
    """one bottom-up rewriting step"""
    if x.k == "phi":
        c = loop_build(x)
        if c is not None:
            x = c
    if x.k == "comp" and x.a[0] in ("list", "gen", "set") and len(x.a[2]) == 1 and not x.a[2][0].a[1]:
        s = strip_copy(x.a[2][0].a[0])
        while s.k == "comp" and len(s.a[2]) == 1 and not s.a[2][0].a[1] and s.a[0] in ("list", "gen"):
            s = strip_copy(s.a[2][0].a[0])
        if x.a[1].k == "elem" and x.a[1].a[0] is s:
            return s
        if s is not x.a[2][0].a[0]:
            x = mk("comp", x.a[0], x.a[1], (mk("g", s, ()),), None)
    if x.k == "call" and x.a[0] == "getattr" and len(x.a[1]) in (2, 3) and is_const(x.a[1][1]) and isinstance(cval(x.a[1][1]), str):
        return mk("attr", x.a[1][0], cval(x.a[1][1]))
    if x.k == "elem":
        s = strip_copy(x.a[0])
        if s is not x.a[0]:
            x = mk("elem", s)
    return step(x)
