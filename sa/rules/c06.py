"""The writer's description of an entity set is composed symbolically with the reader: the reader is evaluated on the very
structure the writer builds, so every value the reader uses is traced back to the attribute of the saved entity set it
was written from.  R1 each constructor argument / attribute / relationship end of the rebuilt set comes from the same
attribute of the saved one, unconditionally.  R2 every written key is read.  R3 the data of each format is written
whole and read by the matching reader from the written place with every written option.  R4 every argument of a
variable type is kept, written and restored.  R5 reading does not change the description it reads.  R6 relationships
are restored before last time indexes are computed."""
import ast
import re
from ..effects import Effects
from ..flow import Engine, mk, alts, is_const, cval, NONE, const, contains, T, show, identity, phi, ite
from ..util import *  # noqa

TECHNIQUE = "symbolic composition of writer and reader (value-flow analysis), effect analysis for repeatability"
LEVEL_NOTE = "Values inside the data files (dtype corner cases) are out of reach and declined as C42; the option and route structure is decided."
MIN_INSTANCES = {"restored": 12, "key-read": 15, "type-argument": 8, "option": 6, "repeatable": 2}

TYPES = {"entityset": "EntitySet", "entity": "Entity", "variable": "Variable", "relationship": "Relationship"}


def rewrite(t, fn, memo=None):
    memo = {} if memo is None else memo
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x in memo:
            continue
        if not done:
            st.append((x, True))
            for y in kids_all(x):
                if y not in memo:
                    st.append((y, False))
        else:
            memo[x] = fn(mk(x.k, *tuple(sub(a, memo) for a in x.a)))
    return memo[t]


def kids_all(x):
    out, st = [], list(x.a)
    while st:
        a = st.pop()
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, (tuple, frozenset)):
            st += list(a)
    return out


def sub(a, memo):
    if isinstance(a, T):
        return memo.get(a, a)
    if isinstance(a, tuple):
        return tuple(sub(y, memo) for y in a)
    if isinstance(a, frozenset):
        return frozenset(sub(y, memo) for y in a)
    return a


MISSING = object()


def look(b, k):
    """value under key k of a dictionary-like term, MISSING when the term does not tell"""
    if b.k == "dict":
        for kk, vv in reversed(b.a[1]):
            if kk is k:
                return vv
            if not is_const(kk):
                return MISSING
        return MISSING
    if b.k == "call" and b.a[0] == "dict" and len(b.a[1]) <= 1:
        for n, v in b.a[2]:
            if is_const(k) and n == cval(k):
                return v
        return look(b.a[1][0], k) if b.a[1] else MISSING
    if b.k == "call" and b.a[0] in ("copy.copy", "copy.deepcopy") and b.a[1]:
        return look(b.a[1][0], k)
    if b.k == "mcall" and b.a[1] == "copy":
        return look(b.a[0], k)
    if b.k == "upd":
        if b.a[0] == "setitem":
            if b.a[2][0] is k:
                return b.a[2][1]
            if not (is_const(b.a[2][0]) and is_const(k)):
                return MISSING
        elif b.a[0] in ("pop", "delitem"):
            if b.a[2] and b.a[2][0] is k:
                return MISSING
        elif b.a[0] == "update":
            v = look(b.a[2][0], k) if b.a[2] else MISSING
            if v is not MISSING:
                return v
        return look(b.a[1], k)
    if b.k == "comp" and b.a[0] == "dict" and b.a[1].k == "tuple" and not is_const(k):
        return b.a[1].a[1][1]
    if b.k == "tuple" and is_const(k) and isinstance(cval(k), int) and -len(b.a[1]) <= cval(k) < len(b.a[1]):
        return b.a[1][cval(k)]
    if b.k in ("ite",):
        x, y = look(b.a[1], k), look(b.a[2], k)
        if x is not MISSING and y is not MISSING:
            return x if x is y else ite(b.a[0], x, y)
        return MISSING
    if b.k == "phi":
        vs = [look(x, k) for x in b.a[0]]
        vs = [v for v in vs if v is not MISSING]
        return phi(vs) if vs else MISSING
    return MISSING


def step(x):
    if x.k == "item":
        v = look(x.a[0], x.a[1])
        return x if v is MISSING else v
    if x.k == "mcall" and x.a[1] in ("get", "pop", "__getitem__") and x.a[2]:
        v = look(x.a[0], x.a[2][0])
        return x if v is MISSING else v
    if x.k == "call" and x.a[0] == "isinstance" and len(x.a[1]) == 2 and x.a[1][0].k in ("dict", "comp", "list"):
        c = x.a[1][1]
        nm = c.a[0] if c.k in ("glob", "cls") else None
        nm = nm if isinstance(nm, str) else None
        if nm in ("str", "builtins.str"):
            return const(False)
    if x.k == "ite" and is_const(x.a[0]):
        return x.a[1] if cval(x.a[0]) else x.a[2]
    if x.k in ("valof", "keyof"):
        b, i = x.a[0], 1 if x.k == "valof" else 0
        while (b.k == "call" and b.a[0] in ("dict", "copy.copy", "copy.deepcopy") and b.a[1]) or (b.k == "mcall" and b.a[1] == "copy"):
            b = b.a[1][0] if b.k == "call" else b.a[0]
        if b.k == "comp" and b.a[0] == "dict" and b.a[1].k == "tuple":
            return b.a[1].a[1][i]
        return x
    if x.k == "elem":
        b = x.a[0]
        while b.k == "call" and b.a[0] in ("sorted", "list", "tuple", "iter", "reversed") and b.a[1]:
            b = b.a[1][0]
        if b.k == "comp":
            if b.a[0] != "dict":
                return b.a[1]
            return b.a[1].a[1][0] if b.a[1].k == "tuple" else x
        if b.k == "mcall" and b.a[1] == "values":
            return step(mk("valof", b.a[0]))
        if b.k == "mcall" and b.a[1] == "items":
            return mk("tuple", None, (step(mk("keyof", b.a[0])), step(mk("valof", b.a[0]))))
        if b is not x.a[0]:
            return step(mk("elem", b))
    return x


def path(t):
    """'entities[].index' for an attribute reached from the saved entity set; None otherwise"""
    out = []
    while True:
        if t.k == "attr":
            out.append(t.a[1].lstrip("_"))
            t = t.a[0]
        elif t.k in ("elem", "valof"):
            b = t.a[0]
            if b.k == "attr" and b.a[1] == "entity_dict":
                out.append("entities[]")
                t = b.a[0]
            elif b.k == "attr":
                out.append(b.a[1].lstrip("_") + "[]")
                t = b.a[0]
            else:
                return None
        elif t.k == "param" or (t.k == "inst" and t.a[1:] == ("self",)):
            out.append("")
            break
        else:
            return None
    return ".".join(reversed(out)).lstrip(".")


def jsonless(t):
    """the stored series behind a JSON text (written with to_json, read with read_json)"""
    if t.k == "call" and t.a[0].endswith("read_json") and t.a[1]:
        x = t.a[1][0]
        if x.k == "mcall" and x.a[1] == "to_json":
            return x.a[0]
        return None
    return t


def loader_modules(f):
    return f.module.name.endswith(".deserialize") or f.name == "from_dictionary"


def check(ctx):
    p = ctx.p
    w = p.resolve_dotted("featuretools.entityset.serialize.entityset_to_description")
    l = p.resolve_dotted("featuretools.entityset.deserialize.description_to_entityset")
    es = p.cls("EntitySet")
    if not w or w[0] != "func":
        w = ("func", es.methods["to_dictionary"])
    ctx.need(l and l[0] == "func", "the reader of descriptions was not found")
    w, l = w[1], l[1]
    ew = Engine(p, inline=lambda g: g.module.name.endswith(".serialize") or g.name in ("to_data_description", "to_dictionary") or g.parent is not None,
                inline_properties=False, types=TYPES, budget=200000)
    desc = ew.run(w)
    desc = strip_check(desc)
    er = Engine(p, inline=lambda g: loader_modules(g) or (g.parent is not None and loader_modules(g)) or g.cls is None and g.module.name.endswith(".deserialize"),
                inline_properties=False, types={"entityset": "EntitySet"}, budget=300000)
    er.run(l, args={"description": desc})
    for e in (ew, er):
        for ev in e.events:
            ctx.unit(ev.func)
    memo = {}

    def N(t):
        return rewrite(t, step, memo)

    def src(t):
        return path(t) if isinstance(t, T) else None

    def guards_ok(ev, allowed):
        """conditions under which the part is restored may only depend on the part itself"""
        for c, pol in ev.guards:
            for a, pl in lits(N(c), pol):
                if is_const(a) and bool(cval(a)) == pl or a.k == "inloop":
                    continue
                ps = {path(x) for x in walk(a) if path(x)}
                if not all(any(q == z or z.startswith(q) for z in allowed) for q in ps):
                    return "restored only when %s%s" % ("" if pl else "not ", show(a)[:80])
        return None

    # ---- R1: destinations
    def dest(rule, construct, ev, term, expected, allowed=()):
        t = N(term)
        got = {src(x) for x in alts(t)} - {None}
        ok = got == {expected}
        g = guards_ok(ev, set(allowed) | {expected})
        ctx.ob(rule, construct, ok and not g, ev.loc,
               g or "%s is rebuilt from %s instead of the saved %s" % (construct, sorted(got) or show(t)[:60], expected))

    news = [ev for ev in er.evs("new") if ev.cls is es or getattr(ev, "cls", None) is es]
    ctx.need(news, "the reader builds no EntitySet")
    for ev in news:
        dest("restored", "EntitySet id", ev, ev.bound.get("id", NONE), "id")
    made = [ev for ev in er.evs("call") if ev.d.get("bound") and any(c.name == "entity_from_dataframe" for c in ev.d.get("callee") or [])]
    ctx.need(made, "the reader adds no entities")
    for ev in made:
        b = ev.bound
        for prm, attr in (("entity_id", "id"), ("index", "index"), ("time_index", "time_index"), ("secondary_time_index", "secondary_time_index")):
            dest("restored", "entity " + attr, ev, b.get(prm, NONE), "entities[]." + attr, ["entities[]"])
        vt = N(b.get("variable_types", NONE))
        pairs = [(x.a[1].a[1][0], x.a[1].a[1][1], x) for x in alts(vt) if x.k == "comp" and x.a[0] == "dict" and x.a[1].k == "tuple"]
        got = {(src(k), src(first(v))) for k, v, x in pairs}
        filt = any(conds_of(x) for k, v, x in pairs)
        ctx.ob("restored", "variable types", got == {("entities[].variables[].id", "entities[].variables[].type_string")} and not filt, ev.loc,
               "variable types are rebuilt from %s%s" % (sorted(map(str, got)), " for some variables only" if filt else ""))
        ctx.ob("restored", "already sorted default", True, ev.loc)
    V = "entities[].variables[]."
    for attr, key in (("name", "name"), ("description", "description"), ("interesting_values", "interesting_values")):
        evs = [ev for ev in er.evs("setattr") if ev.attr.lstrip("_") == attr]
        ok, why, loc = False, "never restored", l.loc
        for ev in evs:
            v = jsonless(N(ev.value))
            if v is None or src(v) != V + key:
                why, loc = "restored from %s" % (src(v) if v is not None else show(N(ev.value))[:80]), ev.loc
                continue
            g = guards_ok(ev, {V + key, V + "name", "entities[]", "entities[].variables[]"})
            if g:
                why, loc = g, ev.loc
                continue
            rv = N(ev.recv)
            ok, loc = True, ev.loc
        ctx.ob("restored", "variable " + attr, ok, loc, "a variable's %s: %s" % (attr, why))
    # relationships
    rel = p.cls("Relationship")
    evs = [ev for ev in er.evs("new") if ev.cls is rel]
    addrel = [ev for ev in er.evs("call") if any(c.name in ("add_relationship", "add_relationships") for c in ev.d.get("callee") or [])]
    ctx.need(evs and addrel, "the reader adds no relationships")
    for ev in evs:
        for side in ("parent", "child"):
            t = N(ev.bound.get("%s_variable" % side, NONE))
            got = []
            while t.k == "item":
                got.append(src(t.a[1]))
                t = t.a[0]
            want = ["relationships[].%s_variable_id" % side, "relationships[].%s_entity_id" % side]
            ctx.ob("restored", "relationship %s" % side, got == want and not guards_ok(ev, set()), ev.loc,
                   "the %s end of a relationship is rebuilt from %s" % (side, got))
    for ev in addrel:
        g = guards_ok(ev, {"relationships"})
        ctx.ob("restored", "relationships added", not g, ev.loc, g or "")
    lti = [ev for ev in er.evs("call") if any(c.name == "add_last_time_indexes" for c in ev.d.get("callee") or [])]
    ok, why, loc = False, "last time indexes are not recomputed", l.loc
    for ev in lti:
        t = ev.bound.get("updated_entities", NONE)
        n = N(t)
        if t is NONE:
            ok = True
        else:
            got = {src(x) for x in walk(n) if src(x)}
            why = "last time indexes are recomputed for %s" % sorted(got)
            ok = {"entities[].id"} <= got
            apps = [a for a in er.evs("call") if a.d.get("name") in ("append", "add") and a.args and src(N(a.args[0])) == "entities[].id"]
            for a in apps:
                ls = [x for c, pol in a.guards for x in lits(N(c), pol)]
                for c, pol in ls:
                    lt = [path(x) for x in walk(c) if path(x)]
                    if "entities[].last_time_index" not in lt:
                        if lt and c.k != "inloop" and not (is_const(c)):
                            ok, why = False, "last time indexes are recomputed only when %s" % show(c)[:60]
                        continue
                    if not says_present(c, pol):
                        ok, why = False, "last time indexes are recomputed for entities that had none"
        loc = ev.loc
        late = [a for a in addrel if er.events.index(a) > er.events.index(ev)]
        ctx.ob("order", "relationships before last time indexes", not late, ev.loc, "last time indexes are computed before the relationships they follow exist")
    ctx.ob("restored", "last time indexes", ok, loc, why)
    # ---- R4 type arguments
    restorers = [ev for ev in er.events if generic_args(N, ev)]
    var = p.cls("Variable")
    base = {"id", "entity", "name", "description", "self"}
    for c in [var] + sorted(p.subclasses("Variable"), key=lambda c: c.name):
        init = c.find_method("__init__")
        if init is None:
            continue
        a = [x for x in init.all_params()[1:] if x not in base]
        if not a:
            continue
        ei = Engine(p, inline=lambda g: g.name == "__init__", inline_properties=False, max_depth=6)
        ei.run(init, self_term=mk("inst", c.name, "self"))
        ed = Engine(p, inline=lambda g: g.name == "to_data_description", inline_properties=False, max_depth=6)
        tdd = c.find_method("to_data_description")
        d = ed.run(tdd, self_term=mk("inst", c.name, "self"))
        ty = look(d, const("type"))
        ctx.unit(init, tdd)
        for x in a:
            st = [ev for ev in ei.evs("setattr") if ev.attr == x]
            keep = [ev for ev in st if contains(ev.value, lambda z: z.k == "param" and z.a[0] == x)]
            ctx.ob("type-argument", "%s(%s) kept" % (c.name, x), bool(keep), (st[0].loc if st else init.loc),
                   "the argument %s of %s is not stored" % (x, c.name))
            v = keyvalue(ed, d, x)
            ok = v is not None and contains(v, lambda z: z.k == "attr" and z.a[1] == x)
            ctx.ob("type-argument", "%s(%s) written" % (c.name, x), ok, tdd.loc, "the argument %s of %s is not written to the description%s" % (
                x, c.name, "" if v is None else " (%s is)" % show(v)[:60]))
            ctx.ob("type-argument", "%s(%s) restored" % (c.name, x), any(reaches(N, ev, x) for ev in restorers), l.loc, "type arguments of variables are not restored when loading")
    # ---- R2 every written key is read
    eo = Engine(p, inline=lambda g: loader_modules(g), inline_properties=False, types={"entityset": "EntitySet"}, budget=300000)
    readk = keys_read(p, l)
    for kp in sorted(written(desc)):
        k = kp[-1]
        if k == "entity" and "variables" in kp:
            continue           # names the entity it is nested in
        ctx.ob("key-read", ".".join(kp), k in readk, l.loc, "the key %r is written but never read" % k)
    for x in walk(desc):
        if x.k == "comp":
            ctx.ob("written", "every element of %s" % show(x.a[2][0].a[0])[:40], not conds_of(x) and full(x.a[2][0].a[0]), w.loc,
                   "only some elements are written to the description")
    for ev in ew.evs("call"):
        if ev.d.get("name") in ("append", "add", "extend") and ev.d.get("recv") is not None and identity(ev.recv).k in ("list", "set"):
            g = [a for c, pol in ev.guards for a, pl in lits(c, pol) if a.k != "inloop"]
            ctx.ob("written", "every element %s" % ev.func.name, not g, ev.loc, "an element is left out of the description when %s" % (g and show(g[0])[:80]))
    for m in es.methods.values():
        if not m.name.startswith("to_"):
            continue
        em = Engine(p, inline=lambda g: g.parent is not None or (g.cls is not None and g.cls.name == "EntitySet" and g.name.startswith("_")), inline_properties=False)
        em.run(m)
        for ev in em.evs("call"):
            if any(c.name == "write_data_description" for c in ev.d.get("callee") or []):
                ctx.unit(m)
                have = [v for _, v in ev.kws] + list(ev.args)
                for q in m.all_params()[1:]:
                    ctx.ob("option", "%s(%s) written" % (m.name, q), any(has_param(v, q) for v in have), ev.loc, "%s ignores its %s option" % (m.qual, q))
    # ---- R3 data
    check_data(ctx, p, E=None)
    # ---- R5 repeatability
    E = Effects(p)
    for f in E.funcs:
        if not f.module.name.endswith(".deserialize") or f.parent is not None:
            continue
        for q in f.all_params():
            if q != "description":
                continue
            bad = [(k, v) for k, v in E.mut[f.node].items() if k[0] == q]
            ctx.ob("repeatable", f.qual, not bad, f.loc, bad and "loading changes the description: %s at %s" % (bad[0][1][1], bad[0][1][0]))


def strip_check(t):
    return t


def first(v):
    """class or (class, arguments)"""
    if v.k == "tuple" and v.a[1]:
        return v.a[1][0]
    if v.k == "ite":
        x, y = first(v.a[1]), first(v.a[2])
        return x if x is y else v
    return v


def full(src):
    """iterating the source visits every element"""
    while src.k == "call" and src.a[0] in ("sorted", "list", "tuple", "iter", "reversed") and src.a[1]:
        src = src.a[1][0]
    return src.k in ("attr", "param") or (src.k == "mcall" and src.a[1] in ("values", "items", "keys"))


def conds_of(x):
    return any(c for g in x.a[2] for c in (g.a[1] or ()))


def says_present(c, pol):
    """the literal says the last time index exists"""
    if c.k == "cmp" and c.a[2] is NONE:
        return (c.a[0] in ("is not", "!=")) == pol
    return pol


def keyvalue(e, d, key):
    """value written under the key anywhere in the description (dict literals, update calls, stores)"""
    for ev in e.events:
        pass
    out = None
    for t in [d] + [x for ev in e.events for x in list(ev.d.get("args") or ()) + [ev.d.get("value"), ev.d.get("recv")] if isinstance(x, T)]:
        for x in walk(t):
            if x.k == "dict":
                for k, v in x.a[1]:
                    if k is const(key):
                        out = v
            elif x.k == "upd" and x.a[0] == "setitem" and x.a[2][0] is const(key):
                out = x.a[2][1]
    for ev in e.evs("setitem"):
        if ev.key is const(key):
            out = ev.value
    return out


def reaches(N, ev, x):
    """the tests on the argument's name let x through"""
    if ev.d.get("name") != "setattr":
        return True
    key = N(ev.args[0 + 1])
    if is_const(key):
        return cval(key) == x
    for g, pol in ev.guards:
        if g.k == "un" and g.a[0] == "not":
            g, pol = g.a[1], not pol
        if g.k != "cmp" or g.a[0] not in ("==", "!=", "in", "not in"):
            continue
        a, b = N(g.a[1]), N(g.a[2])
        if g.a[0] in ("==", "!=") and a is not key and b is key:
            a, b = b, a
        if a is not key:
            continue
        names = [y for y in (b.a[1] if b.k in ("tuple", "list", "set") else [b]) if is_const(y)]
        if not names or len(names) != len(b.a[1] if b.k in ("tuple", "list", "set") else [b]):
            continue
        eq = x in [cval(y) for y in names]
        if (eq == (g.a[0] in ("==", "in"))) != pol:
            return False
    return True


def generic_args(N, ev):
    """all remaining items of the type description are put on the variable or passed to its constructor"""
    if ev.kind != "call":
        return False
    if any(c.name == "entity_from_dataframe" for c in ev.d.get("callee") or []) and ev.d.get("bound"):
        for x in alts(N(ev.bound.get("variable_types", NONE))):
            if x.k == "comp" and x.a[1].k == "tuple":
                for v in alts(x.a[1].a[1][1]):
                    if v.k == "tuple" and len(v.a[1]) == 2 and v.a[1][1] not in (NONE,) and not (v.a[1][1].k == "dict" and not v.a[1][1].a[1]):
                        return True
    if ev.d.get("name") == "setattr" and len(ev.args) == 3:
        k, v = N(ev.args[1]), N(ev.args[2])
        if k.k in ("keyof", "const") or k.k == "phi":
            return True
        return not is_const(k)
    return False


def written(t, pre=(), out=None, seen=None):
    out = set() if out is None else out
    for x in alts(t):
        if x.k == "upd":
            written(x.a[1], pre, out)
            if x.a[0] == "setitem" and is_const(x.a[2][0]) and isinstance(cval(x.a[2][0]), str):
                out.add(pre + (cval(x.a[2][0]),))
                written(x.a[2][1], pre + (cval(x.a[2][0]),), out)
            if x.a[0] == "update" and x.a[2]:
                written(x.a[2][0], pre, out)
        elif x.k == "dict":
            for k, v in x.a[1]:
                if is_const(k) and isinstance(cval(k), str):
                    out.add(pre + (cval(k),))
                    written(v, pre + (cval(k),), out)
        elif x.k == "comp":
            e = x.a[1]
            written(e.a[1][1] if x.a[0] == "dict" and e.k == "tuple" else e, pre, out)
    return out


def keys_read(p, l):
    """string keys looked up anywhere in the code the reader reaches"""
    out, todo, seen = set(), [l], set()
    mods = {l.module.name}
    fs = [f for f in p.all_functions() if f.module is l.module or f.name in ("from_dictionary", "check_schema_version")]
    for f in fs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant):
                out.add(n.slice.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "__getitem__") and n.args and isinstance(n.args[0], ast.Constant):
                out.add(n.args[0].value)
    return out


# ---------------------------------------------------------------- data files
def fmt_guard(ev, formats):
    """the formats for which an event runs (from comparisons of a variable with format names)"""
    can = set(formats)
    for c, pol in ev.guards:
        for a, pl in lits(c, pol):
            if a.k == "cmp":
                op, x, y = a.a[:3]
                if is_const(x) and not is_const(y):
                    x, y = y, x
                if op in ("==", "!=") and is_const(y) and cval(y) in formats:
                    eq = (op == "==") == pl
                    can &= {cval(y)} if eq else (set(formats) - {cval(y)})
                elif op in ("in", "not in") and y.k in ("list", "tuple", "set") and all(is_const(z) for z in y.a[1]):
                    vs = {cval(z) for z in y.a[1]}
                    if vs <= set(formats):
                        can &= vs if (op == "in") == pl else set(formats) - vs
    return can


def all_options(v):
    """the recorded options themselves, not a dictionary made up on the way"""
    from ..effects import bases
    for b in bases(v):
        while b.k == "call" and b.a[0] in ("dict", "copy.copy", "copy.deepcopy") and b.a[1]:
            b = identity(b.a[1][0])
        b = identity(b)
        if b.k == "param" or (b.k == "item" and b.a[1] is const("params")) or (b.k == "mcall" and b.a[1] == "get" and b.a[2] and b.a[2][0] is const("params")):
            continue
        if b.k in ("item", "mcall") and contains(b, lambda z: z is const("params")):
            continue
        return False
    return True


def kwkeys(ev):
    """option -> key of the options dictionary it is taken from; '**' when everything is passed on"""
    out = {}
    for n, v in ev.kws:
        if n == "**":
            if all_options(v):
                out["**"] = v
            continue
        for x in alts(v):
            if x.k == "item" and is_const(x.a[1]):
                out[n] = cval(x.a[1])
            elif x.k == "mcall" and x.a[1] in ("get", "pop") and x.a[2] and is_const(x.a[2][0]):
                out[n] = cval(x.a[2][0])
            else:
                ks = [cval(y.a[1]) for y in walk(x) if y.k == "item" and is_const(y.a[1]) and isinstance(cval(y.a[1]), str)]
                if n in ks:
                    out[n] = n
    return out


def check_data(ctx, p, E):
    ser = p.modules.get("featuretools.entityset.serialize")
    formats = ["csv", "pickle", "parquet"]
    fw = p.resolve_dotted("featuretools.entityset.serialize.dump_data_description")
    fr = p.resolve_dotted("featuretools.entityset.deserialize.read_entityset")
    fww = p.resolve_dotted("featuretools.entityset.serialize.write_data_description")
    ctx.need(fww and fr, "save or load entry point not found")
    ew = Engine(p, inline=lambda g: g.module.name.endswith(".serialize"), inline_properties=False, types=TYPES, budget=300000)
    ew.run(fww[1])
    er = Engine(p, inline=lambda g: g.module.name.endswith(".deserialize"), inline_properties=False, types={"entityset": "EntitySet"}, budget=300000)
    er.run(fr[1])
    wr, rd = {}, {}
    for ev in ew.evs("call"):
        if ev.d.get("name") in ("to_csv", "to_parquet", "to_pickle") and ev.d.get("recv") is not None:
            wr.setdefault(ev.name[3:], []).append(ev)
    for ev in er.evs("call"):
        nm = (ev.d.get("name") or "").split(".")[-1]
        if nm in ("read_csv", "read_parquet", "read_pickle"):
            rd.setdefault(nm[5:], []).append(ev)
    jd = [ev for ev in ew.evs("call") if (ev.d.get("name") or "") == "json.dump"]
    ctx.ob("written", "description file", bool(jd), fww[1].loc, "the description is never written")
    for fm in formats:
        ctx.ob("format", "%s written" % fm, bool(wr.get(fm)), fww[1].loc, "no writer for format %s" % fm)
        ctx.ob("format", "%s read" % fm, bool(rd.get(fm)), fr[1].loc, "no reader for format %s" % fm)
        for ev in wr.get(fm, []):
            ctx.ob("format", "%s writer selected" % fm, fmt_guard(ev, formats) == {fm}, ev.loc, "%s is called for %s" % (ev.name, sorted(fmt_guard(ev, formats))))
            base, chain = frame_chain(ev.recv)
            ok = base is not None and all(c in ("copy", "setitem") for c in chain)
            ctx.ob("whole-data", fm, ok, ev.loc, "the data written is not the entity's whole dataframe (%s)" % (chain or show(ev.recv)[:80]))
            if fm != "csv":
                # text read back from csv makes "nan" missing again; other formats give back what was stored
                bare = bare_text(ev.recv, fm)
                ctx.ob("whole-data", "%s missing values" % fm, not bare, ev.loc, "missing values become the text 'nan' in the file")
            file = ev.args[0] if ev.args else dict(ev.kws).get("path_or_buf") or dict(ev.kws).get("path")
            ok = file is not None and contains(file, lambda z: z.k == "attr" and z.a[1] == "id")
            ctx.ob("location", "%s file per entity" % fm, ok, ev.loc, "the file name does not contain the entity's id")
        for ev in rd.get(fm, []):
            ctx.ob("format", "%s reader selected" % fm, fmt_guard(ev, formats) == {fm}, ev.loc, "%s is called for %s" % (ev.name, sorted(fmt_guard(ev, formats))))
            file = ev.args[0] if ev.args else None
            ok = file is not None and contains(file, lambda z: z.k == "item" and z.a[1] is const("location") or z.k == "mcall" and z.a[1] == "get" and z.a[2][:1] == (const("location"),))
            ctx.ob("location", "%s read from" % fm, ok, ev.loc, "the data is not read from the recorded location")
        # options that change how the bytes are written
        for we in wr.get(fm, []):
            wk = kwkeys(we)
            for re_ in rd.get(fm, []):
                rk = kwkeys(re_)
                if "**" in wk and "**" in rk:
                    ctx.ob("option", "%s: all options" % fm, True, re_.loc)
                for o in ("sep", "encoding", "compression", "delimiter"):
                    if o in wk:
                        ok = "**" in rk or rk.get(o) == wk[o] or (o == "sep" and rk.get("delimiter") == wk[o])
                        ctx.ob("option", "%s: %s" % (fm, o), ok, re_.loc, "%s files are written with the %s option but read without it" % (fm, o))
                if fm == "parquet":
                    ok = "**" in rk or rk.get("engine") == "engine"
                    ctx.ob("option", "parquet: engine", ok, re_.loc, "the engine is not passed to the reader")
                if fm == "csv":
                    idx = dict(we.kws).get("index")
                    ctx.ob("option", "csv: index", idx is not None, we.loc, "the index column would be read back as data")
                if fm == "pickle" and "**" in wk:
                    ctx.ob("option", "pickle: compression", "**" in rk or "compression" in rk, re_.loc, "pickle options are dropped when reading")
    # location recorded == location written
    ups = [ev for ev in ew.evs("call") if ev.d.get("name") == "update" and ev.d.get("recv") is not None and contains(ev.recv, lambda z: z.k == "item" and z.a[1] is const("loading_info") or is_const(z) and cval(z) == "loading_info")]
    ups += [ev for ev in ew.evs("setitem") if contains(ev.recv, lambda z: is_const(z) and cval(z) == "loading_info")]
    ctx.ob("location", "recorded in the description", bool(ups), fww[1].loc, "where and how the data was written is not recorded")
    for ev in ups:
        if ev.kind != "call":
            continue
        info = ev.args[0] if ev.args else None
        for x in alts(info) if info is not None else []:
            loc = look(x, const("location"))
            par = look(x, const("params"))
            typ = look(x, const("type"))
            ok = loc is not MISSING and all(any(contains(w.args[0], lambda z, q=loc: z is q) for w in ws if w.args) for ws in wr.values())
            ctx.ob("location", "recorded path is the written one", ok, ev.loc, "the recorded location differs from the file written")
            ok = typ is not MISSING and any(c.k == "cmp" and c.a[1] is typ or c.k == "cmp" and c.a[2] is typ for ws in wr.values() for w in ws for g, pol in w.guards for c, _ in lits(g, pol))
            ctx.ob("location", "recorded format is the one used", ok, ev.loc, "the recorded format is not the one that selected the writer")
            ok = par is not MISSING and not is_const(par) and not (par.k == "dict" and not par.a[1])
            ctx.ob("option", "recorded", ok, ev.loc, "the options the data was written with are not recorded")
        if jd:
            ctx.ob("order", "description written after the data", any(ew.events.index(ev) < ew.events.index(j) and j.stack[:-1] == ev.stack[:len(j.stack) - 1] for j in jd) and
                   all(any(ew.events.index(u) < ew.events.index(j) for u in ups) for j in jd), ev.loc,
                   "the description is written before the location of the data is known")
        fg = [x for c, pol in ev.guards for x in lits(c, pol) if contains(x[0], lambda z: z.k == "elem")]
        ctx.ob("whole-data", "every entity", not fg, ev.loc, "data is recorded for some entities only")
    # dtypes applied
    ast_ = [ev for ev in er.evs("call") if ev.d.get("name") == "astype" and ev.args and contains(ev.recv, is_read) and contains(ev.args[0], lambda z: is_const(z) and cval(z) == "dtypes")]
    ctx.ob("restored", "column dtypes", any(not fmt_restrict(ev, formats) for ev in ast_), fr[1].loc, "the recorded dtypes are not applied to every format")
    # LatLong tuples become text in text formats
    ll = [ev for ev in er.events if ev.kind == "setitem" and ev.func.module.name.endswith(".deserialize") and
          contains(ev.value, lambda z: z.k in ("mcall", "cbcall") and z.a[1] == "apply")]
    need = {"csv", "parquet"}
    for ev in ll:
        got = fmt_guard(ev, formats)
        ctx.ob("restored", "LatLong values", need <= got, ev.loc, "coordinates are parsed only for %s" % sorted(got))
    ctx.ob("restored", "LatLong columns", bool(ll), fr[1].loc, "coordinates written as text are never parsed back")
    # archive holds both parts
    tars = [ev for ev in ew.evs("call") if ev.d.get("name") == "add" and ev.d.get("recv") is not None and
            contains(ev.recv, lambda z: z.k == "call" and str(z.a[0]).endswith("tarfile.open"))]
    if tars:
        text = [s for ev in tars for a in list(ev.args) + [v for _, v in ev.kws] for x in walk(a) if is_const(x) and isinstance(cval(x), str) for s in [cval(x)]]
        for part in ("data_description.json", "data"):
            ok = any(part == s.strip("/") or s.endswith("/" + part) for s in text)
            ctx.ob("archive", part, ok, tars[0].loc, "%s is not put into the archive" % part)


def is_read(z):
    return (z.k == "call" and str(z.a[0]).split(".")[-1].startswith("read_")) or (z.k in ("mcall", "cbcall") and str(z.a[1]).startswith("read_"))


def fmt_restrict(ev, formats):
    return fmt_guard(ev, formats) != set(formats)


def bare_text(t, fm):
    """is a column turned into text without keeping its missing values apart?"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            m = re.search(r"== '(\w+)'\)?$", show(x.a[0]))
            if m:
                st.append(x.a[1] if m.group(1) == fm else x.a[2])
                continue
        if x.k == "mcall" and x.a[1] in ("mask", "where", "apply", "map", "applymap", "combine_first"):
            continue
        if x.k == "mcall" and x.a[1] == "astype" and any(re.search(r"\b(str|unicode|string)\b", show(y)) for y in x.a[2]):
            return True
        st += list(kids_all(x))
    return False


def frame_chain(t):
    """operations between an entity's stored dataframe and the term"""
    chain, base = [], None
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "upd":
            chain.append(x.a[0])
            st.append(x.a[1])
        elif x.k == "mcall":
            chain.append(x.a[1])
            st.append(x.a[0])
        elif x.k == "ite":
            st += [x.a[1], x.a[2]]
        elif x.k == "phi":
            st += list(x.a[0])
        elif x.k == "attr" and x.a[1] == "df":
            base = x
        elif x.k == "item":
            chain.append("selection")
            st.append(x.a[0])
        else:
            chain.append(x.k)
    return base, chain
