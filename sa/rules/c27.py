"""Path-sensitive analysis of the code that computes last time indexes, with a small domain of time columns: which rows' times a
column holds (an entity's own, those of the rows linked through a relationship) and what was done to it.  On every path that marks
an entity as done its own times are in, and for each of its child relationships (every relationship counts, also a second one to
the same child) the children's last times are in, taken through that relationship's own column, as the latest of those present
(missing times never win, numbers stay numbers, no row is dropped).  Entities above a changed one are recomputed from scratch, and
every operation that replaces rows ends with that recomputation."""
import ast
from ..paths import Paths, Client, TooBig, NONE, has

TECHNIQUE = "path-sensitive abstract interpretation of the last-time computation over a domain of time columns, and must-call analysis of the operations that replace rows"
LEVEL_NOTE = "pandas, Dask and Koalas grouping, joining and sorting are taken as documented; only the operations of the domain are judged, others keep what their inputs hold."
MIN_INSTANCES = {"latest": 1, "every-child": 1, "refresh": 1}
KEEP = {"copy", "astype", "fillna", "replace", "reindex", "set_index", "reset_index", "rename", "to_frame", "to_datetime", "sort_index", "compute", "to_pandas",
        "squeeze", "infer_objects", "ffill", "persist", "rename_axis", "map_partitions", "where", "mask", "combine_first", "assign"}
MAXES = {"max", "nanmax", "amax", "maximum", "fmax"}
LOSSY = {"min", "nanmin", "minimum", "fmin", "mean", "median", "first", "nsmallest"}
CUTS = {"head", "tail", "sample", "nlargest", "truncate", "query", "iloc"}


def reach(v):
    """relationships a value speaks about"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "elem" and isinstance(x[1], tuple) and has(x[1], lambda y: y[0] == "attr" and y[2] == "relationships"):
                out.add(x)
                return
            for y in x:
                go(y)
    go(v)
    return out


def projections(v):
    """what of a relationship a value holds: 'child_variable', 'child_entity', ..., or 'all'"""
    out = set()

    def go(x, name):
        if isinstance(x, tuple):
            if x in rels:
                out.add(name or "all")
                return
            if len(x) == 3 and x[0] == "attr":
                go(x[1], x[2])
                return
            for y in x:
                go(y, None)
    rels = reach(v)
    go(v, None)
    return {norm(x) for x in out}


def norm(n):
    n = n.strip("_")
    for a in ("child_variable", "parent_variable", "child_entity", "parent_entity"):
        if n.startswith(a):
            return a
    return n


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


class Lti(Client):
    inline = True
    max_depth = 5

    def __init__(self, fi):
        self.fi = fi
        self.lossy = []

    def traced(self, name):
        return name in ("append", "add", "extend", "update", "add_last_time_indexes", "update_data", "appendleft", "insert", "pop", "popleft")

    def enter(self, f):
        return f.name not in ("get_forward_entities", "get_backward_entities", "is_instance", "reset_data_description", "col_is_datetime", "add_last_time_indexes")

    def known(self, v, st):
        return None

    def attribute(self, paths, e, base, st):
        if e.attr == "last_time_index":
            return [(st, st.env.get(("@lti", base), ("attr", base, "last_time_index")))]
        return None

    def store(self, paths, t, base, v, st):
        if isinstance(t, ast.Attribute) and t.attr == "last_time_index":
            st = st.ev("lti", base, v, paths.loc(t), tuple(st.conds.items()))
            return [st.bind(("@lti", base), v)]
        if isinstance(t, ast.Attribute) and t.attr in ("name", "index", "columns", "names"):
            return [st]
        return None

    def setitem(self, paths, t, base, key, v, st):
        n = root_name(t)
        loc = "%s:%d" % (paths.module.rel, t.lineno)
        keys = [key]
        b = base
        while isinstance(b, tuple) and b and b[0] == "sub":
            keys.append(b[2])
            b = b[1]
        if reach(v) and any(reach(k) for k in keys):
            pv = projections(v)
            pk = {x for k in keys for x in projections(k)}
            need = pv & {"child_variable", "parent_variable", "all"}
            if need and "all" not in pk and not (need <= pk and ("child_entity" in pk or "child_entity" not in pv)):
                self.lossy.append(loc)
            if n and isinstance(t.value, (ast.Name, ast.Subscript, ast.Call)) and n in st.env:
                return [st.bind(n, ("grouped", st.env[n], key, v))]
            return None
        if isinstance(t.value, ast.Name) and n in st.env and not isinstance(key, ast.AST):
            return [st.bind(n, ("put", base, key, v))]
        return None

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        kd = dict(ks)
        if kd.get("inplace") == ("const", "True") and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            v = ("call", name, recv, vs, tuple(k for k in ks if k[0] != "inplace"), paths.loc(e))
            return [("next", st.bind(e.func.value.id, v), NONE)]
        if name in ("append", "add") and len(vs) == 1 and reach(vs[0]) and isinstance(e.func, ast.Attribute):
            n = root_name(e.func.value)
            if n and n in st.env and not isinstance(e.func.value, ast.Name):
                key = recv[2] if recv and recv[0] == "sub" else (recv[3][0] if recv and recv[0] == "call" and recv[3] else ("const", "'?'"))
                return [("next", st.bind(n, ("grouped", st.env[n], key, vs[0])), NONE)]
        if name == "add_last_time_indexes":
            return [("next", st.ev("recompute", vs[0] if vs else kd.get("updated_entities", NONE), tuple(st.conds.items())), NONE)]
        return None

    def elements(self, v, st):
        out = []
        b = v
        if isinstance(b, tuple) and b[0] == "call" and b[1] in ("values", "items", "get", "list", "sorted", "reversed", "pop") and (b[2] is not None or b[3]):
            b = b[2] if b[2] is not None else b[3][0]
        if isinstance(b, tuple) and b and b[0] == "sub":
            b = b[1]
        while isinstance(b, tuple) and b and b[0] == "grouped":
            out.append(("tuple", (b[2], b[3])) if v[0] == "call" and v[1] == "items" else b[3])
            b = b[1]
        if out:
            return tuple(out)
        if v and v[0] in ("list", "comp", "tuple") and v[1] and all(isinstance(x, tuple) for x in v[1]) and reach(v) and projections(v):
            return v[1]
        if v and v[0] in ("list",) and not v[1] and reach(tuple(st.conds)):
            return None
        if v and v[0] == "attr" and v[2] == "relationships":
            return (("elem", v),)
        return None

    def keep(self, st):
        return st


# ---- the columns ---------------------------------------------------------------------
class Col(object):
    __slots__ = ("has", "bad")

    def __init__(self, has=frozenset(), bad=frozenset()):
        self.has, self.bad = has, bad


class Frame(object):
    __slots__ = ("cols", "bad", "order", "link")

    def __init__(self, cols, bad=frozenset(), order=None):
        self.cols, self.bad, self.order = cols, bad, order      # name value -> frozenset of contents

    @property
    def all(self):
        return frozenset().union(*self.cols.values()) if self.cols else frozenset()


def entity_data(v):
    """X when v is the table of entity X"""
    return v[1] if isinstance(v, tuple) and v and v[0] == "attr" and v[2] in ("df", "dataframe", "_df") else None


class Domain(object):
    """what a value holds"""

    def __init__(self, conds):
        self.conds = conds
        self.numeric_known = any(has(c, lambda y: y[0] == "attr" and y[2] in ("time_type", "dtype", "dtypes") or y[0] == "name" and y[1] in ("NumericTimeIndex", "DatetimeTimeIndex")
                                     or y[0] == "call" and "datetime" in str(y[1])) for c, b in conds)
        self.memo = {}

    def of(self, v):
        if not isinstance(v, tuple) or not v:
            return Col()
        k = v
        if k not in self.memo:
            self.memo[k] = self.go(v)
        return self.memo[k]

    def merge(self, xs):
        c, b = frozenset(), frozenset()
        for x in xs:
            c |= x.all if isinstance(x, Frame) else x.has
            b |= x.bad
        return Col(c, b)

    def go(self, v):
        t = v[0]
        if t == "attr" and v[2] == "last_time_index":
            return Col(frozenset({("last", v[1])}))
        if t == "sub" and entity_data(v[1]) is not None:
            x = entity_data(v[1])
            if v[2] == ("attr", x, "time_index"):
                return Col(frozenset({("own", x)}))
            if v[2] == ("attr", x, "index"):
                return Col(frozenset({("id", x)}))
            if v[2][0] in ("slice",):
                return Col()
            return Col(frozenset({("link", x, v[2])}))
        if t == "sub":
            b = self.of(v[1])
            if isinstance(b, Frame):
                if v[2][0] in ("const", "attr", "name"):
                    return Col(b.cols.get(v[2], b.all), b.bad)
                if v[2][0] in ("list", "tuple"):
                    got = {c: b.cols[c] for c in v[2][1] if c in b.cols}
                    return Frame(got or b.cols, b.bad, b.order)
                if v[2][0] == "cmp":
                    return Frame(b.cols, b.bad | {"rows are left out"}, b.order)
                return Frame(b.cols, b.bad, b.order)
            if v[2][0] == "cmp":
                return Col(b.has, b.bad | ({"rows are left out"} if b.has else set()))
            return b
        if t == "put":
            b, x = self.of(v[1]), self.of(v[3])
            got = x.all if isinstance(x, Frame) else x.has
            if isinstance(b, Frame):
                cols = dict(b.cols)
                cols[v[2]] = got
                return Frame(cols, b.bad | x.bad, b.order)
            if v[2][0] == "slice" and v[3] == NONE:
                return Col()
            return Col(b.has | got, b.bad | x.bad)
        if t == "call":
            return self.call(v)
        if t in ("tuple", "list", "set", "comp"):
            return self.merge([self.of(x) for x in v[1]])
        if t == "dict":
            return Frame({k: self.content(x) for k, x in v[1] if isinstance(k, tuple)}, frozenset().union(*[self.of(x).bad for k, x in v[1]]))
        if t == "op":
            return self.merge([self.of(x) for x in v[2:]])
        if t in ("elem", "star", "rest"):
            return self.of(v[1])
        return Col()

    def content(self, v):
        x = self.of(v)
        return x.all if isinstance(x, Frame) else x.has

    def children(self, x):
        c = x.all if isinstance(x, Frame) else x.has
        return any(a[0] == "last" for a in c)

    def call(self, v):
        name, recv, vs, ks = v[1], v[2], v[3], dict(v[4])
        b = self.of(recv) if recv is not None else Col()
        args = [self.of(x) for x in vs] + [self.of(x) for x in ks.values()]
        if name == "apply" and vs and not isinstance(b, Frame) and all(a[0] in ("id",) for a in b.has):
            return Col()
        if name == "DataFrame":
            src = vs[0] if vs else ks.get("data")
            x = self.of(src) if src is not None else Col()
            return x if isinstance(x, Frame) else Frame({("const", "'?'"): x.has}, x.bad)
        if name == "Series":
            return self.merge(args)
        if name == "to_frame":
            n = ks.get("name", vs[0] if vs else ("const", "'?'"))
            return b if isinstance(b, Frame) else Frame({n: b.has}, b.bad)
        if name in ("join", "merge", "concat", "align") or name == "combine":
            xs = [b] + args
            cols, bad = {}, frozenset()
            for i, x in enumerate(xs):
                bad |= x.bad
                for k, c in (x.cols.items() if isinstance(x, Frame) else [(("col", i), x.has)] if x.has else []):
                    cols[k] = cols.get(k, frozenset()) | c
            how = ks.get("how", vs[1] if name in ("join",) and len(vs) > 2 else ("const", "'left'" if name == "join" else "'inner'" if name == "merge" else "''"))
            join = ks.get("join")
            own = any(a[0] in ("own", "id") for a in self.merge([b]).has) or any(a[0] == "last" for a in self.merge([b]).has)
            if own and (how == ("const", "'inner'") or how == ("const", "'right'") or join == ("const", "'inner'")) and name != "combine":
                bad |= {"rows without a partner are dropped"}
            if name == "combine" and vs and len(vs) > 1 and vs[1][0] == "name" and vs[1][1] in LOSSY:
                bad |= {"the earliest time is taken"}
            return Frame(cols, bad)
        if name == "sort_values":
            by = ks.get("by", vs[0] if vs else NONE)
            asc = ks.get("ascending", ("const", "True"))
            na = ks.get("na_position", ("const", "'last'"))
            first = by[1][0] if by[0] in ("list", "tuple") and by[1] else by
            if asc[0] in ("list", "tuple") and asc[1]:
                asc = asc[1][0]
            if isinstance(b, Frame):
                return Frame(b.cols, b.bad, (first, asc, na))
            return b
        if name in ("drop_duplicates", "duplicated") and isinstance(b, Frame):
            if not self.children(b):
                return b
            keep = ks.get("keep", ("const", "'first'"))
            bad = set(b.bad)
            if b.order is None or not any(a[0] == "last" for a in b.cols.get(b.order[0], ())):
                bad.add("one row per parent is kept without ordering by time")
            else:
                up = b.order[1] == ("const", "True")
                nafirst = b.order[2] == ("const", "'first'")
                if keep == ("const", "'last'" if up else "'first'"):
                    if nafirst != up:
                        bad.add("a missing time is taken for the latest")
                else:
                    bad.add("the earliest time is kept")
            return Frame(b.cols, frozenset(bad), None)
        if name == "groupby":
            return b
        if name in ("agg", "aggregate", "transform", "apply", "reduce"):
            how = vs[0] if vs else ks.get("func", NONE)
            word = how[1].strip("'") if how[0] == "const" else (how[2] if how[0] == "attr" else how[1] if how[0] == "name" else "")
            if how[0] == "dict":
                word = " ".join(x[1].strip("'") for k, x in how[1] if x[0] == "const")
            return self.pick(b, str(word), ks)
        if name in MAXES | LOSSY | {"last", "idxmax", "cummax"}:
            x = self.merge([b] + args) if name in ("nanmax", "amax", "maximum", "fmax", "nanmin", "minimum", "fmin", "max", "min") and (args and not ks.get("axis")) and recv is not None and recv[0] in ("name",) else b
            return self.pick(x, name, ks)
        if name in CUTS:
            x = self.merge([b])
            return Col(x.has, x.bad | ({"rows are left out"} if self.children(x) or any(a[0] == "own" for a in x.has) else set()))
        if name == "dropna":
            return b
        if name in ("to_datetime",) or name == "astype" and any(x[0] == "const" and "datetime" in x[1] for x in list(vs) + list(ks.values())):
            src = b if name == "astype" else self.merge(args)
            if (src.all if isinstance(src, Frame) else src.has) and not self.numeric_known:
                bad = src.bad | {"numeric times are turned into dates"}
                return Frame(src.cols, bad, src.order) if isinstance(src, Frame) else Col(src.has, bad)
            return src
        if name in ("where", "mask") and vs and not isinstance(b, Frame):
            same = has(vs[0], lambda y: y[0] == "call" and y[1] in (("notnull", "notna") if name == "where" else ("isnull", "isna")) and (y[2] == recv or recv in y[3]))
            if same:
                return Col(b.has, b.bad)
            if has(vs[0], lambda y: y[0] == "cmp" and y[1][0] in ("Lt", "LtE", "Gt", "GtE")):
                return self.merge([b] + args[1:])
            return Col(frozenset(), b.bad)
        if name == "combine_first" and not isinstance(b, Frame):
            return Col(b.has, b.bad)
        if name == "fillna":
            c = vs[0] if vs else ks.get("value", NONE)
            y = [int(x) for x in __import__("re").findall(r"\b(\d{4})\b", repr(c))]
            if y and min(y) > 1800:
                return Frame(b.cols, b.bad | {"missing times become a time other rows can be older than"}, b.order) if isinstance(b, Frame) else Col(b.has, b.bad | {"missing times become a time other rows can be older than"})
            return b
        if isinstance(b, Frame):
            bad = b.bad.union(*[x.bad for x in args]) if args else b.bad
            return Frame(b.cols, bad, b.order if name in ("copy", "rename") else None)
        if name in KEEP and b.has:
            return Col(b.has, b.bad)
        return self.merge([b] + args)

    def pick(self, b, word, ks):
        axis = ks.get("axis")
        rowwise = axis in (("const", "1"), ("const", "'columns'"))
        has_ = b.all if isinstance(b, Frame) else b.has
        bad = set(b.bad)
        if any(w in LOSSY for w in word.replace("np.", "").split()):
            bad.add("the earliest time is taken")
        if word == "last" and isinstance(b, Frame) and self.children(b):
            if b.order is None or b.order[1] != ("const", "True"):
                bad.add("one row per parent is kept without ordering by time")
        if ks.get("skipna") == ("const", "False"):
            bad.add("a missing time is taken for the latest")
        if rowwise:
            return Col(has_, frozenset(bad))
        return Frame(b.cols, frozenset(bad)) if isinstance(b, Frame) else Col(has_, frozenset(bad))


def clash(v):
    """a table built with a column of a fixed name next to one named after an entity's index"""
    return has(v, lambda y: y[0] == "dict" and len(y) == 2 and any(k[0] == "const" for k, x in y[1] if k) and any(k[0] == "attr" and k[2] == "index" for k, x in y[1] if k))


# ---- the obligations -----------------------------------------------------------------
def truth(conds, pred):
    for c, b in conds:
        if pred(c):
            return b
    return None


def is_none(c, x):
    return c[0] == "cmp" and c[1] in (("Is",), ("Eq",)) and c[2][1] == NONE and x(c[2][0])


def check(ctx):
    p = ctx.p
    es = p.cls("EntitySet")
    f = es.find_method("add_last_time_indexes")
    ctx.need(f is not None, "EntitySet.add_last_time_indexes is gone")
    ctx.unit(f)
    c = Lti(f)
    try:
        outs = Paths(p, c, 400000).run(f.module, f.node, f)
    except TooBig:
        ctx.need(False, "too many paths")
        return
    ctx.stats["paths"] = len(outs)
    ctx.ob("every-child", "relationships kept", not c.lossy, c.lossy[0] if c.lossy else f.loc,
           "relationships are filed by entity, so a second relationship between the same two entities replaces the first")
    values, own, folds, miss, done, resets, cond_own = {}, False, 0, None, 0, True, False
    for k, st, v in outs:
        events = st.trace
        reset = any(e[0] == "lti" and e[2] == NONE for e in events)
        for i, e in enumerate(events):
            if e[0] != "lti" or e[2] == NONE:
                continue
            d = Domain(e[4])
            x = d.of(e[2])
            h = x.all if isinstance(x, Frame) else x.has
            for b in x.bad:
                values.setdefault(b, e[3])
            if clash(e[2]):
                values.setdefault("a column named after the index can have the name of the column of times", e[3])
            childs = {a[1] for a in h if a[0] == "last" and a[1] != e[1]}
            mine = any(a == ("own", e[1]) or a == ("last", e[1]) for a in h)
            before = [q for q in events[:i] if q[0] == "lti" and q[1] == e[1] and q[2] != NONE]
            timed = truth(e[4], lambda c: is_none(c, lambda y: y == ("attr", e[1], "time_index")))
            empty = truth(e[4], lambda c: c[0] == "attr" and c[2] == "empty") or truth(e[4], lambda c: c[0] == "cmp" and has(c, lambda y: y[0] == "call" and y[1] == "len"))
            if not before and not childs:
                own = own or mine
                if timed is not True and not mine and not empty:
                    values.setdefault("an entity's own times are left out", e[3])
                if truth(e[4], lambda c: is_none(c, lambda y: y == ("attr", e[1], "last_time_index") or y == NONE)) is True or \
                        any(is_none(c, lambda y: y[0] == "attr" and y[2] == "last_time_index" and y[1] == e[1]) for c, b in e[4]):
                    cond_own = True
            if childs:
                folds += 1
                if before and not mine and d.of(before[-1][2]) is not None and (lambda z: (z.all if isinstance(z, Frame) else z.has))(d.of(before[-1][2])):
                    prev = d.of(before[-1][2])
                    ph = prev.all if isinstance(prev, Frame) else prev.has
                    if not ph <= h and ph - h:
                        values.setdefault("what was found before is overwritten by the children's times", e[3])
                elif not before and not mine:
                    values.setdefault("an entity's own times are left out", e[3])
                for a in h:
                    if a[0] == "link":
                        if foreign(a):
                            values.setdefault("children are linked through a column that is not the relationship's own", e[3])
        # entities marked as done on this path
        for i, e in enumerate(events):
            if e[0] == "call" and e[1] == "add" and len(e[3]) == 1:
                x = e[3][0]
                if x[0] == "attr" and x[2] == "id" and x[1][0] == "call" and x[1][1] in ("pop", "popleft") or any(q[0] == "lti" and q[2] != NONE and x == ("attr", q[1], "id") for q in events):
                    done += 1
                    ent = x[1]
                    conds = tuple(st.conds.items())
                    stored = [q for q in events[:i] if q[0] == "lti" and q[1] == ent and q[2] != NONE]
                    got = False
                    for q in stored:
                        y = Domain(q[4]).of(q[2])
                        hh = y.all if isinstance(y, Frame) else y.has
                        got = got or any(a[0] == "last" and a[1] != ent and reach(a[1]) for a in hh)
                    if got and not any(q[0] == "skipped" for q in events):
                        continue
                    if got is False and excused(conds, ent):
                        continue
                    if got is False and not any(q[0] == "skipped" for q in events) and any(q[0] == "lti" and q[1] == ent and empty_frame(q) for q in stored):
                        continue
                    miss = miss or (e, [c for c in conds])
        if cond_own and not reset:
            pass
    ctx.ob("every-child", "each child relationship is taken in", miss is None, miss[0][-1] if miss else f.loc,
           "an entity is finished without the times of one of its child relationships")
    ctx.ob("latest", "EntitySet.add_last_time_indexes", not values, next(iter(values.values()), f.loc), "; ".join(sorted(values)))
    ctx.need(folds and own, "no path takes in own and children's times")
    stale = cond_own and not any(any(e[0] == "lti" and e[2] == NONE for e in st.trace) for k, st, v in outs)
    ctx.ob("refresh", "old values are dropped first", not stale, f.loc, "values computed before are kept")
    ctx.stats["folds"] = folds
    ctx.stats["entities marked done"] = done
    closure(ctx, f, outs)
    order(ctx, f, outs, es)
    refresh(ctx, p, es)


def foreign(a):
    """a child's column that is not its relationship's own child variable"""
    r1, r2 = reach(a[1]), reach(a[2])
    return r1 != r2 or not r2 or "child_variable" not in projections(a[2]) and "all" not in projections(a[2])


def empty_frame(q):
    return any(c[0] == "attr" and c[2] == "empty" and b for c, b in q[4])


def excused(conds, ent):
    """nothing to take in: the entity has no children, or the child has no times"""
    for c, b in conds:
        if c[0] == "cmp" and c[1] == ("In",) and c[2][0] == ("attr", ent, "id") and b is False:
            return True
        if is_none(c, lambda y: y[0] == "attr" and y[2] == "last_time_index" and y[1] != ent and bool(reach(y))) and b:
            return True
        if c[0] == "sub" and has(c, lambda y: y == ("attr", ent, "id")) and b is False:
            return True
        if c[0] == "call" and c[1] in ("get", "len") and has(c, lambda y: y == ("attr", ent, "id")) and b is False:
            return True
        if c[0] == "cmp" and reach(c) and has(c, lambda y: y[0] == "attr" and norm(y[2]).startswith("parent_entity")) and b is False:
            return True
        if c[0] == "attr" and c[2] == "empty" and b:
            return True
    return False


def closure(ctx, f, outs):
    """the entities above a changed one are recomputed too"""
    p = ctx.p
    seen, todo, hit, whole = set(), [f], False, False
    while todo:
        g = todo.pop()
        if id(g.node) in seen:
            continue
        seen.add(id(g.node))
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                if n in ("get_forward_entities", "get_forward_relationships"):
                    deep = any(k.arg == "deep" and isinstance(k.value, ast.Constant) and k.value.value for k in x.keywords) or len(x.args) > 1
                    hit = True
                    whole = whole or deep
                if g is f or True:
                    t = ctx.p.cls("EntitySet").find_method(n) if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" else None
                    if t is not None and len(seen) < 20 and n not in ("get_forward_entities", "get_forward_relationships"):
                        todo.append(t)
    # every parent that is found is put where the search goes on
    bad = None
    if hit and not whole:
        pushed = any(pushes(e) and any(q[0] == "call" and q[1] in ("pop", "popleft") and q[2] == e[2] for q in st.trace) for k, st, v in outs for e in st.trace)
        bad = not pushed
    ctx.ob("refresh", "entities above a changed one", hit and not bad, f.loc, "the entities above a changed entity, however far, are not recomputed")


def pushes(e):
    return e[0] == "call" and e[1] in ("append", "add", "extend", "update", "appendleft", "insert") and any(
        has(x, lambda y: y[0] == "call" and y[1] in ("get_forward_entities", "get_forward_relationships")) for x in e[3])


def order(ctx, f, outs, es):
    """the search ends: an entity that waits for its children makes the search go round for ever when the children wait for it"""
    waits = None
    for k, st, v in outs:
        for e in st.trace:
            if e[0] == "call" and e[1] in ("append", "appendleft") and len(e[3]) == 1 and e[3][0][0] == "call" and e[3][0][1] in ("pop", "popleft"):
                waits = e[-1]
    ctx.ob("terminates", "EntitySet.add_last_time_indexes", waits is None, waits or f.loc,
           "an entity goes back to the queue until all its children are done: with a cycle of relationships (or one from an entity to itself) that never happens")


class Calls(Client):
    max_depth = 3

    def traced(self, name):
        return name in ("update_data", "append", "add", "set_time_index", "set_index")

    def enter(self, f):
        return f.name not in ("add_last_time_indexes", "reset_data_description", "update_data", "set_time_index", "set_secondary_time_index", "set_index", "__eq__", "convert_variable_type")

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        if name == "add_last_time_indexes":
            return [("next", st.ev("recompute", vs[0] if vs else dict(ks).get("updated_entities", NONE), recv), NONE)]
        return None

    def keep(self, st):
        st.conds = {c: b for c, b in st.conds.items() if has(c, lambda y: y[0] == "attr" and y[2] == "last_time_index" or y == ("param", "recalculate_last_time_indexes"))}
        live = {k: v for k, v in st.env.items()}
        st.env = live
        return st

    def elements(self, v, st):
        if v and v[0] in ("attr",) and v[2] in ("entities",):
            return (("elem", v),)
        return None


def refresh(ctx, p, es):
    en = p.cls("Entity")
    f = en.find_method("update_data")
    ctx.need(f is not None, "Entity.update_data is gone")
    ctx.unit(f)
    outs = Paths(p, Calls(), 60000).run(f.module, f.node, f)
    bad = None
    for k, st, v in outs:
        if k == "raise":
            continue
        stored = [i for i, e in enumerate(st.trace) if e[0] == "setattr" and e[2] == "df" and e[1] == ("param", "self")]
        if not stored:
            continue
        ok = False
        for i, e in enumerate(st.trace):
            if e[0] == "recompute" and i > stored[-1]:
                ok = e[1] == NONE or has(e[1], lambda y: y == ("attr", ("param", "self"), "id"))
                later = [q for q in st.trace[i:] if q[0] == "call" and q[1] in ("set_time_index", "set_index")]
                ok = ok and not later
        for c, b in st.conds.items():
            if c == ("param", "recalculate_last_time_indexes") and b is False:
                ok = True
            if is_none(c, lambda y: y == ("attr", ("param", "self"), "last_time_index")) and b:
                ok = True
        if not ok:
            bad = bad or f.loc
    ctx.ob("refresh", "Entity.update_data", bad is None, bad or f.loc, "rows are replaced and the last time indexes that depend on them are not recomputed")
    g = es.find_method("concat")
    ctx.need(g is not None, "EntitySet.concat is gone")
    ctx.unit(g)
    outs = Paths(p, Calls(), 120000).run(g.module, g.node, g)
    bad = None
    n = 0
    for k, st, v in outs:
        if k == "raise":
            continue
        ups = [(i, e) for i, e in enumerate(st.trace) if e[0] == "call" and e[1] == "update_data"]
        if not ups:
            continue
        n += 1
        quiet = [(i, e) for i, e in ups if dict(e[4]).get("recalculate_last_time_indexes") == ("const", "False") or len(e[3]) > 2 and e[3][2] == ("const", "False")]
        if not quiet:
            continue
        absent = 0
        for c, b in st.conds.items():
            if is_none(c, lambda y: y[0] == "attr" and y[2] == "last_time_index") and b:
                absent += 1
        rec = [(i, e) for i, e in enumerate(st.trace) if e[0] == "recompute" and i > ups[-1][0]]
        ok = False
        for i, e in rec:
            ok = ok or e[1] == NONE or has(e[1], lambda y: y[0] == "attr" and y[2] == "id") or absent >= 2
            # the set that holds the new rows is the one recomputed
            if v is not None and v[0] != "const" and e[2] is not None and v != e[2]:
                ok = False
        if not ok and absent < 2:
            bad = bad or g.loc
    ctx.need(n, "concat replaces no rows")
    ctx.ob("refresh", "EntitySet.concat", bad is None, bad or g.loc, "rows are combined and the last time indexes of either side are not recomputed")
    # loading: the entities saved with a last time index get one again
    for h in p.functions:
        if h.name == "description_to_entityset":
            ctx.unit(h)
            got = calls_it(p, h)
            ctx.ob("refresh", "loading", got, h.loc, "a saved last time index is not restored")


def calls_it(p, f):
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if id(g.node) in seen:
            continue
        seen.add(id(g.node))
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and x.attr == "add_last_time_indexes":
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                r = p.resolve_expr(g.module, x.func)
                if r and r[0] == "func":
                    todo.append(r[1])
    return False
