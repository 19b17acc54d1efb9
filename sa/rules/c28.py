"""Abstract interpretation of the structural changes over entity sets whose variables stand for the roles a variable can have
(index, time index, secondary time index, dependent on one, linking, linked to, plain).  Dataframes are abstracted to their
columns, the column that is their index and the operations their rows went through.  For every change, every role and every path,
the resulting entity set is consistent: declared variables are the stored columns, the index is one of them and is the index of
the dataframe, relationships link existing variables, the parent's being its index, and everything that was not to be removed is
still there.  A rejected change leaves the entity set consistent too.  Outside these operations nothing writes the structures."""
import ast
from ..paths import Paths, Client, TooBig, NONE, has
from ..index import dotted

TECHNIQUE = "abstract interpretation of the structural mutators over role-labelled schemas with a heap of entities, and a who-writes-what census"
LEVEL_NOTE = "Rows are not modelled beyond the operations applied to them; the library calls' effect on columns is taken from their documented meaning."
MIN_INSTANCES = {"consistent": 30, "kept": 12, "writers": 4}


def C(x):
    return ("const", repr(x))


def val(v):
    """the literal a value is"""
    if v is not None and v[0] == "const":
        try:
            return ast.literal_eval(v[1])
        except (ValueError, SyntaxError):
            return None
    return None


def tname(v):
    if v is None:
        return None
    return v[1] if v[0] == "name" else v[2] if v[0] == "attr" else v[1] if v[0] == "type" else None


SUP = {}
KEEPS = {"copy", "sort_values", "sort_index", "astype", "compute", "persist", "repartition", "reindex_cols"}
ROWS = {"head", "tail", "sample", "dropna", "query", "iloc", "loc", "nlargest", "nsmallest", "truncate", "reindex", "fillna", "where", "mask", "replace", "reset_index"}


class Heap(Client):
    max_depth = 7

    def __init__(self, p, pandas=True):
        self.p, self.pandas = p, pandas
        self.en, self.es, self.rel = p.cls("Entity"), p.cls("EntitySet"), p.cls("Relationship")

    # ---- reading ---------------------------------------------------------------------
    def get(self, st, ent, what):
        return st.env.get("@@%s.%s.%s" % (ent[1], ent[2], what))

    def put(self, st, ent, what, v):
        return st.bind("@@%s.%s.%s" % (ent[1], ent[2], what), v)

    def ents(self, st, es):
        return st.env["@@%s.entities" % es]

    def items(self, v, st):
        """the elements of a collection, when known"""
        if v is None or not isinstance(v, tuple) or not v:
            return None
        if v[0] in ("list", "tuple", "set") and not any(x and x[0] == "star" and self.items(x[1], st) is None for x in v[1]):
            out = []
            for x in v[1]:
                out += list(self.items(x[1], st)) if x and x[0] == "star" else [x]
            return tuple(out)
        if v[0] == "dict" and all(len(x) == 2 for x in v[1]):
            return tuple(x[0] for x in v[1])
        if v[0] == "vref":
            return self.get(st, v[1], "variables")[1]
        if v[0] == "rref":
            return st.env["@@%s.relationships" % v[1]][1]
        if v[0] == "edict":
            return tuple(C(n) for n in self.ents(st, v[1]))
        if v[0] == "ents":
            return tuple(("ent", v[1], n) for n in self.ents(st, v[1]))
        if v[0] == "cols":
            f = self.frame(v[1], st)
            return tuple(C(c) for c in f[1]) if f else None
        if v[0] == "op" and v[1] in ("Add", "BitOr") and len(v) == 4:
            a, b = self.items(v[2], st), self.items(v[3], st)
            return None if a is None or b is None else a + tuple(x for x in b if v[1] == "Add" or x not in a)
        if v[0] == "op" and v[1] in ("Sub", "BitAnd") and len(v) == 4:
            a, b = self.items(v[2], st), self.items(v[3], st)
            return None if a is None or b is None else tuple(x for x in a if (x in b) == (v[1] == "BitAnd"))
        if v[0] == "call" and v[1] in ("list", "set", "tuple", "sorted", "reversed", "frozenset", "iter") and v[2] is None and len(v[3]) == 1:
            return self.items(v[3][0], st)
        if v[0] == "call" and v[1] in ("list", "set", "tuple") and v[2] is None and not v[3]:
            return ()
        if v[0] == "call" and v[1] in ("copy", "keys", "tolist") and v[2] is not None and not v[3]:
            return self.items(v[2], st)
        if v[0] == "call" and v[1] == "values" and v[2] is not None:
            if v[2][0] == "edict":
                return self.items(("ents", v[2][1]), st)
            if v[2][0] == "dict":
                return tuple(x[1] for x in v[2][1])
        if v[0] == "call" and v[1] == "items" and v[2] is not None:
            if v[2][0] == "dict" and all(len(x) == 2 for x in v[2][1]):
                return tuple(("tuple", x) for x in v[2][1])
            if v[2][0] == "edict":
                return tuple(("tuple", (C(n), ("ent", v[2][1], n))) for n in self.ents(st, v[2][1]))
        if v[0] == "call" and v[1] in ("union", "difference", "intersection") and v[2] is not None and len(v[3]) == 1:
            return self.items(("op", {"union": "BitOr", "difference": "Sub", "intersection": "BitAnd"}[v[1]], v[2], v[3][0]), st)
        if v[0] == "call" and v[1] == "fromkeys" and len(v[3]) >= 1:
            return self.items(v[3][0], st)
        return None

    def names(self, v, st):
        x = val(v)
        if isinstance(x, str):
            return (x,)
        it = self.items(v, st)
        if it is None:
            return None
        out = tuple(val(x) for x in it)
        return out if all(isinstance(x, str) for x in out) else None

    def frame(self, v, st):
        """(tag, columns, row operations, column that is the index) of a dataframe value"""
        if not isinstance(v, tuple) or not v:
            return None
        if v[0] == "fr":
            return v
        if v[0] == "sub":
            f = self.frame(v[1], st)
            if f is None:
                return None
            if v[2][0] in ("slice", "cmp", "op", "call") and self.items(v[2], st) is None:
                return ("fr", f[1], f[2] + (("filter", v[2]),), f[3])
            n = self.names(v[2], st)
            if n is None or isinstance(val(v[2]), str):
                return None
            if not set(n) <= set(f[1]):
                return ("fr", n, f[2] + (("missing", n),), f[3])
            return ("fr", n, f[2], f[3])
        if v[0] == "sub2":
            return None
        if v[0] != "call":
            return None
        name, recv, args, kws = v[1], v[2], v[3], dict(v[4])
        if name == "concat" and args:
            parts = self.items(args[0], st)
            fs = [self.frame(x, st) for x in parts] if parts is not None else [None]
            if any(f is None for f in fs):
                return None
            cols = tuple(dict.fromkeys(c for f in fs for c in f[1]))
            return ("fr", cols, (("concat", tuple(f[2] for f in fs)),), None)
        if name in ("convert_variable_data", "convert_all_variable_data"):
            return self.frame(args[0] if args else kws.get("df"), st)
        f = self.frame(recv, st) if recv is not None else None
        if f is None:
            return None
        if name in KEEPS:
            return f
        if name in ROWS:
            return ("fr", f[1], f[2] + ((name,),), f[3])
        if name == "assign_col":
            n = val(args[0])
            if n is None:
                return None
            return f if n in f[1] else ("fr", f[1] + (n,), f[2], f[3])
        if name == "insert" and len(args) == 3:
            n = val(args[1])
            return ("fr", (n,) + f[1], f[2], f[3]) if isinstance(n, str) else None
        if name == "drop":
            x = kws.get("columns")
            ax = val(kws.get("axis", args[1] if len(args) > 1 else C(0)))
            if x is None and ax in (1, "columns"):
                x = args[0] if args else kws.get("labels")
            n = self.names(x, st) if x is not None else None
            if n is None:
                return ("fr", f[1], f[2] + (("drop rows",),), f[3]) if x is None else None
            return ("fr", tuple(c for c in f[1] if c not in n), f[2], f[3])
        if name == "set_index":
            a = args[0] if args else kws.get("keys")
            c = val(a) if a is not None else None
            if c is None and a is not None and a[0] == "sub":
                g = self.frame(a[1], st)
                if g is not None and isinstance(val(a[2]), str):
                    return ("fr", f[1], f[2], val(a[2]))
            if isinstance(c, str):
                drop = val(kws.get("drop", C(True)))
                return ("fr", tuple(x for x in f[1] if x != c or not drop), f[2], c)
            return None
        if name == "rename":
            d = kws.get("columns")
            if d is None or d[0] != "dict":
                return None
            m = {val(k): val(x) for k, x in d[1]}
            if None in m or None in m.values():
                return None
            return ("fr", tuple(m.get(c, c) for c in f[1]), f[2], m.get(f[3], f[3]))
        if name == "drop_duplicates":
            s = args[0] if args else kws.get("subset")
            n = self.names(s, st) if s is not None else f[1]
            keep = val(kws.get("keep", args[1] if len(args) > 1 else C("first")))
            return ("fr", f[1], f[2] + (("dedup", tuple(n or ("?",)), keep),), f[3])
        if name in ("join", "merge"):
            g = self.frame(args[0], st) if args else None
            if g is None:
                return None
            how = val(kws.get("how", C("left" if name == "join" else "inner")))
            on = self.names(kws["on"], st) if "on" in kws else ()
            add = tuple(c for c in g[1] if c not in f[1])
            rows = f[2] if how == "left" else f[2] + (("join", how),)
            if g[3] is not None and on and tuple(on) != (g[3],) and name == "join":
                rows = rows + (("join on", tuple(on), g[3]),)
            return ("fr", f[1] + add, rows, f[3])
        return None

    def binop(self, op, a, b):
        if op == "Mod" and isinstance(val(a), str):
            args = [val(x) for x in b[1]] if b[0] in ("tuple", "list") else [val(b)]
            if not any(x is None for x in args):
                try:
                    return C(val(a) % tuple(args))
                except (TypeError, ValueError):
                    pass
        if op == "Add" and isinstance(val(a), str) and isinstance(val(b), str):
            return C(val(a) + val(b))
        return ("op", op, a, b)

    def text(self, parts):
        if all(isinstance(val(x), (str, int)) for x in parts):
            return C("".join(str(val(x)) for x in parts))
        return ("text",) + parts

    # ---- the client ------------------------------------------------------------------
    def keep(self, st):
        st.conds = {c: b for c, b in st.conds.items() if has(c, lambda y: y[0] == "call" and y[1] in ("is_dtype_equal", "is_numeric_dtype") or y[0] == "dtype" or y[0] == "attr" and y[2] in ("is_unique",))}
        st.trace = tuple(e for e in st.trace if e[0] in ("op", "bad"))
        return st

    def elements(self, v, st):
        return self.items(v, st)

    def enter(self, f):
        return f.name not in ("reset_data_description", "infer_variable_types", "convert_all_variable_data", "convert_variable_data", "_check_time_type", "col_is_datetime",
                              "add_last_time_indexes", "find_variable_types", "is_instance", "_dataframes_equal", "__eq__", "get_linked_vars", "_check_timedelta")

    def attribute(self, paths, e, base, st):
        a = e.attr
        if base[0] == "ent":
            if a == "df":
                return [(st, self.get(st, base, "df") or ("other", "df"))]
            if a == "variables":
                return [(st, ("vref", base))]
            if a == "entityset":
                return [(st, ("es", base[1]))]
            if a == "id":
                return [(st, C(base[2].replace("*new:", "")))]
            if a == "data":
                return [(st, ("data", base))]
            if a == "variable_types":
                return [(st, ("dict", tuple((C(x[2]), x[3]) for x in self.get(st, base, "variables")[1])))]
            v = self.get(st, base, a)
            if v is not None:
                return [(st, v)]
        if base[0] == "es":
            if a == "relationships":
                return [(st, ("rref", base[1]))]
            if a == "entity_dict":
                return [(st, ("edict", base[1]))]
            if a == "entities":
                return [(st, ("ents", base[1]))]
        if base[0] == "var":
            if a == "id":
                return [(st, C(base[2]))]
            if a == "entity":
                return [(st, base[1])]
            if a == "entityset":
                return [(st, ("es", base[1][1]))]
            if a == "dtype":
                return None
        if base[0] == "rel":
            es = base[1]
            m = {"parent_entity": 2, "child_entity": 4, "_parent_entity_id": 2, "_child_entity_id": 4, "_parent_variable_id": 3, "_child_variable_id": 5}
            if a in m:
                x = base[m[a]]
                return [(st, ("ent", es, x) if a in ("parent_entity", "child_entity") else C(x))]
            if a in ("parent_variable", "child_variable"):
                i = 2 if a == "parent_variable" else 4
                return [(st, self.var(st, ("ent", es, base[i]), base[i + 1]))]
            if a == "entityset":
                return [(st, ("es", es))]
        if self.frame(base, st) is not None and a == "columns":
            return [(st, ("cols", self.frame(base, st)))]
        if self.frame(base, st) is not None and a == "empty":
            return [(st, C(False))]
        if a == "dtype" and base[0] == "sub" and isinstance(val(base[2]), str) and self.frame(base[1], st) is not None:
            return [(st, ("dtype", val(base[2])))]
        return None

    def var(self, st, ent, name):
        for x in (self.get(st, ent, "variables") or ("list", ()))[1]:
            if x[2] == name:
                return x
        return ("missing", name)

    def subscript(self, paths, e, base, key, st):
        k = val(key)
        if base[0] in ("edict", "es"):
            if k in self.ents(st, base[1]):
                return [(st, ("ent", base[1], k))]
            return [(st, ("missing", k))]
        if base[0] == "ent":
            return [(st, self.var(st, base, k))] if isinstance(k, str) else None
        if base[0] == "data" and k == "df":
            return [(st, self.get(st, base[1], "df"))]
        if base[0] == "dict" and k is not None:
            hit = [x[1] for x in base[1] if len(x) == 2 and x[0] == key]
            return [(st, hit[-1])] if hit else None
        it = self.items(base, st)
        if it is not None and isinstance(k, int) and base[0] not in ("dict",):
            try:
                return [(st, it[k])]
            except IndexError:
                return [(st, ("missing", k))]
        return None

    def setvars(self, st, ent, items):
        return self.put(st, ent, "variables", ("list", tuple(items)))

    def setrels(self, st, es, items):
        return st.bind("@@%s.relationships" % es, ("list", tuple(items)))

    def store(self, paths, t, base, v, st):
        if base[0] == "ent":
            if t.attr == "df":
                f = self.frame(v, st)
                return [self.put(st, base, "df", f if f is not None else ("unknown", paths.loc(t)))]
            if t.attr == "variables":
                it = self.items(v, st)
                return [self.put(st, base, "variables", ("list", it) if it is not None else ("unknown", paths.loc(t)))]
            if t.attr in ("index", "time_index", "secondary_time_index", "created_index", "last_time_index"):
                return [self.put(st, base, t.attr, v)]
            if t.attr == "data" and v[0] == "dict":
                for k, x in v[1]:
                    if val(k) == "df":
                        st = self.put(st, base, "df", self.frame(x, st) or ("unknown", paths.loc(t)))
                return [st]
            return [st]
        if base[0] == "es":
            if t.attr == "relationships":
                it = self.items(v, st)
                return [st.bind("@@%s.relationships" % base[1], ("list", it) if it is not None else ("unknown", paths.loc(t)))]
            return [st]
        return [st]

    def setitem(self, paths, t, base, key, v, st):
        k = val(key)
        if base[0] == "vref":
            it = list(self.items(base, st))
            if isinstance(k, int) and -len(it) <= k < len(it):
                it[k] = v
                return [self.setvars(st, base[1], it)]
            if key[0] == "slice":
                new = self.items(v, st)
                return [self.setvars(st, base[1], new)] if new is not None else [st.ev("bad", "variables", paths.loc(t))]
            return [st.ev("bad", "variables", paths.loc(t))]
        if base[0] == "data" and k == "df":
            return [self.put(st, base[1], "df", self.frame(v, st) or ("unknown", paths.loc(t)))]
        if base[0] == "edict":
            if v[0] == "ent" and isinstance(k, str):
                n = st.bind("@@%s.entities" % base[1], tuple(dict.fromkeys(self.ents(st, base[1]) + (k,))))
                if v[2].replace("*new:", "") != k:
                    n = n.ev("bad", "an entity kept under another name", paths.loc(t))
                if v[2] != k:
                    n = n.copy()
                    for w in ("df", "variables", "index", "time_index", "secondary_time_index"):
                        x = n.env.pop("@@%s.%s.%s" % (base[1], v[2], w), None)
                        if x is not None:
                            n.env["@@%s.%s.%s" % (base[1], k, w)] = self.rehome(x, ("ent", base[1], k)) if w == "variables" else x
                    n.env = {q: (("ent", base[1], k) if w == v else w) for q, w in n.env.items()}
                return [n]
            return [st.ev("bad", "entity_dict", paths.loc(t))]
        f = self.frame(base, st)
        if f is not None and isinstance(k, str):
            new = self.frame(("call", "assign_col", f, (key, v), (), ""), st)
            return self.rebind(paths, t.value, new, st)
        return None

    def rehome(self, v, ent):
        return ("list", tuple(("var", ent, x[2], x[3]) for x in v[1]))

    def rebind(self, paths, e, new, st):
        """the state after the dataframe an expression denotes has become another, in place"""
        if isinstance(e, ast.Name):
            return [st.bind(e.id, new)]
        if isinstance(e, ast.Attribute) and e.attr == "df":
            out = []
            for n, b in paths.ev(e.value, st, []):
                out.append(self.put(n, b, "df", new) if b[0] == "ent" else n)
            return out
        return None

    def known(self, v, st):
        if v[0] == "cmp" and len(v[1]) == 1:
            op, (a, b) = v[1][0], v[2]
            if op in ("Is", "Eq"):
                for x, y in ((a, b), (b, a)):
                    if y == NONE and x[0] in ("ent", "es", "var", "rel", "fr", "type", "list", "dict"):
                        return False
                if a == b and a[0] in ("const", "ent", "var", "rel", "es"):
                    return True
                if {a[0], b[0]} <= {"ent"} or {a[0], b[0]} <= {"es"}:
                    return a == b
                if {a[0], b[0]} <= {"rel"}:
                    return bare(a) == bare(b)
                if a[0] == "var" and b[0] == "var":
                    return a[1:3] == b[1:3]
                if a[0] == "type" or b[0] == "type":
                    x, y = tname(a), tname(b)
                    return x == y if x and y else None
                x, y = self.items(a, st), self.items(b, st)
                if x is not None and y is not None:
                    x, y = tuple(bare(i) for i in x), tuple(bare(i) for i in y)
                if x is not None and y is not None and all(i[0] in ("const", "rel", "ent") for i in x + y):
                    return (set(x) == set(y) and len(set(x)) == len(set(y))) if "set" in (a[0], b[0]) or any(z[0] == "call" and z[1] == "set" for z in (a, b)) else x == y
            if op == "In":
                if b[0] == "es":
                    b = ("edict", b[1])
                it = self.items(b, st)
                if it is not None and a[0] in ("const", "rel", "ent") and all(x[0] in ("const", "rel", "ent", "tuple", "var") for x in it):
                    return bare(a) in [bare(x) for x in it]
                if it is not None and a[0] == "tuple" and all(x[0] == "const" for x in a[1]):
                    return a in it
                if it is not None and a[0] == "var":
                    return any(x[0] == "var" and x[1:3] == a[1:3] for x in it)
                if it is not None and a[0] == "frvar":
                    return None
            if op in ("Lt", "LtE", "Gt", "GtE"):
                x, y = val(a), val(b)
                if isinstance(x, int) and isinstance(y, int):
                    return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
                x, y = self.items(a, st), self.items(b, st)
                if x is not None and y is not None:
                    return {"Lt": set(x) < set(y), "LtE": set(x) <= set(y), "Gt": set(x) > set(y), "GtE": set(x) >= set(y)}[op]
            if op == "Eq" and a == b and a[0] == "dtype":
                return True
            return None
        if v[0] == "call" and v[1] in ("isinstance", "is_instance"):
            a = v[3][0]
            names = [tname(x) or "" for x in (v[3][1][1] if v[3][1][0] in ("tuple", "list") else (v[3][1],))]
            if v[1] == "is_instance":
                return not self.pandas if self.frame(a, st) is not None else None
            if self.frame(a, st) is not None:
                if v[3][1][0] == "type":
                    return True
                return self.pandas if any("DataFrame" in n for n in names) and not any(has(v[3][1], lambda y: y == ("name", "dd") or y == ("name", "ks")) for _ in (0,)) else (not self.pandas)
            if a[0] == "var":
                t = tname(a[3])
                return any(t == n or n in SUP.get(t, ()) for n in names) if t else None
            if a[0] in ("list", "tuple", "dict", "set"):
                return a[0] in names
            if a[0] == "const":
                return type(val(a)).__name__ in names
            if a[0] in ("name", "attr", "type") and set(names) <= {"str", "tuple", "list", "dict"}:
                return False
            if a[0] in ("es", "ent", "rel"):
                return {"es": "EntitySet", "ent": "Entity", "rel": "Relationship"}[a[0]] in names
            return None
        if v[0] == "call" and v[1] == "is_dtype_equal" and len(v[3]) == 2 and v[3][0] == v[3][1]:
            return True
        if v[0] == "cmp" and v[1] == ("Eq",) and v[2][0] == v[2][1] and v[2][0][0] == "dtype":
            return True
        if v[0] == "call" and v[1] in ("any", "all") and len(v[3]) == 1:
            it = self.items(v[3][0], st)
            if it is not None:
                vs = [paths_truth(x, self, st) for x in it]
                if v[1] == "any":
                    return True if True in vs else (None if None in vs else False)
                return False if False in vs else (None if None in vs else True)
        if v[0] == "call" and v[1] == "issubset" and v[2] is not None:
            x, y = self.items(v[2], st), self.items(v[3][0], st)
            return set(x) <= set(y) if x is not None and y is not None else None
        if v[0] == "call" and v[1] == "isdisjoint" and v[2] is not None:
            x, y = self.items(v[2], st), self.items(v[3][0], st)
            return not set(x) & set(y) if x is not None and y is not None else None
        if v[0] in ("vref", "rref", "edict", "ents", "cols", "list", "dict", "set", "op", "call"):
            it = self.items(v, st)
            if it is not None:
                return bool(it)
        if v[0] in ("ent", "es", "var", "rel", "fr"):
            return True
        return None

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        f = e.func
        d = dict(ks)
        nxt = lambda s, v=NONE: [("next", s, v)]
        if recv is not None and recv[0] == "vref":
            ent, it = recv[1], list(self.items(recv, st))
            if name == "index" and vs and vs[0][0] == "var":
                for i, x in enumerate(it):
                    if x[1:3] == vs[0][1:3]:
                        return nxt(st, C(i))
                return [("raise", st, ("new", "ValueError", paths.loc(e)))]
            if name == "remove" and vs:
                if vs[0] not in it:
                    return [("raise", st, ("new", "ValueError", paths.loc(e)))]
                it.remove(vs[0])
                return nxt(self.setvars(st, ent, it))
            if name == "append":
                return nxt(self.setvars(st, ent, it + [vs[0]]))
            if name == "insert" and isinstance(val(vs[0]), int):
                it.insert(val(vs[0]), vs[1])
                return nxt(self.setvars(st, ent, it))
            if name == "pop":
                k = val(vs[0]) if vs else -1
                if isinstance(k, int):
                    x = it.pop(k)
                    return nxt(self.setvars(st, ent, it), x)
            if name == "extend" and self.items(vs[0], st) is not None:
                return nxt(self.setvars(st, ent, it + list(self.items(vs[0], st))))
            if name in ("extend", "clear", "sort", "reverse", "pop"):
                return nxt(st.ev("bad", "variables", paths.loc(e)))
        if recv is not None and recv[0] == "rref":
            it = list(self.items(recv, st))
            if name == "append":
                return nxt(self.setrels(st, recv[1], it + [vs[0]]))
            if name == "remove":
                return nxt(self.setrels(st, recv[1], [x for x in it if x != vs[0]]))
            if name in ("extend",):
                more = self.items(vs[0], st)
                return nxt(self.setrels(st, recv[1], it + list(more))) if more is not None else nxt(st.ev("bad", "relationships", paths.loc(e)))
            if name in ("insert", "pop", "clear"):
                return nxt(st.ev("bad", "relationships", paths.loc(e)))
        if recv is not None and recv[0] == "edict":
            if name == "get" and vs:
                k = val(vs[0])
                return nxt(st, ("ent", recv[1], k) if k in self.ents(st, recv[1]) else vs[1] if len(vs) > 1 else NONE)
            if name in ("pop", "clear", "popitem", "update"):
                return nxt(st.ev("bad", "entity_dict", paths.loc(e)))
        if recv is not None and recv[0] == "dict" and name == "get" and vs:
            hit = [x[1] for x in recv[1] if len(x) == 2 and x[0] == vs[0]]
            return nxt(st, hit[-1] if hit else vs[1] if len(vs) > 1 else NONE)
        if recv is not None and recv[0] == "dict" and name == "copy":
            return nxt(st, recv)
        if name == "next" and recv is None and vs and self.items(vs[0], st):
            return nxt(st, self.items(vs[0], st)[0])
        if recv is not None and name in ("remove", "discard", "pop") and isinstance(f.value, ast.Name) and recv[0] in ("list", "set", "op", "call") and self.items(recv, st) is not None and len(vs) <= 1:
            it = list(self.items(recv, st))
            tag = "set" if recv[0] == "set" else "list"
            if name == "pop":
                k = val(vs[0]) if vs else -1
                if isinstance(k, int) and it:
                    x = it.pop(k)
                    return nxt(st.bind(f.value.id, (tag, tuple(it))), x)
            else:
                if vs[0] in it:
                    it.remove(vs[0])
                elif name == "remove":
                    return [("raise", st, ("new", "ValueError", paths.loc(e)))]
                return nxt(st.bind(f.value.id, (tag, tuple(it))))
        if name == "dict" and recv is None and len(vs) == 1 and vs[0][0] == "dict":
            return nxt(st, vs[0])
        if recv is not None and name == "create_from" and vs and vs[0][0] == "var":
            return nxt(st, ("var", vs[0][1], vs[0][2], ("type", tname(recv) or "?")))
        t = fv if fv is not None else recv if False else None
        if t is None and recv is not None and recv[0] == "name" and name[:1].isupper():
            t = ("type", name)
        if t is not None and tname(t) and len(vs) + len(ks) >= 2 and isinstance(val(d.get("id", vs[0] if vs else NONE)), str):
            ent = d.get("entity", vs[1] if len(vs) > 1 else NONE)
            if ent[0] == "ent":
                return nxt(st, ("var", ent, val(d.get("id", vs[0] if vs else NONE)), t))
        if name == "Relationship" and recv is None:
            a = list(vs) + [None, None]
            par, chi = d.get("parent_variable", a[0]), d.get("child_variable", a[1])
            if par is None or chi is None or par[0] != "var" or chi[0] != "var":
                return nxt(st.ev("bad", "a relationship of something else than two variables", paths.loc(e)), ("other", "rel"))
            idx = self.get(st, par[1], "index")
            if idx is not None and idx != NONE and val(idx) != par[2]:
                return [("raise", st, ("new", "AttributeError", paths.loc(e)))]
            return nxt(st, ("rel", chi[1][1], par[1][2], par[2], chi[1][2], chi[2]))
        if name == "Entity" and recv is None:
            return self.construct(paths, e, vs, d, st)
        if name == "type" and recv is None and len(vs) == 1 and vs[0][0] == "var":
            return nxt(st, ("type", tname(vs[0][3])))
        if name == "type" and recv is None and len(vs) == 1 and self.frame(vs[0], st) is not None:
            return nxt(st, ("type", "DataFrame" if self.pandas else "dd.DataFrame"))
        if name == "len" and recv is None and len(vs) == 1:
            it = self.items(vs[0], st)
            if it is not None:
                return nxt(st, C(len(set(it)) if vs[0][0] == "set" or vs[0][0] == "call" and vs[0][1] in ("set", "frozenset") else len(it)))
        if name == "format" and recv is not None and isinstance(val(recv), str) and all(isinstance(val(x), (str, int)) for x in vs) and not ks:
            try:
                return nxt(st, C(val(recv).format(*[val(x) for x in vs])))
            except (IndexError, KeyError, ValueError):
                return None
        if name == "deepcopy" and vs and vs[0][0] == "es":
            n = st
            src, dst = vs[0][1], vs[0][1] + "~copy"
            for k, v in st.env.items():
                if isinstance(k, str) and k.startswith("@@%s." % src):
                    n = n.bind("@@%s." % dst + k[len("@@%s." % src):], move(v, src, dst))
            return nxt(n, ("es", dst))
        if recv is not None and val(d.get("inplace", C(False))) is True and self.frame(recv, st) is not None:
            new = self.frame(("call", name, recv, vs, tuple(k for k in ks if k[0] != "inplace"), ""), st)
            r = self.rebind(paths, f.value, new if new is not None else ("unknown", paths.loc(e)), st)
            if r is not None:
                return [("next", x, NONE) for x in r]
        if recv is not None and name == "insert" and recv[0] == "fr" and isinstance(f, ast.Attribute):
            new = self.frame(("call", "insert", recv, vs, ks, ""), st)
            r = self.rebind(paths, f.value, new or ("unknown", paths.loc(e)), st)
            if r is not None:
                return [("next", x, NONE) for x in r]
        if recv is not None and recv[0] in ("ent", "es") and isinstance(f, ast.Attribute):
            c = self.en if recv[0] == "ent" else self.es
            m = c.find_method(name)
            if m is not None and self.enter(m) and len(paths.stack) <= self.max_depth and id(m.node) not in paths.stack:
                if m.name in ("get_forward_relationships", "get_backward_relationships") and vs:
                    i = 4 if m.name == "get_forward_relationships" else 2
                    return nxt(st, ("list", tuple(r for r in self.items(("rref", recv[1]), st) if r[i] == val(vs[0]))))
                return paths.enter(m.node, m.module, m, recv, vs, ks, st, None)
        if name == "infer_variable_types":
            fr = self.frame(vs[0] if vs else d.get("df"), st)
            if fr is None:
                return None
            given = self.items(vs[2] if len(vs) > 2 else d.get("variable_types"), st) or ()
            return nxt(st, ("dict", tuple((C(c), ("type", "Inferred")) for c in fr[1] if C(c) not in given)))
        # a dataframe value is settled when it is made
        if recv is not None or name in ("convert_variable_data", "convert_all_variable_data"):
            fr = self.frame(("call", name, recv, vs, ks, ""), st)
            if fr is not None and name in KEEPS | ROWS | {"drop", "set_index", "rename", "drop_duplicates", "join", "merge", "concat", "convert_variable_data", "convert_all_variable_data"}:
                return nxt(st, fr)
        return None

    def construct(self, paths, e, vs, d, st):
        """a new entity, by what its constructor is checked to do"""
        names = [a.arg for a in self.en.methods["__init__"].node.args.args][1:]
        a = dict(zip(names, vs))
        a.update(d)
        fr = self.frame(a.get("df"), st)
        es = a.get("entityset")
        idx = val(a.get("index", NONE))
        n = val(a.get("id", NONE))
        if fr is None or es is None or es[0] != "es" or n is None:
            return [("next", st.ev("bad", "an entity made of unknown parts", paths.loc(e)), ("other", "entity"))]
        if len(set(fr[1])) != len(fr[1]):
            return [("raise", st, ("new", "AssertionError", paths.loc(e)))]
        vt = a.get("variable_types", NONE)
        types = {val(k): x for k, x in vt[1]} if vt[0] == "dict" else {}
        if set(types) - set(fr[1]) or idx is None:
            return [("raise", st, ("new", "KeyError", paths.loc(e)))]
        own = ("ent", es[1], "*new:" + n)
        cols = fr[1] if idx in fr[1] else (idx,) + fr[1]
        ti = a.get("time_index", NONE)
        if val(ti) is not None and val(ti) not in cols:
            return [("raise", st, ("new", "LookupError", paths.loc(e)))]
        items = [("var", own, c, ("type", "Index") if c == idx else types.get(c, ("type", "Inferred"))) for c in cols]
        s = self.put(st, own, "variables", ("list", tuple(items)))
        s = self.put(s, own, "df", ("fr", cols, fr[2], idx))
        s = self.put(s, own, "index", C(idx))
        s = self.put(s, own, "time_index", ti)
        sti = a.get("secondary_time_index", NONE)
        s = self.put(s, own, "secondary_time_index", sti if sti[0] == "dict" else ("dict", ()))
        return [("next", s, own)]


def paths_truth(v, c, st):
    if v[0] == "const":
        return bool(val(v))
    if v in st.conds:
        return st.conds[v]
    return c.known(v, st)


def bare(v):
    """relationships are equal when their entities and variables have the same names"""
    return ("rel",) + v[2:] if v[0] == "rel" else v


def move(v, a, b):
    if isinstance(v, tuple):
        if v and v[0] in ("ent", "es", "rel") and len(v) > 1 and v[1] == a:
            return (v[0], b) + tuple(move(x, a, b) for x in v[2:])
        return tuple(move(x, a, b) for x in v)
    return v


# ---- scenarios -------------------------------------------------------------------------
#            columns in the roles a variable can have; (types), index, time index, secondary time index
SCHEMA = {
    "base": ((("id", "Index"), ("t", "DatetimeTimeIndex"), ("t2", "Datetime"), ("dep", "Numeric"), ("link", "Id"), ("key", "Categorical"), ("q", "Numeric"), ("r", "Categorical")),
             "id", "t", {"t2": ["dep", "t2"]}),
    "par": ((("pid", "Index"), ("n", "Numeric")), "pid", None, {}),
    "kid": ((("kix", "Index"), ("q", "Id"), ("w", "Numeric")), "kix", None, {}),
    "lone": ((("lid", "Index"), ("key", "Categorical")), "lid", None, {}),
}
RELS = (("par", "pid", "base", "link"), ("base", "id", "kid", "q"))


def lst(xs):
    return ("list", tuple(C(x) for x in xs))


def world(es="es"):
    env = {"@@%s.entities" % es: tuple(SCHEMA), "@@%s.relationships" % es: ("list", tuple(("rel", es) + r for r in RELS))}
    for n, (cols, idx, ti, sti) in SCHEMA.items():
        ent = ("ent", es, n)
        k = "@@%s.%s." % (es, n)
        env[k + "variables"] = ("list", tuple(("var", ent, c, ("type", t)) for c, t in cols))
        env[k + "df"] = ("fr", tuple(c for c, t in cols), (), idx)
        env[k + "index"] = C(idx)
        env[k + "time_index"] = C(ti)
        env[k + "secondary_time_index"] = ("dict", tuple((C(t), lst(c)) for t, c in sti.items()))
        env[k + "created_index"] = NONE
        env[k + "last_time_index"] = NONE
    return env


def inconsistent(h, st, es="es"):
    """what is wrong with an entity set"""
    for e in st.trace:
        if e[0] == "bad":
            return "%s (%s)" % (e[1], e[-1])
    rels = st.env.get("@@%s.relationships" % es)
    for n in h.ents(st, es):
        ent = ("ent", es, n)
        vs, df = h.get(st, ent, "variables"), h.get(st, ent, "df")
        if vs is None or vs[0] == "unknown" or any(x[0] != "var" for x in vs[1]):
            return "the variables of %s are set to something unknown" % n
        if df is None or df[0] == "unknown":
            return "the dataframe of %s is set to something unknown" % n
        ids = [x[2] for x in vs[1]]
        if sorted(ids) != sorted(set(ids)) or set(ids) != set(df[1]) or len(ids) != len(df[1]):
            odd = sorted(set(ids) ^ set(df[1]))
            return "declared variables and stored columns of an entity differ (%s)" % ", ".join(role(x) for x in odd)
        if any(o[0] == "missing" for o in df[2]):
            return "columns that are not there are stored"
        idx = val(h.get(st, ent, "index"))
        if idx not in ids:
            return "the index of an entity is not one of its variables"
        if tname(h.var(st, ent, idx)[3]) != "Index":
            return "the index variable of an entity is not typed as index"
        if h.pandas and df[3] != idx:
            return "the index of the dataframe is not the index of the entity"
        ti = h.get(st, ent, "time_index")
        if ti is not None and ti != NONE and val(ti) not in ids:
            return "the time index of an entity is not one of its variables"
        sti = h.get(st, ent, "secondary_time_index")
        if sti is not None and sti[0] == "dict":
            for k, c in sti[1]:
                cs = h.names(c, st)
                if val(k) not in ids or cs is not None and set(cs) - set(ids):
                    return "a secondary time index names a variable that is not there"
    if rels is None or rels[0] == "unknown" or any(r[0] != "rel" for r in rels[1]):
        return "the relationships are set to something unknown"
    if len(set(rels[1])) != len(rels[1]):
        return "a relationship is there twice"
    for r in rels[1]:
        for e, v in ((r[2], r[3]), (r[4], r[5])):
            if e not in h.ents(st, es) or h.var(st, ("ent", es, e), v)[0] == "missing":
                return "a relationship refers to a variable that is not there"
        if val(h.get(st, ("ent", es, r[2]), "index")) != r[3]:
            return "a relationship's parent variable is not the index of its entity"
    return None


def role(c):
    return {"id": "index", "t": "time index", "t2": "secondary time index", "dep": "dependent variable", "link": "linking variable", "pid": "linked index"}.get(c, c)


class Ask(object):
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.bad = {}

    def run(self, f, args, pandas=True, env=None, selfv=None):
        h = Heap(self.p, pandas)
        e = dict(env or world())
        a = f.node.args
        names = [x.arg for x in a.args]
        e[names[0]] = selfv
        for x, dflt in zip(names[len(names) - len(a.defaults):], a.defaults):
            e[x] = ("const", repr(dflt.value)) if isinstance(dflt, ast.Constant) else ("default", ast.unparse(dflt))
        e.update(args)
        try:
            outs = Paths(self.p, h, 400000).run(f.module, f.node, f, e)
        except TooBig:
            self.ctx.need(False, "too many paths in %s" % f.qual)
            return h, []
        return h, [(k if k == "raise" else "ok", st, v) for k, st, v in outs]


def check(ctx):
    p = ctx.p
    SUP.clear()
    for cs in p.classes.values():
        for c in cs:
            if c.module.name.startswith("featuretools.variable_types"):
                SUP[c.name] = {b.name for b in c.mro()}
    en, es, rel = p.cls("Entity"), p.cls("EntitySet"), p.cls("Relationship")
    A = Ask(ctx, p)
    B, S = ("ent", "es", "base"), ("es", "es")
    marks = {}

    def note(rule, what, f, bad):
        k = (rule, what)
        marks.setdefault(k, [f, None])
        if bad and marks[k][1] is None:
            marks[k][1] = bad

    def consistent(what, f, h, outs, es="es", raised=True):
        for k, st, v in outs:
            if k == "raise" and not raised:
                continue
            w = inconsistent(h, st, es)
            note("consistent", what, f, w and (w if k == "ok" else "after an error: " + w))

    def want(what, f, outs, kind, why):
        """the outcome there has to be"""
        if kind == "ok":
            note("kept", what, f, None if any(k == "ok" for k, st, v in outs) else why)
        else:
            note("refused", what, f, why if any(k == "ok" for k, st, v in outs) else None)

    def cols(h, st, n, es="es"):
        d = h.get(st, ("ent", es, n), "df")
        return d[1] if d and d[0] == "fr" else ()

    def rels(st, es="es"):
        return tuple(r[2:] for r in st.env["@@%s.relationships" % es][1])
    allcols = [c for c, t in SCHEMA["base"][0]]

    # ---- deleting
    f = meth(ctx, en, "delete_variables")
    for gone in [[c] for c in allcols] + [["q", "link"], ["t2", "dep"], ["q", "r"]]:
        what = "delete " + " and ".join(role(c) for c in gone)
        h, o = A.run(f, {"variable_ids": lst(gone)}, selfv=B)
        consistent(what, f, h, o)
        if not set(gone) & {"id", "t"}:
            want(what, f, o, "ok", "a variable can no longer be deleted")
        for k, st, v in o:
            if k != "ok":
                continue
            note("kept", what, f, None if set(cols(h, st, "base")) == set(allcols) - set(gone) else "other columns than those asked for are deleted")
            lost = [r for r in RELS if r not in rels(st) and not any((e, c) == ("base", x) for x in gone for e, c in ((r[0], r[1]), (r[2], r[3])))]
            note("kept", what, f, "a relationship of other variables is lost" if lost else None)
    # ---- types, index, time index
    f = meth(ctx, en, "convert_variable_type")
    for conv in (True, False):
        for c in ("q", "link", "t"):
            h, o = A.run(f, {"variable_id": C(c), "new_type": ("name", "Datetime"), "convert_data": C(conv)}, selfv=B)
            consistent("convert a variable", f, h, o)
            for k, st, v in o:
                vs = h.get(st, B, "variables")
                if k == "ok" and vs[0] == "list":
                    note("kept", "convert a variable", f, None if [x[2] for x in vs[1]] == allcols else "the order of the variables changes")
                    note("kept", "convert a variable", f, None if [tname(x[3]) for x in vs[1] if x[2] == c] == ["Datetime"] else "the variable does not get its new type")
    f = meth(ctx, en, "set_index")
    for pandas in (True, False):
        h, o = A.run(f, {"variable_id": C("q")}, selfv=B, pandas=pandas, env=world_without(RELS[1]))
        consistent("set the index", f, h, o)
        for k, st, v in o:
            if k == "ok":
                note("kept", "set the index", f, None if val(h.get(st, B, "index")) == "q" and tname(h.var(st, B, "q")[3]) == "Index" else "the variable does not become the index")
                if pandas:
                    note("refused", "set an index that is not unique", f, None if any(has(c, lambda y: y[0] == "attr" and y[2] == "is_unique" or y[0] == "call" and y[1] in ("duplicated", "nunique")) for c in st.conds) else "an index with duplicate values is accepted")
    f = meth(ctx, en, "set_time_index")
    for pandas in (True, False):
        h, o = A.run(f, {"variable_id": C("t2")}, selfv=B, pandas=pandas)
        consistent("set the time index", f, h, o)
    # ---- new data
    f = meth(ctx, en, "update_data")
    for pandas in (True, False):
        new = ("fr", tuple(reversed(allcols)), (), "q" if pandas else None)
        h, o = A.run(f, {"df": new}, selfv=B, pandas=pandas)
        consistent("update the data", f, h, o)
        want("update the data", f, o, "ok", "data with the same columns is refused")
        for k, st, v in o:
            if k == "ok":
                note("kept", "update the data", f, None if cols(h, st, "base") == tuple(x[2] for x in h.get(st, B, "variables")[1]) else "columns are not stored in the order of the variables")
                note("kept", "update the data", f, None if row_ops(h.get(st, B, "df")) == () else "rows of the new data are changed")
        for miss in (tuple(allcols[:-1]), tuple(allcols[:-1]) + ("other",), tuple(allcols) + ("other",)):
            h, o = A.run(f, {"df": ("fr", miss, (), None)}, selfv=B, pandas=pandas)
            consistent("update the data with other columns", f, h, o)
            want("update the data with other columns", f, o, "raise", "data with other columns is accepted")
    # ---- relationships
    f = meth(ctx, es, "add_relationship")
    newrel = ("rel", "es", "par", "pid", "base", "key")
    h, o = A.run(f, {"relationship": newrel}, selfv=S)
    consistent("add a relationship", f, h, o)
    want("add a relationship", f, o, "ok", "a relationship can no longer be added")
    for k, st, v in o:
        if k != "ok":
            continue
        note("kept", "add a relationship", f, None if newrel[2:] in rels(st) and set(RELS) <= set(rels(st)) else "the relationship is not added, or another is lost")
        note("kept", "add a relationship", f, None if tname(h.var(st, B, "key")[3]) in IDS else "the child variable does not become an id")
        note("kept", "add a relationship", f, None if tname(h.var(st, ("ent", "es", "par"), "pid")[3]) == "Index" else "the parent variable is no index")
        same = [b for c, b in st.conds.items() if has(c, lambda y: y == ("dtype", "key")) and has(c, lambda y: y == ("dtype", "pid")) and (c[0] == "call" and c[1] == "is_dtype_equal" or c[0] == "cmp" and c[1] == ("Eq",) and set(c[2]) == {("dtype", "key"), ("dtype", "pid")})]
        note("refused", "link variables of different types", f, None if same == [True] else "variables of different types are linked")
    h, o = A.run(f, {"relationship": ("rel", "es") + RELS[0]}, selfv=S)
    consistent("add a relationship again", f, h, o)
    h, o = A.run(f, {"relationship": ("rel", "es", "par", "pid", "kid", "kix")}, selfv=S)
    want("link an index as child", f, o, "raise", "the index of an entity is linked as a child")
    f = meth(ctx, rel, "__init__")
    h, o = A.run(f, {"parent_variable": ("var", ("ent", "es", "par"), "n", ("type", "Numeric")), "child_variable": ("var", B, "key", ("type", "Id"))}, selfv=("new", "rel"))
    want("relationship to a variable that is no index", f, o, "raise", "a relationship's parent variable need not be the index")
    # ---- entities
    f = meth(ctx, es, "entity_from_dataframe")
    for pandas in (True, False):
        h, o = A.run(f, {"entity_id": C("nw"), "dataframe": ("fr", ("a", "b"), (), None), "index": C("a"), "variable_types": ("dict", ())}, selfv=S, pandas=pandas)
        consistent("add an entity", f, h, o)
        want("add an entity", f, o, "ok", "an entity can no longer be added")
        for k, st, v in o:
            if k == "ok":
                note("kept", "add an entity", f, None if set(h.ents(st, "es")) == set(SCHEMA) | {"nw"} and set(rels(st)) == set(RELS) else "the entity is not added, or something else is lost")
    for tag, df, idx in (("without a linked variable", ("fr", ("a", "b"), (), None), "a"), ("under another index", ("fr", ("a", "pid"), (), None), "a")):
        h, o = A.run(f, {"entity_id": C("par"), "dataframe": df, "index": C(idx), "variable_types": ("dict", ())}, selfv=S)
        consistent("replace an entity " + tag, f, h, o)
    h, o = A.run(f, {"entity_id": C("base"), "dataframe": ("fr", ("id", "b"), (), None), "index": C("id"), "variable_types": ("dict", ())}, selfv=S)
    consistent("replace an entity without its linking variable", f, h, o)
    for k, st, v in A.run(f, {"entity_id": C("kid"), "dataframe": ("fr", ("kix", "q"), (), None), "index": C("kix"), "variable_types": ("dict", ())}, selfv=S)[1]:
        if k == "ok":
            note("kept", "replace an entity", f, None if set(rels(st)) == set(RELS) else "the relationships of the entity are lost")
    init(ctx, p, A, en, note)
    normalize(ctx, p, A, es, note, consistent, want, cols, rels, allcols)
    concat(ctx, p, A, es, note, consistent, want, cols, rels, allcols)
    for (rule, what), (f, bad) in sorted(marks.items(), key=lambda x: x[0]):
        ctx.ob(rule, what, bad is None, f.loc, "%s: %s" % (f.qual, bad))
    writers(ctx, p)


IDS = {"Id", "Index"}


def meth(ctx, c, name):
    f = c.find_method(name)
    ctx.need(f is not None, "%s.%s is gone" % (c.name, name))
    ctx.unit(f)
    return f


def world_without(r):
    w = world()
    w["@@es.relationships"] = ("list", tuple(x for x in w["@@es.relationships"][1] if x[2:] != r))
    return w


def row_ops(fr):
    return fr[2] if fr and fr[0] == "fr" else ("?",)


def init(ctx, p, A, en, note):
    """the constructor: what it is given becomes the entity"""
    f = meth(ctx, en, "__init__")
    new = ("ent", "es", "nw")
    for tag, df, idx, ti, sti, make in (
            ("index given", ("fr", ("b", "a", "t", "t2"), (), None), "a", None, (), False),
            ("time index given", ("fr", ("b", "a", "t", "t2"), (), None), "a", "t", (), False),
            ("secondary time index given", ("fr", ("b", "a", "t", "t2"), (), None), "a", "t", ((C("t2"), lst(["b"])),), False),
            ("index made", ("fr", ("b", "a"), (), None), "ix", None, (), True),
            ("index absent", ("fr", ("b", "a"), (), None), None, None, (), False)):
        for pandas in (True, False):
            env = world()
            h, o = A.run(f, {"id": C("nw"), "df": df, "entityset": ("es", "es"), "variable_types": ("dict", ((C("b"), ("name", "Numeric")),)), "index": C(idx), "time_index": C(ti),
                             "secondary_time_index": ("dict", sti), "make_index": C(make)}, selfv=new, pandas=pandas, env=env)
            what = "new entity, " + tag
            note("kept", what, f, None if any(k == "ok" for k, st, v in o) else "an entity can no longer be made")
            for k, st, v in o:
                if k != "ok":
                    continue
                st = st.bind("@@es.entities", tuple(SCHEMA) + ("nw",))
                note("consistent", what, f, inconsistent(h, st))
                d = h.get(st, new, "df")
                if d and d[0] == "fr":
                    full = set(df[1]) | ({idx} if make else set())
                    note("kept", what, f, None if set(d[1]) == full else "columns of the dataframe are lost")
                    note("kept", what, f, None if d[2] == () else "rows of the dataframe are changed")
                note("kept", what, f, None if val(h.get(st, new, "index") or NONE) == (idx or df[1][0]) else "another variable becomes the index")
                note("kept", what, f, None if val(h.get(st, new, "time_index") or NONE) == ti else "the time index is not the one given")


def normalize(ctx, p, A, es, note, consistent, want, cols, rels, allcols):
    f = meth(ctx, es, "normalize_entity")
    S, B = ("es", "es"), ("ent", "es", "base")
    base = dict(base_entity_id=C("base"), new_entity_id=C("nw"), index=C("key"))
    n = 0
    for tag, add, cop, mti, sti, extra in (
            ("split", [], [], False, None, {}),
            ("split by default", [], [], None, None, {}),
            ("split moving a variable", ["q"], ["r"], False, None, {}),
            ("split moving a linking variable", ["link"], [], None, None, {}),
            ("split with a time index", ["q"], ["r"], True, None, {}),
            ("split with a named time index", [], ["r"], True, None, {"new_entity_time_index": C("first")}),
            ("split with a moved time index", ["t2"], [], "t2", None, {}),
            ("split with a copied time index", [], ["t2"], "t2", None, {}),
            ("split with a secondary time index", ["q"], [], True, ("t2", ["dep"]), {}),
            ("split with a named secondary time index", ["q"], [], True, ("t2", ["dep"]), {"new_entity_secondary_time_index": C("second")}),
            ("split moving a dependent variable", ["dep"], [], False, None, {}),
            ("split copying a linking variable", [], ["link"], False, None, {})):
        for pandas in (True, False):
            a = dict(base, additional_variables=lst(add) if add else NONE, copy_variables=lst(cop) if cop else NONE, make_time_index=C(mti),
                     make_secondary_time_index=("dict", ((C(sti[0]), lst(sti[1])),)) if sti else NONE, **extra)
            h, o = A.run(f, a, selfv=S, pandas=pandas)
            consistent(tag, f, h, o, raised=False)
            want(tag, f, o, "ok", "the split is refused")
            for k, st, v in o:
                if k != "ok":
                    continue
                n += 1
                new = cols(h, st, "nw")
                note("kept", tag, f, None if "nw" in h.ents(st, "es") and val(h.get(st, ("ent", "es", "nw"), "index")) == "key" else "the new entity is not indexed by the variable it is split on")
                note("kept", tag, f, None if set(cols(h, st, "base")) == set(allcols) - set(add) else "the base entity does not lose exactly the variables that move")
                ti = h.get(st, ("ent", "es", "nw"), "time_index")
                moved = {mti} if isinstance(mti, str) and val(ti or NONE) != mti else set()
                note("kept", tag, f, None if set(add + cop) - moved <= set(new) else "a variable that moves is not in the new entity")
                note("kept", tag, f, None if ("nw", "key", "base", "key") in rels(st) else "the new entity is not linked to the base entity")
                kept = {(("nw", "link")) if r[2:] == ("base", "link") and "link" in add else r[2:] for r in RELS}
                note("kept", tag, f, None if {r[2:] for r in rels(st) if r[0] != "nw"} >= kept else "an existing relationship is lost")
                note("kept", tag, f, None if tname(h.var(st, B, "key")[3]) in IDS else "the variable split on is no id in the base entity")
                d = h.get(st, ("ent", "es", "nw"), "df")
                ops = row_ops(d)
                note("kept", tag, f, None if len(ops) == 1 and ops[0][0] == "dedup" and ops[0][1] == ("key",) and ops[0][2] in ("first", "last") else "the new entity does not hold one row for every value of the variable split on")
                if ops and ops[0][0] == "dedup" and mti in (True, None):
                    note("kept", tag, f, None if ops[0][2] == "first" else "the time of the new entity is not the first")
                note("kept", tag, f, None if row_ops(h.get(st, B, "df")) == () else "rows of the base entity are changed")
                if mti is False and not isinstance(mti, str):
                    note("kept", tag, f, None if ti in (None, NONE) else "a time index is made though it was not asked for")
                if mti is True or mti is None:
                    note("kept", tag, f, None if val(ti or NONE) and val(ti) in new else "no time index is made")
                if isinstance(mti, str):
                    note("kept", tag, f, None if val(ti or NONE) and val(ti) in new else "no time index is made")
                if sti:
                    s2 = h.get(st, ("ent", "es", "nw"), "secondary_time_index")
                    name = val(extra.get("new_entity_secondary_time_index", C(sti[0])))
                    okay = s2 is not None and s2[0] == "dict" and [val(x[0]) for x in s2[1]] == [name] and set(sti[1]) <= set(h.names(s2[1][0][1], st) or ())
                    note("kept", tag, f, None if okay else "the secondary time index of the new entity is not what was asked for")
    for tag, over in (("split moving the index", {"additional_variables": lst(["id"])}), ("split moving the time index", {"additional_variables": lst(["t"])}),
                      ("split into an existing entity", {"new_entity_id": C("par")}), ("split on the index", {"index": C("id")}),
                      ("split into an entity without relationships", {"new_entity_id": C("lone")}), ("split into itself", {"new_entity_id": C("base")}), ("split moving the variable split on", {"additional_variables": lst(["key"])}),
                      ("split copying the variable split on", {"copy_variables": lst(["key"])}), ("split moving a variable twice", {"additional_variables": lst(["q", "q"])})):
        a = dict(base, make_time_index=C(False))
        a.update(over)
        h, o = A.run(f, a, selfv=S)
        consistent(tag, f, h, o)
        want(tag, f, o, "raise", "it is not refused")
    ctx.stats["splits"] = n


def concat(ctx, p, A, es, note, consistent, want, cols, rels, allcols):
    f = meth(ctx, es, "concat")
    for pandas in (True,):
        for inplace in (True, False):
            env = world()
            o2 = world("other")
            for k, v in o2.items():
                if k.endswith(".df"):
                    v = ("fr", v[1], (("other",),), v[3])
                env[k] = v
            h, o = A.run(f, {"other": ("es", "other"), "inplace": C(inplace)}, selfv=("es", "es"), env=env, pandas=pandas)
            what = "concatenate" + (" in place" if inplace else "")
            res = "es" if inplace else "es~copy"
            want(what, f, o, "ok", "entity sets can no longer be concatenated")
            for k, st, v in o:
                if k != "ok":
                    continue
                if v[0] != "es" or v[1] != res:
                    note("kept", what, f, "the result is not the combined entity set")
                    continue
                w = inconsistent(h, st, res)
                note("consistent", what, f, w)
                note("kept", what, f, None if set(rels(st, res)) == set(RELS) else "a relationship is lost")
                for n in SCHEMA:
                    d = h.get(st, ("ent", res, n), "df")
                    ops = row_ops(d)
                    both = len(ops) >= 1 and ops[0][0] == "concat" and len(ops[0][1]) == 2 and set(ops[0][1]) == {(), (("other",),)}
                    idx = SCHEMA[n][1]
                    note("kept", what, f, None if both else "an entity does not get the rows of both")
                    note("kept", what, f, None if all(x[0] == "dedup" and x[1] == (idx,) for x in ops[1:]) and len(ops) <= 2 else "rows with different indexes are dropped")
                    note("kept", what, f, None if len(ops) == 2 else "rows that are in both stay twice")
                    if ops[0][0] == "concat" and len(ops[0][1]) == 2 and len(ops) > 1:
                        note("kept", what, f, None if (ops[1][2] == "first") == (ops[0][1][0] == ()) else "the other's row replaces the own")
                    if not inplace:
                        own = h.get(st, ("ent", "es", n), "df")
                        note("kept", what, f, None if own and own[0] == "fr" and own[2] == () else "the entity set itself is changed")
                    oth = h.get(st, ("ent", "other", n), "df")
                    note("kept", what, f, None if oth and oth[0] == "fr" and oth[2] == (("other",),) else "the other entity set is changed")
    # entity sets that differ
    for tag, edit in (("another variable", {"@@other.par.variables": ("list", (("var", ("ent", "other", "par"), "pid", ("type", "Index")), ("var", ("ent", "other", "par"), "m", ("type", "Numeric"))))}),
                      ("another relationship", {"@@other.relationships": ("list", (("rel", "other") + RELS[0],))}),):
        env = world()
        env.update(world("other"))
        env.update(edit)
        h, o = A.run(f, {"other": ("es", "other"), "inplace": C(True)}, selfv=("es", "es"), env=env)
        note("refused", "concatenate with " + tag, f, "entity sets that differ are concatenated" if any(k == "ok" for k, st, v in o) else None)


def writers(ctx, p):
    """who else writes the structures"""
    en, es = p.cls("Entity"), p.cls("EntitySet")
    own = {}
    for c in (en, es):
        for m in list(c.methods.values()) + list(getattr(c, "setters", {}).values()):
            own[id(m.node)] = c
    MUT = {"append", "remove", "extend", "insert", "pop", "clear", "sort", "reverse", "update", "popitem", "setdefault"}
    for attr in ("variables", "relationships", "entity_dict", "index"):
        bad = None
        n = 0
        for f in p.functions:
            c = own.get(id(f.node)) or (f.cls if f.cls is not None and f.cls.name in ("Entity", "EntitySet") else None)
            for x in ast.walk(f.node):
                hit = None
                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, (ast.Store, ast.Del)):
                    hit = x
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and x.value.attr == attr and attr != "index":
                    hit = x
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == attr and attr != "index":
                    hit = x
                if hit is None:
                    continue
                base = hit
                while isinstance(base, (ast.Call, ast.Subscript)):
                    base = base.func.value if isinstance(base, ast.Call) else base.value
                owner = base.value if isinstance(base, ast.Attribute) else None
                n += 1
                if c is not None:
                    continue
                if attr == "index" and not (isinstance(owner, ast.Name) and "entity" in owner.id and owner.id not in ("entityset",) or isinstance(owner, ast.Attribute) and "entity" in owner.attr):
                    continue        # a dataframe's or a series' index
                if isinstance(owner, ast.Name) and owner.id == "self" and f.cls is not None:
                    continue        # another class's attribute of the same name
                bad = bad or "%s:%d" % (f.module.rel, hit.lineno)
        ctx.ob("writers", attr, bad is None, bad or "", "written outside of Entity and EntitySet")
