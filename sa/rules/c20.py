"""Abstract interpretation of the joins along relationships.  The calculator is interpreted over abstract paths of relationships
(every sequence of directions up to a bound, every hop with distinct names for its two ends); a dataframe is the entity its rows
come from and, per column, where the values come from (own column, or the column of the row reached by following relationships).
Every merge, filter and grouping then has two ends whose origin is known: they have to be the two ends of the relationship being
traversed, and the column an aggregation groups by has to lead, hop by hop, to the instances it is calculated for."""
import ast
import itertools
from ..paths import Paths, Client, St, TooBig, NONE, has

TECHNIQUE = "abstract interpretation with column provenance over symbolic relationship paths (join-key typing)"
LEVEL_NOTE = "Paths of up to three hops (the naming recursion is the same at every hop); what the data library does in a merge or groupby is taken from its documentation; row values are not modelled."
MIN_INSTANCES = {"traversed": 20, "approximated": 3, "queried": 2, "chosen": 15, "looked up": 8, "ends": 8}

MEANING = {"df", "ser", "grp", "rel", "rvar", "trie", "isin", "bound", "cls"}
SEQ = {"list", "tuple", "set", "sorted", "iter", "frozenset", "reversed", "enumerate", "zip", "items", "keys", "values", "range", "len", "cfm", "dict"}
OPAQUE = {"call", "op", "cmp", "sub", "attr", "text", "comp", "other", "default", "elem", "slice"}


def plain(v):
    """a value without the details nothing here depends on"""
    if not isinstance(v, tuple) or not v:
        return v
    if isinstance(v[0], tuple):
        return tuple(plain(x) for x in v)
    if v[0] in OPAQUE and not (v[0] == "call" and v[1] in SEQ) and not has(v, lambda x: x[0] in MEANING):
        return ("?",)
    if v[0] in ("list", "tuple"):
        return (v[0], tuple(plain(x) for x in v[1]))
    if v[0] in ("set", "dict"):
        r = []
        for x in v[1]:
            x = plain(x)
            if x not in r:
                r.append(x)
        return (v[0], tuple(r))
    return v


T, F = ("const", "True"), ("const", "False")


def C(x):
    return ("const", repr(x))


def val(v):
    if v is not None and v[0] == "const":
        try:
            return ast.literal_eval(v[1])
        except (ValueError, SyntaxError):
            return None
    return None


def own(e, c):
    return ("own", e, c)


def fname(f):
    return "%s:%d%s" % (f[1][:1], f[2], ":" + f[4] if len(f) > 4 else "")


class World(object):
    """a path of relationships leaving the entity E0"""

    def __init__(self, dirs, need_full=False, twice=False, every=False):
        self.dirs, self.need_full = dirs, need_full
        self.feats = {}          # node -> features
        n = len(dirs)
        i = 0
        while i < n:
            j = i
            if dirs[i] == "F":
                self.feats.setdefault(i, []).append(("feat", "DirectFeature", i, i + 1))
                if twice:
                    self.feats[i].append(("feat", "DirectFeature", i, i + 1, "renamed"))
                j = i + 1
            else:
                while j < n and dirs[j] == "B":
                    j += 1
                for a in range(i, j):
                    for b in range(a + 1, j + 1):
                        if (a, b) == (i, j) or every:
                            self.feats.setdefault(a, []).append(("feat", "AggregationFeature", a, b))
            i = j
        self.feats.setdefault(n, []).append(("feat", "IdentityFeature", n, n))

    def parent(self, k):
        return "E%d" % (k if self.dirs[k - 1] == "F" else k - 1)

    def child(self, k):
        return "E%d" % (k - 1 if self.dirs[k - 1] == "F" else k)

    def edge(self, k):
        return ("tuple", (T if self.dirs[k - 1] == "F" else F, ("rel", k)))

    def path(self, i, j):
        return ("list", tuple(self.edge(k) for k in range(i + 1, j + 1)))

    def idx(self, e):
        return "idx_%s" % e

    def key(self, k, side):
        return self.idx(self.parent(k)) if side == "p" else "fk_%d" % k

    def chain(self, i, j):
        """the instance of Ei a row of Ej belongs to, all hops from Ei to Ej being backward"""
        x = own(self.child(i + 1), self.key(i + 1, "c"))
        for k in range(i + 2, j + 1):
            x = ("hop", k, x)
        return x

    def forward(self, n):
        """the instance of En a row of E0 leads to"""
        x = own(self.child(n), self.key(n, "c"))
        for k in range(n - 1, 0, -1):
            x = ("hop", k, x)
        return x


class Joins(Client):
    max_depth = 40
    recursive = True
    ordered = True

    def __init__(self, p, w, cls):
        self.p, self.w, self.cls = p, w, cls
        self.pre, self.evs = False, set()

    # ---- events
    def note(self, st, *ev):
        self.evs.add(ev)
        return st

    def keep(self, st):
        s = St({}, (), {})
        for k, v in st.env.items():
            v = plain(v)
            s.env[k] = v
        return s

    def enter(self, f):
        return f.name not in ("is_instance", "import_or_none")

    # ---- dataframes: ("df", entity, ((column, origin), ...), origin of the index)
    def col(self, df, name):
        for n, x in df[2]:
            if n == name:
                return x
        if isinstance(name, str) and name.startswith("D:"):
            return None
        return own(df[1], name) if df[1] is not None and isinstance(name, str) else None

    def frame(self, e):
        return ("df", e, (), own(e, self.w.idx(e)))

    def canon(self, x):
        return own("E0", self.w.idx("E0")) if x == own("CUT", "instance_id") else x

    def through(self, left, right):
        """the step from a row of one side to a row of the other, the values given being equal"""
        left, right = self.canon(left), self.canon(right)
        if left == right:
            return lambda x: x
        if left is None or right is None:
            return None
        for k in range(1, len(self.w.dirs) + 1):
            if right == own(self.w.parent(k), self.w.key(k, "p")):
                c = own(self.w.child(k), self.w.key(k, "c"))
                if left == c:
                    return lambda x: ("hop", k, x)
                y = left
                while y[0] == "hop":
                    y = y[2]
                if y == c:
                    def deep(x, left=left):
                        return ("hop", left[1], deep(x, left[2])) if left[0] == "hop" else ("hop", k, x)
                    return deep
        return None

    def merge(self, paths, e, a, b, d, st, loc):
        def end(side, df):
            on = d.get("on", d.get(side + "_on"))
            if on is None:
                return ("index",), df[3]
            n = val(on)
            if on[0] in ("list", "tuple") and len(on[1]) == 1:
                n = val(on[1][0])
            if n is None:
                return None, on[1] if on[0] == "ser" else None
            return n, self.col(df, n)
        if a[0] != "df" or b[0] != "df":
            if a[0] in MEANING or b[0] in MEANING:
                st = self.note(st, "unknown", loc)
            return st, a if a[0] == "df" else ("call", "merge", a, (b,), (), loc)
        ln, left = end("left", a)
        rn, right = end("right", b)
        for n, x, df in ((ln, left, a), (rn, right, b)):
            if isinstance(n, str) and x is None:
                st = self.note(st, "missing", n, loc)
        step = self.through(left, right)
        if step is None:
            st = self.note(st, "agg", left, right, loc)
            return st, a
        else:
            st = self.note(st, "join", left, right, loc)
        cols = dict(a[2])
        if b[1] is not None:
            st = self.note(st, "wide", b[1], loc)
        for n, x in b[2]:
            if n != rn and (n not in cols):
                cols[n] = step(x) if x is not None else None
        return st, ("df", a[1], tuple(sorted(cols.items(), key=repr)), a[3])

    # ---- values
    def names(self, v):
        if v is None:
            return None
        if v[0] == "call" and v[1] in ("list", "tuple", "set", "sorted") and v[3]:
            return self.names(v[3][0])
        if v[0] == "call" and v[1] == "keys":
            return self.names(v[2])
        if v[0] == "dict":
            return [val(x[0]) for x in v[1]]
        if v[0] in ("list", "tuple", "set"):
            return [val(x) for x in v[1]]
        return None

    def binop(self, op, a, b):
        if op == "Mod" and isinstance(val(a), str):
            parts = b[1] if b[0] == "tuple" else (b,)
            if all(isinstance(val(x), str) for x in parts):
                try:
                    return C(val(a) % tuple(val(x) for x in parts))
                except (TypeError, ValueError):
                    pass
        if op == "Add":
            if isinstance(val(a), str) and isinstance(val(b), str):
                return C(val(a) + val(b))
            if a[0] in ("list", "tuple") and b[0] in ("list", "tuple"):
                return (a[0], a[1] + b[1])
        return ("op", op, a, b)

    def text(self, parts):
        if all(isinstance(val(x), str) for x in parts):
            return C("".join(val(x) for x in parts))
        return ("text",) + tuple(parts)

    def elements(self, v, st):
        if v[0] in ("list", "tuple", "set") and not any(x and x[0] == "star" for x in v[1]):
            return v[1]
        if v[0] == "dict" and all(len(x) == 2 for x in v[1]):
            return tuple(k for k, _ in v[1])
        if v[0] == "call" and v[1] in ("list", "tuple", "sorted", "iter", "set", "frozenset") and v[2] is None and len(v[3]) == 1:
            return self.elements(v[3][0], st)
        if v[0] == "call" and v[1] == "reversed" and v[2] is None and len(v[3]) == 1:
            x = self.elements(v[3][0], st)
            return None if x is None else tuple(reversed(x))
        if v[0] == "call" and v[1] == "enumerate" and v[2] is None and v[3]:
            x = self.elements(v[3][0], st)
            return None if x is None else tuple(("tuple", (C(i), y)) for i, y in enumerate(x))
        if v[0] == "call" and v[1] == "zip" and v[2] is None:
            xs = [self.elements(x, st) for x in v[3]]
            return None if any(x is None for x in xs) else tuple(("tuple", t) for t in zip(*xs))
        if v[0] == "call" and v[1] == "items" and v[2] is not None and v[2][0] == "dict":
            return tuple(("tuple", x) for x in v[2][1] if len(x) == 2)
        if v[0] == "call" and v[1] == "range" and all(isinstance(val(x), int) for x in v[3]):
            return tuple(C(i) for i in range(*[val(x) for x in v[3]]))
        if v[0] == "op" and v[1] == "BitOr":
            a, b = self.elements(v[2], st), self.elements(v[3], st)
            return None if a is None or b is None else a + b
        return None

    def known(self, v, st):
        if v[0] == "call" and v[1] in ("is_instance", "isinstance") and v[2] is None and v[3] and v[3][0][0] in ("ser", "df"):
            kind = {"ser": "Series", "df": "DataFrame"}[v[3][0][0]]
            names = [x[2] for a in v[3][1:] for x in (a[1] if a[0] == "tuple" else (a,)) if x[0] == "attr"] + [val(x) for x in v[3][2:]]
            mods = [x[1] for a in v[3][1:] for x in (a[1] if a[0] == "tuple" else (a,)) if x[0] == "name"]
            if v[1] == "isinstance" and names and kind not in names and all(n in ("Series", "DataFrame") for n in names):
                return False
            if v[1] == "is_instance" and kind in names and "pd" in mods:
                return True
        if v[0] == "call" and v[1] == "hasattr" and v[2] is None and v[3][1] == C("__iter__") and v[3][0][0] in ("list", "tuple", "set", "ser", "feat"):
            return v[3][0][0] != "feat"
        if v[0] == "cmp" and v[1] == ("In",) and v[2][0][0] == "const" and v[2][1][0] == "dict" and all(x[0][0] == "const" for x in v[2][1][1] if len(x) == 2):
            return v[2][0] in [x[0] for x in v[2][1][1]]
        if v[0] in ("df", "rel", "trie", "feat", "ent", "ser", "es", "obj", "fset", "rvar"):
            return True
        if v[0] == "cmp" and len(v[1]) == 1:
            a, b = v[2]
            if v[1][0] == "Is" and b == NONE and a[0] in ("df", "rel", "trie", "feat", "ent", "ser", "bound", "list", "dict", "tuple", "grp"):
                return False
            if v[1][0] in ("Eq", "Is") and a[0] == "cls" and b[0] in ("name", "attr", "cls"):
                return a[1] == (b[2] if b[0] == "attr" else b[1])
            if v[1][0] in ("Eq", "Is") and b[0] == "cls":
                return self.known(("cmp", v[1], (b, a)), st)
            if v[1][0] == "In" and b[0] == "attr" and b[2] == "columns" and b[1][0] == "df" and isinstance(val(a), str):
                return True if val(a) in dict(b[1][2]) else None if val(a)[:2] not in ("D:", "A:") else False
            if v[1][0] == "In" and a[0] == "cls":
                ns = [x[1] if x[0] == "name" else x[2] if x[0] == "attr" else None for x in b[1]] if b[0] in ("list", "tuple", "set") else None
                return None if ns is None else a[1] in ns
            la, lb = self.num(a), self.num(b)
            if la is not None and lb is not None:
                return {"Eq": la == lb, "Lt": la < lb, "Gt": la > lb, "LtE": la <= lb, "GtE": la >= lb}.get(v[1][0])
        if v[0] == "call" and v[1] == "isinstance" and v[2] is None and len(v[3]) == 2 and v[3][0][0] == "feat":
            ns = [x[1] if x[0] == "name" else x[2] if x[0] == "attr" else None for x in (v[3][1][1] if v[3][1][0] == "tuple" else (v[3][1],))]
            return v[3][0][1] in ns or "FeatureBase" in ns
        n = self.num(v)
        if n is not None:
            return bool(n)
        return None

    def num(self, v):
        x = val(v)
        if isinstance(x, int) and not isinstance(x, bool):
            return x
        if v[0] == "call" and v[1] == "len" and v[2] is None and v[3][0][0] in ("list", "tuple", "dict"):
            return len(v[3][0][1])
        return None

    def attribute(self, paths, e, b, st):
        w, a = self.w, e.attr
        one = lambda v: [(st, v)]
        if b == ("obj", "calc"):
            if a in ("entityset",):
                return one(("es",))
            if a == "feature_set":
                return one(("fset",))
            if a == "precalculated_features":
                return one(("trie", "pre", ()))
            if self.cls.find_method(a) is not None:
                return one(("bound", a))
        if b[0] == "fset":
            if a == "feature_trie":
                return one(("trie", "feat", ()))
            if a == "target_eid":
                return one(C("E0"))
            if a == "target_features":
                return one(("list", tuple(w.feats.get(0, ()))))
            if a == "features_by_name":
                return one(("byname",))
            if a == "approximate_feature_trie":
                return one(("list", (("tuple", (w.path(0, len(w.dirs)), ("set", (C("approx"),)))),)))
        if b[0] == "rel":
            k = b[1]
            if a in ("parent_variable", "child_variable"):
                return one(("rvar", k, a[0]))
            if a in ("_parent_variable_id", "_child_variable_id"):
                return one(C(w.key(k, a[1])))
            if a in ("parent_entity", "child_entity"):
                return one(("ent", w.parent(k) if a[0] == "p" else w.child(k)))
            if a in ("_parent_entity_id", "_child_entity_id"):
                return one(C(w.parent(k) if a[1] == "p" else w.child(k)))
            if a in ("parent_name", "child_name"):
                return one(C("%s[fk_%d]" % (w.parent(k) if a[0] == "p" else w.child(k), k)))
            if a == "entityset":
                return one(("es",))
        if b[0] == "rvar":
            if a in ("id", "name"):
                return one(C(w.key(b[1], b[2])))
            if a == "entity":
                return one(("ent", w.parent(b[1]) if b[2] == "p" else w.child(b[1])))
            if a == "entity_id":
                return one(C(w.parent(b[1]) if b[2] == "p" else w.child(b[1])))
        if b[0] == "ent":
            if a == "id":
                return one(C(b[1]))
            if a == "index":
                return one(C(w.idx(b[1])))
            if a == "df":
                return one(self.frame(b[1]))
        if b[0] == "feat":
            if a == "relationship_path":
                return one(w.path(b[2], b[3]))
            if a == "base_features":
                return one(("list", (("feat", "IdentityFeature", b[3], b[3]),)))
            if a == "entity":
                return one(("ent", "E%d" % b[2]))
            if a == "parent_entity" or a == "child_entity":
                return one(("ent", "E%d" % b[3]))
        if b[0] == "trie" and a == "value":
            if b[1] == "feat":
                i = len(b[2])
                fs = ("set", tuple(C("name:%d:%d" % (i, j)) for j in range(len(w.feats.get(i, ())))))
                return one(("tuple", (T, fs, ("set", ())) if w.need_full else (F, ("set", ()), fs)))
            if b[1] == "pre":
                i = len(b[2])
                pre = ("df", None, tuple((fname(x), ("value",)) for x in w.feats.get(i, ()) if x[1] != "IdentityFeature"), own("E%d" % i, w.idx("E%d" % i)))
                return [(st, pre if self.pre else NONE)]
            return one(st.env.get("@@%s|%r" % (b[1], b[2]), NONE))
        if b[0] == "df" and a in ("loc", "iloc"):
            return one(b)
        if b[0] == "df" and a == "index":
            return one(("ser", b[3]))
        if b[0] == "ser" and a in ("values", "index", "array"):
            return one(b)
        return None

    def store(self, paths, t, b, v, st):
        if b[0] == "trie" and t.attr == "value":
            if v[0] == "call" and v[1] == "cfm":
                st = self.note(st, "approx", b[2], v[2])
            return [st.bind("@@%s|%r" % (b[1], b[2]), v)]
        if b[0] == "df" and t.attr == "index" and isinstance(t.value, ast.Name):
            return [st.bind(t.value.id, b[:3] + (v[1] if v[0] == "ser" else None,))]
        return [st]

    def subscript(self, paths, e, b, k, st):
        if b[0] == "es" and isinstance(val(k), str):
            return [(st, ("ent", val(k)))]
        if b[0] == "byname" and isinstance(val(k), str) and val(k).startswith("name:"):
            return [(st, self.feature(k))]
        if b[0] == "dict":
            for kk, x in [x for x in b[1] if len(x) == 2]:
                if kk == k or k[0] == "cls" and (kk[0] == "name" and kk[1] == k[1] or kk[0] == "attr" and kk[2] == k[1]):
                    return [(st, x)]
            return None
        if b[0] in ("list", "tuple") and k[0] == "slice":
            lim = [None if x == NONE else val(x[2]) * -1 if x[0] == "op" and x[1] == "USub" and isinstance(val(x[2]), int) else val(x) if isinstance(val(x), int) else "?" for x in k[1:]]
            if "?" not in lim:
                return [(st, (b[0], b[1][slice(*lim)]))]
        if b[0] in ("list", "tuple") and k[0] == "op" and k[1] == "USub" and isinstance(val(k[2]), int):
            try:
                return [(st, b[1][-val(k[2])])]
            except IndexError:
                return None
        if b[0] == "df":
            n = val(k)
            if isinstance(n, str):
                x = self.col(b, n)
                if x is None:
                    return [(self.note(st, "missing", n, paths.loc(e)), ("ser", None))]
                return [(st, ("ser", x))]
            ns = self.names(k)
            if ns is not None:
                if all(isinstance(x, str) for x in ns):
                    cols = []
                    for x in ns:
                        o = self.col(b, x)
                        if o is None:
                            st = self.note(st, "missing", x, paths.loc(e))
                        cols.append((x, o))
                    return [(st, ("df", None, tuple(sorted(set(cols), key=repr)), b[3]))]
                return [(st, b)]
            if k[0] == "isin":
                return [(self.note(st, "filter", k[1], k[2], paths.loc(e)), b)]
            if k[0] == "tuple":
                for y in k[1]:
                    if y[0] == "isin":
                        st = self.note(st, "filter", y[1], y[2], paths.loc(e))
                return [(st, b)]
            if k[0] == "call" and k[1] in SEQ:
                return [(st, b)]
            if k[0] in ("call", "attr") and not has(k, lambda x: x[0] in ("ser", "df", "isin")):
                return [(st, ("ser", ("?", k)))]
            for x in walk(k):
                if x[0] == "isin":
                    st = self.note(st, "filter", x[1], x[2], paths.loc(e))
            return [(st, b)]
        return None

    def setitem(self, paths, t, b, k, v, st):
        if b[0] == "df" and isinstance(t.value, ast.Name) and isinstance(val(k), str):
            cols = dict(b[2])
            old = self.col(b, val(k))
            if v[0] == "ser" and v[1] != old and old is not None or old is None:
                cols[val(k)] = v[1] if v[0] == "ser" else ("value",)
                return [st.bind(t.value.id, (b[0], b[1], tuple(sorted(cols.items(), key=repr)), b[3]))]
            return [st]
        if b[0] == "dict" and isinstance(t.value, ast.Name) and t.value.id in st.env:
            items = tuple(x for x in b[1] if x[0] != k) + ((k, v),)
            return [st.bind(t.value.id, ("dict", items))]
        if b[0] in ("df", "list", "sub", "name"):
            return [st]
        return None

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        w, d, f = self.w, dict(ks), e.func
        loc = paths.loc(e)
        nxt = lambda v=NONE, s=None: [("next", st if s is None else s, v)]
        if recv == ("obj", "calc") and self.cls.find_method(name) is not None:
            fv = ("bound", name)
        if fv is not None and fv[0] == "bound" and len(paths.stack) <= self.max_depth:
            fi = self.cls.find_method(fv[1])
            return paths.enter(fi.node, fi.module, fi, ("obj", "calc"), vs, ks, st, None)
        if name == "type" and recv is None and len(vs) == 1 and vs[0][0] == "feat":
            return nxt(("cls", vs[0][1]))
        if name == "getattr" and recv is None and len(vs) >= 2 and vs[0] == ("obj", "calc") and isinstance(val(vs[1]), str):
            return nxt(("bound", val(vs[1])))
        if name == "Trie" and (fv is None):
            return nxt(("trie", loc, ()))
        if recv is not None and recv[0] == "trie":
            if name == "get_node" and vs and vs[0][0] in ("list", "tuple"):
                return nxt(("trie", recv[1], recv[2] + vs[0][1]))
            if name == "children":
                if recv[1] == "feat":
                    i = len(recv[2])
                    return nxt(("list", (("tuple", (w.edge(i + 1), ("trie", "feat", recv[2] + (w.edge(i + 1),)))),) if i < len(w.dirs) else ()))
                return nxt(("call", "children", recv, (), (), loc))
        if recv is not None and recv[0] == "es" and name == "query_by_values":
            args = dict(zip(("entity_id", "instance_vals", "variable_id"), vs))
            args.update(d)
            ent, iv, var = val(args.get("entity_id")), args.get("instance_vals", NONE), args.get("variable_id", NONE)
            if not isinstance(ent, str):
                return nxt(("?",), self.note(st, "unknown", loc))
            if iv != NONE:
                s = self.note(st, "query", ent, val(var) if var != NONE else w.idx(ent), iv[1] if iv[0] == "ser" else iv, loc)
            else:
                s = self.note(st, "all", ent, loc)
            return nxt(self.frame(ent), s)
        if recv is not None and recv[0] == "fset" and name == "group_features":
            els = self.elements(vs[0], st) if vs else None
            if els is None:
                return nxt(("?",), self.note(st, "unknown", loc))
            groups = {}
            for x in els:
                groups.setdefault(self.feature(x)[:4], []).append(self.feature(x))
            return nxt(("list", tuple(("list", tuple(g)) for g in groups.values())))
        if recv is not None and recv[0] == "feat":
            if name == "get_name":
                return nxt(C(fname(recv)))
            if name == "get_feature_names":
                return nxt(("list", (C(fname(recv)),)))
        if name == "calculate_feature_matrix":
            args = dict(zip(("features", "entityset", "cutoff_time"), vs))
            args.update(d)
            ct = args.get("cutoff_time", NONE)
            return nxt(("call", "cfm", (self.col(ct, "instance_id") or ("no column",)) if ct[0] == "df" else ("?",), (), (), loc))
        if name == "gen_empty_approx_features_df":
            return nxt(("call", "empty", None, (), (), loc))
        # ---- dataframes
        if name == "merge" and (recv is None or recv[0] != "df"):
            a, b = d.get("left", vs[0] if vs else NONE), d.get("right", vs[1] if len(vs) > 1 else NONE)
            s, v = self.merge(paths, e, a, b, d, st, loc)
            return nxt(v, s)
        if recv is not None and recv[0] == "df":
            r = recv
            if name == "merge":
                s, v = self.merge(paths, e, r, d.get("right", vs[0] if vs else NONE), d, st, loc)
                return nxt(v, s)
            if name == "join" and vs:
                b = vs[0]
                dd = {"left_on": d["on"]} if "on" in d else {}
                s, v = self.merge(paths, e, r, b, dd, st, loc)
                return nxt(v, s)
            if name == "rename":
                m = d.get("columns", NONE)
                if m[0] == "dict":
                    cols = dict(r[2])
                    for k, x in m[1]:
                        if isinstance(val(k), str) and isinstance(val(x), str) and val(k) != val(x):
                            o = self.col(r, val(k))
                            if o is None:
                                continue
                            cols.pop(val(k), None)
                            cols[val(x)] = o
                    v = ("df", r[1], tuple(sorted(cols.items(), key=repr)), r[3])
                    return self.result(f, d, v, st)
                return nxt(r)
            if name == "set_index":
                k = vs[0] if vs else d.get("keys", NONE)
                n = val(k)
                x = k[1] if k[0] == "ser" else self.col(r, n) if isinstance(n, str) else None
                s = self.note(st, "missing", n, loc) if isinstance(n, str) and x is None else st
                return self.result(f, d, r[:3] + (x,), s)
            if name == "reset_index":
                return self.result(f, d, r, st)
            if name == "groupby":
                k = vs[0] if vs else d.get("by", NONE)
                if k[0] in ("list", "tuple") and len(k[1]) == 1:
                    k = k[1][0]
                n = val(k)
                x = k[1] if k[0] == "ser" else self.col(r, n) if isinstance(n, str) else ("?", k)
                s = self.note(st, "missing", n, loc) if isinstance(n, str) and x is None else st
                return nxt(("grp", r, x), s)
            if name in ("copy", "to_frame", "compute", "persist"):
                return nxt(r)
            if name == "get" and vs and isinstance(val(vs[0]), str):
                return nxt(("ser", self.col(r, val(vs[0]))))
            if isinstance(f, ast.Attribute):
                return self.result(f, d, r, st)
        if recv is not None and recv[0] == "grp":
            return nxt(recv[1][:3] + (recv[2],))
        if recv is not None and recv[0] == "ser":
            if name == "isin" and vs:
                return nxt(("isin", recv[1], vs[0][1] if vs[0][0] == "ser" else vs[0]))
            if name == "to_frame":
                n = val(d.get("name", vs[0] if vs else NONE)) or (recv[2] if len(recv) > 2 else recv[1][2] if recv[1] is not None and recv[1][0] == "own" else None)
                return nxt(("df", None, ((n or "?", recv[1]),), None))
            if name == "rename" and vs and isinstance(val(vs[0]), str):
                return self.result(f, d, recv[:2] + (val(vs[0]),), st)
            if name in ("unique", "drop_duplicates", "dropna", "rename", "copy", "astype", "tolist", "to_list", "compute", "persist", "head", "sort_values", "reset_index"):
                return nxt(recv)
        if name in ("list", "set", "tuple", "unique", "Series", "array", "asarray") and len(vs) == 1 and vs[0][0] == "ser":
            return nxt(vs[0])
        if recv is not None and recv[0] == "dict" and name == "get" and vs and all(x[0][0] == "const" for x in recv[1] if len(x) == 2) and vs[0][0] == "const":
            hit = [x[1] for x in recv[1] if x[0] == vs[0]]
            return nxt(hit[-1] if hit else vs[1] if len(vs) > 1 else NONE)
        if recv is not None and recv[0] == "dict" and name == "get" and vs and vs[0][0] == "cls":
            r = self.subscript(paths, e, recv, vs[0], st)
            return nxt(r[0][1]) if r else nxt(vs[1] if len(vs) > 1 else NONE)
        if recv is not None and recv[0] == "dict" and name == "setdefault" and len(vs) == 2 and isinstance(f.value, ast.Name) and all(x[0][0] == "const" for x in recv[1]):
            hit = [x[1] for x in recv[1] if x[0] == vs[0]]
            return nxt(hit[-1]) if hit else [("next", st.bind(f.value.id, ("dict", recv[1] + ((vs[0], vs[1]),))), vs[1])]
        if name == "dict" and recv is None and len(vs) == 1 and vs[0][0] == "dict":
            return nxt(vs[0])
        if name == "dict" and recv is None and len(vs) == 1 and self.elements(vs[0], st) is not None:
            it = self.elements(vs[0], st)
            if all(x[0] == "tuple" and len(x[1]) == 2 for x in it):
                return nxt(("dict", tuple(x[1] for x in it)))
        if name == "list" and recv is None and not vs:
            return nxt(("list", ()))
        if name in ("list", "tuple", "reversed", "iter") and recv is None and fv is None and len(vs) == 1:
            it = self.elements(vs[0], st) if name != "reversed" else self.elements(("call", "reversed", None, vs, (), loc), st)
            if it is not None:
                return nxt(("tuple" if name == "tuple" else "list", tuple(it)))
        if name == "next" and recv is None and vs and self.elements(vs[0], st):
            return nxt(self.elements(vs[0], st)[0])
        if name == "join" and recv is not None and isinstance(val(recv), str) and vs and vs[0][0] in ("list", "tuple") and all(isinstance(val(x), str) for x in vs[0][1]):
            return nxt(C(val(recv).join(val(x) for x in vs[0][1])))
        if name == "format" and recv is not None and isinstance(val(recv), str) and all(isinstance(val(x), str) for x in list(vs) + list(d.values())):
            try:
                return nxt(C(val(recv).format(*[val(x) for x in vs], **{k: val(x) for k, x in d.items()})))
            except (IndexError, KeyError, ValueError):
                pass
        return None

    def feature(self, v):
        """the feature a name of the feature trie stands for"""
        n = val(v)
        if isinstance(n, str) and n.startswith("name:"):
            i, j = n.split(":")[1:]
            return self.w.feats[int(i)][int(j)]
        return v

    def result(self, f, d, v, st):
        if d.get("inplace") == T and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in st.env:
            return [("next", st.bind(f.value.id, v), NONE)]
        return [("next", st, v)]


def walk(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def method(ctx, c, name):
    f = c.find_method(name) if c is not None else None
    ctx.need(f is not None, "no %s.%s" % (c.name if c is not None else "?", name))
    return f


def interpret(ctx, p, w, cls, f, args, selfv, pre=False):
    h = Joins(p, w, cls)
    h.pre = pre
    env = {}
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if selfv is not None:
        env[names[0]] = selfv
        names = names[1:]
    for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        env[x] = C(d.value) if isinstance(d, ast.Constant) else ("default", ast.unparse(d))
    env.update(args)
    try:
        outs = Paths(p, h, 400000).run(f.module, f.node, f, env)
    except TooBig:
        ctx.need(False, "too many paths in %s" % f.qual)
        return set(), []
    return h.evs, outs


def show(x):
    if x is None:
        return "nothing known"
    if x[0] == "own":
        return "%s.%s" % x[1:]
    if x[0] == "hop":
        return "%s, of the parent over relationship %s" % (show(x[2]), x[1])
    return str(x)[:80]


def traverse(ctx, p, cls, run, dirs, need_full, pre, twice=False):
    w = World(dirs, need_full, twice, every=not need_full)
    evs, outs = interpret(ctx, p, w, cls, run, {"instance_ids": ("ids",)}, ("obj", "calc"), pre)
    what = "path %s%s%s" % (dirs, " (whole entity)" if need_full else "", " with precalculated values" if pre else "")
    ends = {}
    for k in range(1, len(dirs) + 1):
        par, ch = (w.parent(k), w.key(k, "p")), (w.child(k), w.key(k, "c"))
        src, dst = (ch, par) if dirs[k - 1] == "F" else (par, ch)
        ends[k] = (dst, own(*src))
    allowed = {(("E0", w.idx("E0")), ("ids",))} | set(ends.values())
    got, bad = set(), []
    for ev in evs:
        if ev[0] == "query":
            pair = ((ev[1], ev[2]), ev[3])
            got.add(pair)
            if pair not in allowed:
                bad.append("%s is looked up by %s with the values of %s (%s)" % (ev[1], ev[2], show(ev[3]), ev[4]))
        elif ev[0] == "filter" and ev[1] is not None and ev[1][0] == "own":
            pair = ((ev[1][1], ev[1][2]), ev[2])
            got.add(pair)
            if pair not in allowed:
                bad.append("the rows of %s are restricted to those whose %s is in %s (%s)" % (ev[1][1], ev[1][2], show(ev[2]), ev[3]))
        elif ev[0] == "missing":
            bad.append("column %r is used but no join provides it (%s)" % (ev[1], ev[2]))
        elif ev[0] == "unknown":
            bad.append("a lookup whose entity cannot be determined (%s)" % ev[1])
    for k, pair in ends.items():
        if pair not in got and not bad:
            bad.append("relationship %d is not followed from %s to %s.%s" % (k, show(pair[1]), pair[0][0], pair[0][1]))
    # joins
    want_agg = {}
    for i, fs in w.feats.items():
        for fkind, name, a, b in [x[:4] for x in fs]:
            if name == "AggregationFeature":
                want_agg[(own("E%d" % a, w.idx("E%d" % a)), w.chain(a, b))] = (a, b)
    seen = set()
    direct = set()
    for ev in evs:
        if ev[0] == "agg":
            if (ev[1], ev[2]) in want_agg:
                seen.add((ev[1], ev[2]))
            else:
                bad.append("%s is matched with %s (%s), the two ends of no relationship of the path" % (show(ev[1]), show(ev[2]), ev[3]))
        if ev[0] == "join":
            direct.add((ev[1], ev[2]))
    for pair in want_agg:
        if pair not in seen and not bad and not pre:
            bad.append("aggregated values over %d hop(s) are not matched with the rows they belong to" % (want_agg[pair][1] - want_agg[pair][0]))
    for i, fs in w.feats.items():
        for fkind, name, a, b in [x[:4] for x in fs]:
            if name == "DirectFeature":
                if (own(w.child(b), w.key(b, "c")), own(w.parent(b), w.key(b, "p"))) not in direct and not bad and not pre:
                    bad.append("values of the parent over relationship %d are not matched with its children" % b)
    if not any(k != "raise" for k, st, v in outs):
        bad.append("no path computes anything")
    return what, sorted(set(bad))


def check(ctx):
    p = ctx.p
    calc = p.cls("FeatureSetCalculator")
    ctx.need(calc is not None, "no FeatureSetCalculator")
    run = method(ctx, calc, "run")
    ctx.unit(*[f for f in calc.methods.values()])
    for n in (1, 2, 3):
        for dirs in itertools.product("BF", repeat=n):
            dirs = "".join(dirs)
            for need_full in (False, True):
                for pre in (False, True) if n == 1 else (False,):
                    for twice in (False, True) if dirs == "F" and not pre else (False,):
                        what, bad = traverse(ctx, p, calc, run, dirs, need_full, pre, twice)
                        if twice:
                            what += " with two features of one column"
                        ctx.ob("traversed", what, not bad, "%s:%d" % (run.module.rel, run.node.lineno), "; ".join(bad[:3]))
    last_times(ctx, p)
    approximated(ctx, p, calc)
    queries(ctx, p)
    ends(ctx, p)


def last_times(ctx, p):
    """the children's last times are put on their parents by the relationship's own child variable"""
    from . import c27
    f = p.cls("EntitySet").find_method("add_last_time_indexes")
    if f is None:
        return
    ctx.unit(f)
    try:
        outs = Paths(p, c27.Lti(f), 400000).run(f.module, f.node, f)
    except TooBig:
        ctx.stats["last times"] = "too many paths"
        return
    bad, n = None, 0
    for k, st, v in outs:
        for e in st.trace:
            if e[0] != "lti" or e[2] == NONE:
                continue
            x = c27.Domain(e[4]).of(e[2])
            for a in x.all if isinstance(x, c27.Frame) else x.has:
                if a[0] == "link":
                    n += 1
                    if c27.foreign(a):
                        bad = e[3]
    if n:
        ctx.ob("traversed", "last time indexes", bad is None, bad or "%s:%d" % (f.module.rel, f.node.lineno),
               "the last times of the children are put on the parents through a column that is not the relationship's own child variable")


def approximated(ctx, p, calc):
    """the instances approximated features are calculated for are those the path leads to, and the values are stored under it"""
    fs = p.func_by_name("approximate_features")
    ctx.need(len(fs) == 1, "no single approximate_features")
    f = fs[0]
    ctx.unit(f)
    for n in (1, 2, 3):
        w = World("F" * n)
        args = {}
        kinds = {"feature_set": ("fset",), "entityset": ("es",), "cutoff_time": ("df", "CUT", (), None)}
        for x in f.node.args.args:
            args[x.arg] = kinds.get(x.arg, ("param", x.arg))
        evs, outs = interpret(ctx, p, w, calc, f, args, None)
        bad = []
        want = (w.path(0, n)[1], w.forward(n))
        got = [ev[1:] for ev in evs if ev[0] == "approx"]
        for path, x in got:
            if path != want[0]:
                bad.append("the values are stored under another path")
            x = x[0] if x and isinstance(x[0], tuple) else x
            if x != want[1]:
                bad.append("calculated for %s instead of %s" % (show(x), show(want[1])))
        for ev in evs:
            if ev[0] == "missing":
                bad.append("column %r is used but no join provides it (%s)" % (ev[1], ev[2]))
            if ev[0] == "agg":
                bad.append("%s is matched with %s (%s)" % (show(ev[1]), show(ev[2]), ev[3]))
        if not got and not bad:
            bad.append("nothing is calculated and stored for the path")
        ctx.ob("approximated", "path of %d hop(s)" % n, not bad, "%s:%d" % (f.module.rel, f.node.lineno), "; ".join(sorted(set(bad))[:3]))


def queries(ctx, p):
    """a query by values restricts the variable it was given (by default the index) to those values"""
    es = p.cls("EntitySet")
    f = method(ctx, es, "query_by_values")
    ctx.unit(f)
    w = World("B")
    for what, var, name in (("by a variable", C("fk_1"), "fk_1"), ("by the index", NONE, w.idx("E1"))):
        evs, outs = interpret(ctx, p, w, es, f, {"entity_id": C("E1"), "instance_vals": ("ser", ("asked",)), "variable_id": var}, ("es",))
        got = set()
        for ev in evs:
            if ev[0] == "filter":
                got.add((ev[1], ev[2]))
            if ev[0] in ("join", "agg"):
                got.add((ev[1], ev[2]))
        lost = [ev[1] for ev in evs if ev[0] == "missing"]
        ok = got and not lost and all(a == own("E1", name) and has(("v", b), lambda x: x == ("asked",)) for a, b in got)
        ctx.ob("queried", what, ok, "%s:%d" % (f.module.rel, f.node.lineno), "; ".join("%s is compared with %s" % (show(a), show(b)) for a, b in sorted(got, key=repr)) + "".join("; no column %r" % x for x in lost) if got else "no row is selected by the values")


class Graph(World):
    """entities linked by several relationships: number -> (parent, child)"""

    def __init__(self, rels):
        self.rels, self.dirs, self.feats, self.need_full = rels, "F" * len(rels), {}, False

    def parent(self, k):
        return self.rels[k][0]

    def child(self, k):
        return self.rels[k][1]


class Made(Joins):
    """features being constructed and paths being looked for in a given graph"""

    def keep(self, st):
        return st

    def __init__(self, p, w, cls):
        Joins.__init__(self, p, w, cls)
        self.count = 0
        self.es = p.cls("EntitySet")

    def elements(self, v, st):
        if v[0] == "sref":
            return st.env["@@" + v[1]][1]
        if v[0] == "op" and v[1] == "BitOr" and v[2][0] == "sref":
            return self.elements(v[2], st) + (self.elements(v[3], st) or ())
        return Joins.elements(self, v, st)

    def known(self, v, st):
        if v[0] == "sref":
            return bool(st.env["@@" + v[1]][1])
        if v[0] == "cmp" and v[1] == ("In",) and v[2][0][0] == "const" and v[2][1][0] in ("sref", "op") and self.elements(v[2][1], st) is not None:
            return v[2][0] in self.elements(v[2][1], st)
        if v[0] == "op" and v[1] == "Not":
            x = val(v[2])
            x = self.known(v[2], st) if v[2][0] != "const" else bool(x)
            return None if x is None else not x
        if v[0] == "call" and v[1] in ("all", "any") and v[2] is None and self.elements(v[3][0], st) is not None:
            xs = [bool(val(x)) if x[0] == "const" else self.known(x, st) for x in self.elements(v[3][0], st)]
            if None not in xs:
                return all(xs) if v[1] == "all" else any(xs)
        if v[0] == "cmp" and v[1] == ("In",) and v[2][0][0] == "const" and v[2][1][0] in ("set", "list", "tuple") and all(x[0] == "const" for x in v[2][1][1]):
            return v[2][0] in v[2][1][1]
        if v[0] == "cmp" and len(v[1]) == 1 and v[1][0] in ("Eq", "Is") and all(x[0] in ("ent", "rel", "es") for x in v[2]):
            return v[2][0] == v[2][1]
        if v[0] in ("list", "tuple", "set") and not v[1]:
            return False
        return Joins.known(self, v, st)

    def attribute(self, paths, e, b, st):
        a = e.attr
        if b == ("obj", "new"):
            if "@@self." + a in st.env:
                return [(st, st.env["@@self." + a])]
            return [(st, ("bound", a))] if self.cls.find_method(a) is not None else None
        if b[0] == "feat" and a == "entity":
            return [(st, ("ent", b[2]))]
        if b[0] == "feat" and a == "number_output_features":
            return [(st, C(1))]
        if b[0] == "ent" and a == "entityset":
            return [(st, ("es",))]
        if b == ("es",):
            if a == "relationships":
                return [(st, ("list", tuple(("rel", k) for k in sorted(self.w.rels))))]
            if a == "metadata":
                return [(st, b)]
        return Joins.attribute(self, paths, e, b, st)

    def store(self, paths, t, b, v, st):
        if b == ("obj", "new"):
            return [st.bind("@@self." + t.attr, v)]
        return Joins.store(self, paths, t, b, v, st)

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        f, d = e.func, dict(ks)
        if name in ("_check_feature", "RelationshipPath", "list", "iter", "tuple") and recv is None and len(vs) == 1 and vs[0][0] in ("feat", "list"):
            return [("next", st, vs[0])]
        if name == "set" and recv is None and not vs or recv is not None and recv[0] == "sref" and name in ("copy", "union") or name == "set" and recv is None and vs[0][0] == "sref":
            old = recv if recv is not None else vs[0] if vs else None
            items = st.env["@@" + old[1]][1] if old is not None else ()
            if name == "union":
                items += self.elements(vs[0], st) or ()
            self.count += 1
            new = "set%d" % self.count
            return [("next", st.bind("@@" + new, ("set", items)), ("sref", new))]
        if recv is not None and recv[0] == "sref" and name == "add":
            return [("next", st.bind("@@" + recv[1], ("set", st.env["@@" + recv[1]][1] + (vs[0],))), NONE)]
        if recv is not None and recv[0] in ("set", "list", "dict") and name == "copy":
            return [("next", st, recv)]
        if name == "next" and recv is None and vs and vs[0][0] == "list":
            if not vs[0][1]:
                return [("next", st, vs[1])] if len(vs) > 1 else [("raise", st, ("new", "StopIteration", paths.loc(e)))]
            s = st.bind(e.args[0].id, ("list", vs[0][1][1:])) if isinstance(e.args[0], ast.Name) else st
            return [("next", s, vs[0][1][0])]
        if name == "__init__" and recv is not None and recv[0] == "call" and recv[1] == "super":
            self.evs.add(("made", d.get("entity", vs[0] if vs else NONE), d.get("relationship_path", vs[2] if len(vs) > 2 else NONE)))
            return [("next", st, NONE)]
        target = None
        if recv == ("es",):
            target = self.es.find_method(name)
        elif recv == ("obj", "new") or fv is not None and fv[0] == "bound":
            target = self.cls.find_method(fv[1] if fv is not None else name)
            recv = ("obj", "new")
        if target is not None and len(paths.stack) < self.max_depth:
            outs = paths.enter(target.node, target.module, target, recv, vs, ks, st, None)
            if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(target.node)):
                return outs
            r = []
            for k, n, v in outs:
                got = [x[1] for x in n.trace[len(st.trace):] if x[0] == "yield"]
                more = [y for x in got for y in (x[1] if x[0] == "from" else (x,))]
                n = n.copy()
                n.trace = st.trace
                r.append((k, n, v if k == "raise" else ("list", tuple(more))))
            return r
        return Joins.call(self, paths, e, name, fv, recv, vs, ks, st)


def made(ctx, p, cls, f, rels, args, selfv=("obj", "new")):
    h = Made(p, Graph(rels), cls)
    env = {f.node.args.args[0].arg: selfv}
    a = f.node.args
    names = [x.arg for x in a.args]
    for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        env[x] = C(d.value) if isinstance(d, ast.Constant) else ("default", ast.unparse(d))
    for x in names[1:]:
        env.setdefault(x, ("param", x))
    env.update({k: v for k, v in args.items() if k in names})
    try:
        outs = Paths(p, h, 200000).run(f.module, f.node, f, env)
    except TooBig:
        h.evs.add(("endless",))
        return h.evs, []
    return h.evs, outs


def edges(forward, *ks):
    return ("list", tuple(("tuple", (T if forward else F, ("rel", k))) for k in ks))


def ends(ctx, p):
    es = p.cls("EntitySet")
    # ---- which relationships a feature is built over
    one, two, hop, none = {1: ("Y", "X")}, {1: ("Y", "X"), 2: ("Y", "X")}, {1: ("Y", "Z"), 2: ("Z", "X")}, {1: ("Y", "Z")}
    routes = {1: ("Y", "Z"), 2: ("Z", "X"), 3: ("Y", "X")}
    cases = [("DirectFeature", "the only relationship", one, None, edges(True, 1)),
             ("DirectFeature", "two relationships, none given", two, None, None),
             ("DirectFeature", "two relationships, the second given", two, ("rel", 2), edges(True, 2)),
             ("DirectFeature", "two relationships, the first given", two, ("rel", 1), edges(True, 1)),
             ("DirectFeature", "a relationship of another parent given", {1: ("Y", "X"), 2: ("Z", "X")}, ("rel", 2), None),
             ("DirectFeature", "a relationship of another child given", {1: ("Y", "X"), 2: ("Y", "Z")}, ("rel", 2), None),
             ("DirectFeature", "the opposite relationship given", {1: ("Y", "X"), 2: ("X", "Y")}, ("rel", 2), None),
             ("DirectFeature", "no relationship", none, None, None),
             ("AggregationFeature", "the only relationship", one, None, edges(False, 1)),
             ("AggregationFeature", "the only path, two hops", hop, None, edges(False, 1, 2)),
             ("AggregationFeature", "two relationships, none given", two, None, None),
             ("AggregationFeature", "two routes, none given", routes, None, None),
             ("AggregationFeature", "two relationships, the second given", two, edges(False, 2), edges(False, 2)),
             ("AggregationFeature", "two routes, the longer given", routes, edges(False, 1, 2), edges(False, 1, 2)),
             ("AggregationFeature", "a path that ends elsewhere", {1: ("Y", "Z"), 2: ("Y", "X")}, edges(False, 1), None),
             ("AggregationFeature", "a path that starts elsewhere", {1: ("Z", "X"), 2: ("Y", "X")}, edges(False, 1), None),
             ("AggregationFeature", "a forward path", one, edges(True, 1), None),
             ("AggregationFeature", "no relationship", none, None, None)]
    for cname, what, rels, given, want in cases:
        cls = p.cls(cname)
        f = method(ctx, cls, "__init__")
        ctx.unit(f)
        base = ("feat", "IdentityFeature", "Y" if cname == "DirectFeature" else "X", 0)
        args = {"base_feature": base, "base_features": ("list", (base,)), "child_entity": ("ent", "X"), "parent_entity": ("ent", "Y"),
                "where": NONE, "use_previous": NONE}
        if given is not None:
            args["relationship"] = args["relationship_path"] = given
        evs, outs = made(ctx, p, cls, f, rels, args)
        ok = any(k != "raise" for k, st, v in outs)
        got = {ev[2] for ev in evs if ev[0] == "made"}
        if want is None:
            ctx.ob("chosen", "%s: %s" % (cname, what), not ok, "%s:%d" % (f.module.rel, f.node.lineno), "accepted, over %s" % (sorted(got, key=repr),))
        else:
            ctx.ob("chosen", "%s: %s" % (cname, what), ok and got == {want}, "%s:%d" % (f.module.rel, f.node.lineno),
                   "built over %s instead of %s" % (sorted(got, key=repr), want) if ok else "refused")
    # ---- the relationships of an entity
    g = {1: ("Y", "X"), 2: ("Y", "X"), 3: ("X", "W"), 4: ("V", "Y")}

    def rl(*ks):
        return ("list", tuple(("rel", k) for k in ks))

    def ep(forward, *xs):
        return ("list", tuple(("tuple", (C(n), edges(forward, *ks))) for n, ks in xs))
    lookups = [("get_forward_relationships", ["X"], rl(1, 2)), ("get_backward_relationships", ["Y"], rl(1, 2)),
               ("get_forward_relationships", ["V"], rl()), ("get_backward_relationships", ["X"], rl(3)),
               ("get_forward_entities", ["X"], ep(True, ("Y", [1]), ("Y", [2]))),
               ("get_backward_entities", ["V"], ep(False, ("Y", [4]))),
               ("get_forward_entities", ["X", True], ep(True, ("Y", [1]), ("V", [1, 4]), ("Y", [2]), ("V", [2, 4]))),
               ("get_backward_entities", ["V", True], ep(False, ("Y", [4]), ("X", [4, 1]), ("W", [4, 1, 3]), ("X", [4, 2]), ("W", [4, 2, 3]))),
               ("find_forward_paths", ["W", "Y"], ("list", (rl(3, 1), rl(3, 2)))),
               ("find_backward_paths", ["Y", "W"], ("list", (rl(1, 3), rl(2, 3)))),
               ("find_forward_paths", ["Y", "W"], ("list", ()))]
    for name, args, want in lookups:
        f = method(ctx, es, name)
        ctx.unit(f)
        names = [x.arg for x in f.node.args.args][1:]
        evs, outs = made(ctx, p, es, f, g, dict(zip(names, [C(x) for x in args])), ("es",))
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        got = set()
        for k, st, v in outs:
            ys = tuple(y for ev in st.trace if ev[0] == "yield" for y in (ev[1][1] if ev[1][0] == "from" else (ev[1],)))
            got.add("error" if k == "raise" else ("list", ys) if gen else v)
        def flat(v):
            return tuple(sorted(repr(x) for x in v[1])) if isinstance(v, tuple) and v[0] == "list" else v
        ctx.ob("looked up", "%s(%s)" % (name, ", ".join(str(a) for a in args)), {flat(x) for x in got} == {flat(want)},
               "%s:%d" % (f.module.rel, f.node.lineno), "the search does not come to an end" if ("endless",) in evs else "found %s" % (sorted(got, key=repr),))
    record(ctx, p)


class Record(Client):
    """what a relationship records about the two variables it was built from"""
    recursive = True

    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.made = set()

    def attribute(self, paths, e, b, st):
        if b == ("obj", "rel"):
            if "@@rel." + e.attr in st.env:
                return [(st, st.env["@@rel." + e.attr])]
            m = self.cls.find_method(e.attr)
            if m is not None and m.is_property:
                return [(n, v) for k, n, v in paths.enter(m.node, m.module, m, b, (), (), st, None) if k != "raise"]
        if b[0] == "ent" and e.attr == "entityset":
            return [(st, ("es",))]
        if b in (("P",), ("C",)):
            if e.attr == "entity":
                return [(st, ("ent", b))]
            if e.attr == "entityset":
                return [(st, ("es",))]
            if e.attr in ("id", "name"):
                return [(st, ("id", b))]
            if e.attr == "entity_id":
                return [(st, ("id", ("ent", b)))]
        if b[0] == "ent" and e.attr == "id":
            return [(st, ("id", b))]
        return None

    def store(self, paths, t, b, v, st):
        return [st.bind("@@rel." + t.attr, v)] if b == ("obj", "rel") else [st]

    def subscript(self, paths, e, b, k, st):
        if b == ("es",) and k[0] == "id" and k[1][0] == "ent":
            return [(st, k[1])]
        if b[0] == "ent" and k[0] == "id":
            return [(st, k[1] if b[1] == k[1] else ("other variable", b, k))]
        if b[0] == "dict":
            hit = [x[1] for x in b[1] if len(x) == 2 and x[0] == k]
            return [(st, hit[-1])] if hit else None
        return None

    def call(self, paths, e, name, fv, recv, vs, ks, st):
        if fv is not None and fv[0] == "name" and fv[1] == "cls" or name in ("cls", "Relationship") and recv is None:
            d = dict(zip(("parent_variable", "child_variable"), vs))
            d.update(ks)
            self.made.add((d.get("parent_variable"), d.get("child_variable")))
            return [("next", st, ("obj", "rel"))]
        if recv is not None and recv[0] == "es" and name in ("get_forward_relationships", "get_backward_relationships"):
            return [("next", st, ("rels",))]
        return None


def record(ctx, p):
    cls = p.cls("Relationship")
    init = method(ctx, cls, "__init__")
    ctx.unit(*cls.methods.values())
    h = Record(p, cls)
    names = [x.arg for x in init.node.args.args]
    env = {names[0]: ("obj", "rel"), "parent_variable": ("P",), "child_variable": ("C",)}
    outs = Paths(p, h, 20000).run(init.module, init.node, init, env)
    heaps = [{k: v for k, v in st.env.items() if k.startswith("@@")} for k, st, v in outs if k != "raise"]
    ctx.need(heaps, "Relationship.__init__ never returns")
    want = {"parent_variable": ("P",), "child_variable": ("C",), "parent_entity": ("ent", ("P",)), "child_entity": ("ent", ("C",)), "entityset": ("es",)}
    texts = {}
    dicts = set()
    for attr in list(want) + ["parent_name", "child_name", "to_dictionary"]:
        got = set()
        m = cls.find_method(attr)
        for hp in heaps:
            if m is None:
                got.add(hp.get("@@rel." + attr))
                continue
            e = dict(hp)
            e[m.node.args.args[0].arg] = ("obj", "rel")
            for k, st, v in Paths(p, h, 20000).run(m.module, m.node, m, e):
                if k != "raise":
                    got.add(v)
        if attr in want:
            ctx.ob("ends", attr, got == {want[attr]}, "%s:%d" % ((m or init).module.rel, (m or init).node.lineno), "gives %s" % sorted(map(str, got)))
        elif attr == "to_dictionary":
            dicts = got
        else:
            texts[attr] = got
            side, other = (("P",), ("C",)) if attr == "parent_name" else (("C",), ("P",))
            ctx.ob("ends", "%s tells relationships apart" % attr, any(has(v, lambda x: x == ("id", ("C",))) and has(v, lambda x: x == ("id", ("ent", side))) for v in got)
                   and all(has(v, lambda x: x == ("id", ("ent", side))) for v in got),
                   "%s:%d" % (m.module.rel, m.node.lineno), "names %s" % sorted(map(str, got)))
    back = method(ctx, cls, "from_dictionary")
    names = [x.arg for x in back.node.args.args]
    for d in dicts:
        h.made = set()
        Paths(p, h, 20000).run(back.module, back.node, back, {names[0]: ("name", "cls"), names[1]: d, names[2]: ("es",)})
        ctx.ob("ends", "from_dictionary of to_dictionary", h.made == {(("P",), ("C",))}, "%s:%d" % (back.module.rel, back.node.lineno), "built from %s" % sorted(map(str, h.made)))
