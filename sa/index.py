"""Program index: parses every non-test module of the package under analysis and
resolves modules, imports (including ``import *`` re-exports), classes, MROs,
methods and class attributes.  Nothing of the analysed program is imported or run."""
import ast
import warnings
import os
from functools import lru_cache

warnings.filterwarnings("ignore", category=SyntaxWarning)
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "featuretools"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: the run gives no verdict."""


class Module:
    def __init__(self, name, path, src, tree, is_pkg):
        self.name, self.path, self.src, self.tree, self.is_pkg = name, path, src, tree, is_pkg
        self.symbols = {}      # name -> ('func',FuncInfo)|('class',ClassInfo)|('import',dotted)|('var',node)
        self.stars = []        # modules star-imported
        self.assigns = {}      # module-level name -> list of value nodes
        self._rel = None

    @property
    def rel(self):
        if self._rel is None or self._rel[0] != REPO:
            self._rel = (REPO, os.path.relpath(self.path, REPO))
        return self._rel[1]


class FuncInfo:
    def __init__(self, name, node, module, cls=None, parent=None):
        self.name, self.node, self.module, self.cls, self.parent = name, node, module, cls, parent

    @property
    def qual(self):
        if self.parent is not None:
            return self.parent.qual + ".<locals>." + self.name
        if self.cls is not None:
            return self.cls.name + "." + self.name
        return self.module.name[len(PKG) + 1:] + ":" + self.name if self.module.name != PKG else self.name

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    @property
    def decorators(self):
        return list(getattr(self.node, "decorator_list", []))

    def _deco(self, name):
        for d in self.decorators:
            if isinstance(d, ast.Name) and d.id == name:
                return True
            if isinstance(d, ast.Attribute) and d.attr == name:
                return True
        return False

    @property
    def is_property(self):
        return self._deco("property") or self._deco("cached_property")

    @property
    def is_setter(self):
        return any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in self.decorators)

    @property
    def is_classmethod(self):
        return self._deco("classmethod")

    @property
    def is_staticmethod(self):
        return self._deco("staticmethod")

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            r.append(a.vararg.arg)
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    def defaults(self):
        """param -> default node"""
        a = self.node.args
        ps = a.posonlyargs + a.args
        d = {}
        for p, v in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            d[p.arg] = v
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = v
        return d

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods = {}      # name -> FuncInfo (getter wins for properties)
        self.setters = {}      # name -> FuncInfo
        self.attrs = {}        # class-level name -> value node (last)
        self.bases = []        # ClassInfo or dotted str
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st.name, st, module, cls=self)
                if fi.is_setter:
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n, v in _assign_pairs(t, st.value):
                        self.attrs[n] = v
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    @property
    def qual(self):
        return self.module.name + "." + self.name

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def mro(self):
        out, seen = [], set()

        def go(c):
            if not isinstance(c, ClassInfo) or id(c) in seen:
                return
            seen.add(id(c))
            out.append(c)
            for b in c.bases:
                go(b)
        # linear DFS is exact for the single-inheritance hierarchies used here
        go(self)
        return out

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, ast.Name) and v.id in c.methods:
                    return c.methods[v.id]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        """(defining class, value node) of a class-level attribute, through the MRO."""
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.methods:
                return None
        return None

    def is_subclass(self, other):
        names = {c.name for c in self.mro()}
        return (other if isinstance(other, str) else other.name) in names

    def external_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, str)]

    def __repr__(self):
        return "<C %s>" % self.name


def _assign_pairs(target, value):
    if isinstance(target, ast.Name):
        yield target.id, value
    elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) \
            and len(target.elts) == len(value.elts):
        for t, v in zip(target.elts, value.elts):
            yield from _assign_pairs(t, v)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}           # simple name -> [ClassInfo]
        self.functions = []         # every FuncInfo, methods included (not nested)
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s is missing" % root)
        for dp, dns, fns in os.walk(root):
            dns[:] = sorted(d for d in dns if d not in ("tests", "__pycache__"))
            for fn in sorted(fns):
                if fn.endswith(".py"):
                    self._load(os.path.join(dp, fn))
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            for kind, v in list(m.symbols.values()):
                if kind == "class":
                    v.bases = [self._resolve_base(m, b) for b in v.node.bases]
        self.by_method = {}
        for cs in self.classes.values():
            for c in cs:
                for n, f in c.methods.items():
                    self.by_method.setdefault(n, []).append(f)

    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        with open(path, encoding="utf8") as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        m = Module(".".join(parts), path, src, tree, is_pkg)
        self.modules[m.name] = m

    def _absmod(self, m, level, name):
        if level == 0:
            return name or ""
        base = m.name.split(".")
        if not m.is_pkg:
            base = base[:-1]
        if level > 1:
            base = base[:-(level - 1)]
        return ".".join(base + ([name] if name else []))

    def _collect(self, m):
        def visit(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = FuncInfo(st.name, st, m)
                    m.symbols[st.name] = ("func", fi)
                    self.functions.append(fi)
                elif isinstance(st, ast.ClassDef):
                    ci = ClassInfo(st.name, st, m)
                    m.symbols[st.name] = ("class", ci)
                    self.classes.setdefault(st.name, []).append(ci)
                    self.functions.extend(ci.methods.values())
                    self.functions.extend(ci.setters.values())
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.symbols[a.asname] = ("import", a.name)
                        else:
                            m.symbols[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    mod = self._absmod(m, st.level, st.module)
                    for a in st.names:
                        if a.name == "*":
                            m.stars.append(mod)
                        else:
                            m.symbols[a.asname or a.name] = ("import", mod + "." + a.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n, v in _assign_pairs(t, st.value):
                            m.symbols.setdefault(n, ("var", v))
                            m.assigns.setdefault(n, []).append(v)
                        if isinstance(t, (ast.Tuple, ast.List)) and not isinstance(st.value, (ast.Tuple, ast.List)):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    m.symbols.setdefault(e.id, ("var", st.value))
                elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                    m.symbols.setdefault(st.target.id, ("var", st.value))
                    m.assigns.setdefault(st.target.id, []).append(st.value)
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        visit(getattr(st, fld, []) or [])
                    for h in getattr(st, "handlers", []) or []:
                        visit(h.body)
        visit(m.tree.body)

    def _resolve_base(self, m, node):
        r = self.resolve_expr(m, node)
        if r and r[0] == "class":
            return r[1]
        return dotted(node) or "?"

    # ---- name resolution -------------------------------------------------
    def lookup(self, m, name, _seen=None):
        """Resolve a module-level name to ('func'|'class'|'var'|'module'|'ext', obj)."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        s = m.symbols.get(name)
        if s is not None:
            if s[0] == "import":
                return self.resolve_dotted(s[1], _seen)
            if s[0] == "var":
                return ("var", (m, name, s[1]))
            return s
        for star in m.stars:
            sm = self.modules.get(star)
            if sm is not None:
                r = self.lookup(sm, name, _seen)
                if r is not None:
                    return r
        sub = m.name + "." + name
        if m.is_pkg and sub in self.modules:
            return ("module", self.modules[sub])
        return None

    def resolve_dotted(self, dotted_name, _seen=None):
        if dotted_name in self.modules:
            # ``from pkg import name``: a package attribute set by the package's own imports shadows the submodule
            base, _, last = dotted_name.rpartition(".")
            pk = self.modules.get(base)
            if pk is not None and pk.is_pkg:
                r = self.lookup(pk, last, _seen)
                if r is not None and r[0] != "module":
                    return r
            return ("module", self.modules[dotted_name])
        if "." in dotted_name:
            base, _, last = dotted_name.rpartition(".")
            if base.split(".")[0] == PKG:
                rb = ("module", self.modules[base]) if base in self.modules else self.resolve_dotted(base, _seen)
                if rb is not None and rb[0] == "module":
                    r = self.lookup(rb[1], last, _seen)
                    if r is not None:
                        return r
                    sub = rb[1].name + "." + last
                    if sub in self.modules:
                        return ("module", self.modules[sub])
                if rb is not None and rb[0] == "class":
                    f = rb[1].find_method(last)
                    if f:
                        return ("func", f)
                return None
        return ("ext", dotted_name)

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.lookup(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if b is None:
                return None
            if b[0] == "module":
                r = self.lookup(b[1], node.attr)
                if r is None and b[1].name + "." + node.attr in self.modules:
                    r = ("module", self.modules[b[1].name + "." + node.attr])
                return r
            if b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
            if b[0] == "class":
                f = b[1].find_method(node.attr)
                if f:
                    return ("func", f)
                a = b[1].find_attr(node.attr)
                if a:
                    return ("var", (a[0].module, node.attr, a[1]))
        return None

    # ---- anchors -----------------------------------------------------------
    def cls(self, name):
        cs = self.classes.get(name)
        if not cs:
            raise AnalysisBroken("class %s not found" % name)
        return cs[0]

    def public(self, name, package=PKG):
        """A name exported by the package (or by a sub-package given by dotted path)."""
        m = self.modules.get(package)
        if m is None:
            raise AnalysisBroken("module %s not found" % package)
        r = self.lookup(m, name)
        if r is None:
            raise AnalysisBroken("public name %s.%s not found" % (package, name))
        return r[1]

    def subclasses(self, name, strict=True):
        out = []
        for cs in self.classes.values():
            for c in cs:
                if c.is_subclass(name) and not (strict and c.name == name):
                    out.append(c)
        return sorted(out, key=lambda c: (c.module.name, c.node.lineno))

    def all_functions(self):
        return list(self.functions)

    def func_by_name(self, name, cls=None):
        """Every module-level function (or method of cls) with that name."""
        out = [f for f in self.functions if f.name == name and ((cls is None) or (f.cls and f.cls.name == cls))]
        return out


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + "." + node.attr if b else None
    return None


@lru_cache(None)
def load(repo=None):
    return Project(repo)
