"""Restrictions of feature synthesis reach every construction.  (1) Each method of the synthesizer is analysed on its own:
every place where a feature object is created, or where features of another entity are requested, must lie under the
guards that implement the restriction it is subject to (ignored entities and variables, allowed paths of the path being
extended, remaining depth, the options of the very primitive handed to the constructor, stacking rules, where limits).
(2) The yes/no helpers that implement the restrictions are folded into quantified propositional formulas, and each rule
the user can state must falsify them for the feature (or any of the features it depends on) that breaks it.
(3) The list handed back passes the name filters, the return types and the count limit."""
import ast
import re
from ..flow import Engine, mk, is_const, cval, contains, walk, identity, show, alts, NONE
from ..index import AnalysisBroken, ClassInfo
from ..util import lits, exempt
from ..norm import strip_copy, WRAP
from .. import pred as P

TECHNIQUE = "guard analysis of feature construction sites plus predicate normal forms of the restriction helpers"
LEVEL_NOTE = "A where-condition and a last direct hop add to the depth of a feature by design; the depth rule limits inputs."
MIN_INSTANCES = {"entity-guard": 4, "path-guard": 4, "recursion": 2, "depth": 5, "identity": 1, "options": 3, "entity-option": 3,
                 "stacking": 3, "where": 3, "result": 3, "predicate": 14, "merge": 3}

DFS = "DeepFeatureSynthesis"
STOP = {"_run_dfs", "_build_agg_features", "_build_transform_features", "_build_forward_features", "_add_identity_features",
        "_features_by_type", "match", "filter_matches_by_options", "filter_groupby_matches_by_options", "check_stacking",
        "check_transform_stacking", "variable_filter", "ignore_entity_for_primitive", "_build_where_clauses", "_filter_features",
        "generate_all_primitive_options", "get_backward_entities", "get_forward_entities"}
KINDS = ("IdentityFeature", "AggregationFeature", "TransformFeature", "GroupByTransformFeature", "DirectFeature")


def engine(p):
    def inline(f):
        return f.module.name.startswith(("featuretools.synthesis", "featuretools.primitives.options_utils")) and f.name not in STOP
    return Engine(p, inline=inline)


def is_call(t, name):
    return t.k in ("pcall", "call", "mcall") and _cname(t) == name


def _cname(t):
    if t.k == "mcall":
        return t.a[1]
    n = t.a[0]
    if t.k == "pcall" and hasattr(n, "name"):
        return n.name
    n = n if isinstance(n, str) else getattr(n, "name", str(n))
    return n.split(".")[-1].split(":")[-1]


def arg(t, name, pos=None):
    """argument of a call term by name (bound arguments) or position"""
    if t.k == "pcall":
        return dict(t.a[1]).get(name)
    for part in t.a:
        if isinstance(part, tuple):
            for x in part:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == name:
                    return x[1]
    if pos is not None:
        for part in t.a:
            if isinstance(part, tuple) and part and not (isinstance(part[0], tuple) and isinstance(part[0][0], str)):
                if len(part) > pos and hasattr(part[pos], "k"):
                    return part[pos]
    return None


def calls_in(t, name):
    return [x for x in walk(t) if x.k in ("pcall", "call", "mcall") and _cname(x) == name]


def holds(ev, pred):
    """some guard of the event implies a literal accepted by pred"""
    return any(exempt(g, pol, pred) for g, pol in ev.guards)


def owner(t, attr):
    return t.k == "attr" and t.a[1] == attr


def check(ctx):
    p = ctx.p
    c = p.cls(DFS)
    eng = {}

    def events(name):
        m = c.find_method(name)
        if m is None:
            raise AnalysisBroken("method %s.%s not found" % (DFS, name))
        if name not in eng:
            e = engine(p)
            r = e.run(m)
            ctx.unit(m)
            eng[name] = (e, r)
        return eng[name]

    def mine(t, attr):
        """self.<attr> of the synthesizer"""
        t = identity(t)
        return t.k == "attr" and t.a[1] == attr

    # every method is a root; a helper that a root already inlines contributes its sites there
    roots = [m for m in c.methods.values()]
    inlined = set()
    allnew = []          # (root, event)
    reqs = []            # requests for features of another entity
    for m in roots:
        if m.name == "__init__":
            continue
        e, r = events(m.name)
    called = set()
    for m in roots:
        if m.name in eng:
            for x in ast.walk(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                    if x.func.attr not in STOP and x.func.attr != m.name:
                        called.add(x.func.attr)
    for m in roots:
        if m.name not in eng or (m.name in called and m.name != "build_features"):
            continue
        e, r = eng[m.name]
        for ev in e.events:
            if ev.kind == "new":
                s = ev.d["bound"].get("self")
                k = s.a[0].name if s is not None and s.k in ("new", "obj") and hasattr(s.a[0], "name") else show(s).replace("new ", "")
                if k in KINDS:
                    allnew.append((m, ev, k))
            if ev.kind == "call":
                callee = ev.d.get("name") or ""
                if callee.split(".")[-1] in ("_run_dfs", "_build_agg_features", "_build_forward_features"):
                    reqs.append((m, ev, callee.split(".")[-1]))
    for k in KINDS:
        ctx.need(any(x[2] == k for x in allnew), "a construction of %s in feature synthesis" % k)

    # ---- requests for other entities -------------------------------------------------
    n = 0
    for m, ev, callee in reqs:
        b = ev.d.get("bound") or {}
        loops = [g for g, pol in ev.guards if g.k == "inloop"]
        src = [x for g in loops for x in walk(g) if x.k in ("pcall", "call", "mcall") and _cname(x) in ("get_backward_entities", "get_forward_entities")]
        if not src:
            # the first call starts at the target entity with the user's depth
            d = b.get("max_depth")
            rp = b.get("relationship_path")
            ctx.ob("recursion", "%s starts at the target" % m.name, d is not None and mine(d, "max_depth"), ev.loc,
                   "%s starts the synthesis with the maximum depth %s, not the user's" % (m.qual, show(d)[:80] if d is not None else "default"))
            continue
        n += 1
        el = None
        for g in loops:
            for x in walk(g.a[0]):
                if x in src:
                    el = mk("elem", strip_copy(g.a[0]))
        which = _cname(src[0])
        deep = arg(src[0], "deep")
        con = "%s over %s" % (callee, which)
        # the entity of the step
        ent = []
        for key in ("entity", "child_entity", "parent_entity", "relationship_path"):
            if key in b:
                ent += [x for x in walk(b[key]) if x.k == "elem" and contains(x, lambda y: y in src)]

        def elemlike(t):
            return contains(t, lambda y: y.k == "elem" and contains(y, lambda z: z in src))
        g1 = holds(ev, lambda a, pol: a.k == "cmp" and a.a[0] == "in" and not pol and mine(a.a[2], "ignore_entities") and elemlike(a.a[1]))
        ctx.ob("entity-guard", con, g1, ev.loc, "%s reaches another entity without excluding ignored entities" % con)

        def path_ok(a, pol):
            if a.k == "cmp" and a.a[0] == "in" and pol and mine(a.a[2], "allowed_paths"):
                t = a.a[1]
                ext = [x for x in walk(t) if x.k == "binop" or x.k == "op" or x.k == "bin"]
                full = [x for x in walk(t) if contains(x, lambda y: y.k == "param" and y.a[0] == "relationship_path") and elemlike(x)]
                return bool(full)
            return mine(a, "allowed_paths") and not pol
        g2 = holds(ev, path_ok)
        ctx.ob("path-guard", con, g2, ev.loc,
               "%s reaches an entity along a path that was not compared with the allowed paths (path so far extended by this step)" % con)
        if callee == "_run_dfs":
            d = b.get("max_depth")
            ok = d is not None and _one_less(d)
            ctx.ob("recursion", con + " depth", ok, ev.loc, "the recursion into %s passes the depth %s; one level less is required" %
                   (which, show(d)[:80] if d is not None else "default"))
            rp = b.get("relationship_path")
            ok = rp is not None and contains(rp, lambda y: y.k == "param" and y.a[0] == "relationship_path") and elemlike(rp)
            ctx.ob("recursion", con + " path", ok, ev.loc, "the recursion into %s passes %s as the path, not the path so far extended by this step" %
                   (which, show(rp)[:80] if rp is not None else "nothing"))
        else:
            d = b.get("max_depth")
            ctx.ob("recursion", con + " depth", d is not None and d.k == "param" and d.a[0] == "max_depth" or d is not None and _one_less(d), ev.loc,
                   "%s is given the depth %s, not the remaining depth" % (callee, show(d)[:80] if d is not None else "default"))
    ctx.need(n >= 4, "the four steps to other entities")

    # ---- construction sites ------------------------------------------------------------
    for m, ev, k in allnew:
        b = ev.d["bound"]
        con = "%s in %s" % (k, m.name) + (" with where" if k == "AggregationFeature" and _given(b.get("where")) else "")
        if k == "IdentityFeature":
            v = b.get("variable")
            ok = holds(ev, lambda a, pol: a.k == "cmp" and a.a[0] == "in" and not pol and
                       contains(a.a[2], lambda y: owner(y, "ignore_variables")) and contains(a.a[1], lambda y: y is v))
            ctx.ob("identity", con, ok, ev.loc, "%s: a variable becomes a feature without excluding ignored variables" % con)
            keyed = [a for g, pol in ev.guards for a, q in lits(g, pol) if a.k == "cmp" and a.a[0] == "in" and
                     contains(a.a[2], lambda y: owner(y, "ignore_variables"))]
            for a in keyed:
                ok = a.a[1].k == "attr" and a.a[1].a[1] == "id" and a.a[1].a[0] is v
                ctx.ob("identity", con + " key", ok, ev.loc, "%s: ignored variables are given by id, but %s is looked up" % (con, show(a.a[1])[:60]))
                ent = a.a[2]
                ok = ent.k not in ("item",) or contains(ent.a[1], lambda y: y.k == "attr" and y.a[1] == "id") or contains(ent.a[1], lambda y: y.k == "param")
                ctx.ob("identity", con + " entity", ok, ev.loc, "%s: the ignored variables of %s are used" % (con, show(ent)[:60]))
            continue
        if k == "DirectFeature":
            f = b.get("base_feature")
            sel = calls_in(f, "_features_by_type") if f is not None else []
            ctx.ob("depth", con, bool(sel) and all(_depth_param(x, 0) for x in sel), ev.loc,
                   "%s: the feature is not selected within the remaining depth" % con)
            # a direct feature is one deeper than the feature it is of
            ctx.ob("depth", "DirectFeature last hop", bool(sel) and all(_depth_param(x, 1) for x in sel), ev.loc,
                   "%s: the feature is selected at up to max_depth, so the direct feature of it can be one deeper than max_depth" % con)
            continue
        # inputs
        base = b.get("base_features")
        prim = b.get("primitive")
        opts = None
        src = base
        filt = [x for x in walk(src) if x.k in ("pcall", "call", "mcall") and _cname(x) == "filter_matches_by_options"] if src is not None else []
        good = []
        for x in filt:
            o = arg(x, "options", 1)
            if o is not None and _options_of(o, prim):
                good.append(x)
                opts = o
        # the elements handed to the constructor must be elements of the filtered matches
        ok = bool(good) and any(_is_elem_of(src, x) for x in good)
        ctx.ob("options", con, ok, ev.loc,
               "%s: its inputs are not elements of the matches filtered by the options of the primitive it is built with" % con)
        sel = calls_in(src, "_features_by_type") if src is not None else []
        ctx.ob("depth", con, bool(sel) and all(_depth_param(x, 1) for x in sel), ev.loc,
               "%s: its inputs are not selected within one level less than the remaining depth" % con)
        # entity options
        gb = k == "GroupByTransformFeature"

        def ent_ok(a, pol):
            if pol or not is_call(a, "ignore_entity_for_primitive"):
                return False
            o = arg(a, "options", 0)
            if o is None or not _options_of(o, prim):
                return False
            g = arg(a, "groupby", 2)
            if gb and not (g is not None and is_const(g) and cval(g) is True):
                return False
            e2 = arg(a, "entity", 1)
            want = {_entity_of(x) for x in sel}
            return e2 is not None and (not want or e2 in want or None in want)
        ctx.ob("entity-option", con, holds(ev, ent_ok), ev.loc,
               "%s: not guarded by the entity options (%s) of the primitive it is built with" % (con, "with group-by options" if gb else "include and ignore"))
        if gb:
            g = b.get("groupby")
            fg = calls_in(g, "filter_groupby_matches_by_options") if g is not None else []
            fm = [x for x in (calls_in(g, "filter_matches_by_options") if g is not None else []) if arg(x, "groupby", 2) is not None and
                  is_const(arg(x, "groupby", 2)) and cval(arg(x, "groupby", 2)) is True]
            ok = any(_options_of(arg(x, "options", 1), prim) and contains(g, lambda y: y.k == "elem" and _under(y, x)) for x in fg + fm if arg(x, "options", 1) is not None)
            ctx.ob("options", con + " group-by", ok, ev.loc, "%s: its group-by feature is not an element of the matches filtered by the group-by options" % con)
            sel = calls_in(g, "_features_by_type") if g is not None else []
            ctx.ob("depth", con + " group-by", bool(sel) and all(_depth_param(x, 1) for x in sel), ev.loc,
                   "%s: its group-by feature is not selected within one level less than the remaining depth" % con)
        # stacking
        name = "check_stacking" if k == "AggregationFeature" else "check_transform_stacking"

        def stack_ok(a, pol):
            if not pol or not is_call(a, name):
                return False
            i = arg(a, "inputs", 1 if name == "check_stacking" else 0)
            if i is None or strip_copy(i) is not strip_copy(src):
                return False
            if name == "check_stacking":
                q = arg(a, "primitive", 0)
                return q is prim
            return True
        ctx.ob("stacking", con, holds(ev, stack_ok), ev.loc, "%s: not guarded by %s on its own inputs%s" %
               (con, name, " and primitive" if name == "check_stacking" else ""))
        if k != "AggregationFeature":
            def single(a, pol):
                if a.k in ("call",) and a.a[0] == "all" and pol or a.k == "call" and a.a[0] == "any" and not pol:
                    return contains(a, lambda y: owner(y, "number_output_features"))
                return False
            ctx.ob("stacking", con + " single outputs", holds(ev, single), ev.loc, "%s: inputs with several outputs are not excluded" % con)
        # where
        w = b.get("where")
        if k == "AggregationFeature" and _given(w):
            ok = _where_filtered(w, prim, ev)
            ctx.ob("options", con + " condition", ok, ev.loc, "%s: the condition is not filtered by the options of the primitive" % con)
            ok = holds(ev, lambda a, pol: contains(a, lambda y: mine(y, "where_primitives")))
            ctx.ob("where", con + " primitives", ok, ev.loc, "%s: not restricted to the where primitives" % con)

            def limit(a, pol):
                if a.k != "cmp" or not any(contains(x, lambda y: mine(y, "where_stacking_limit")) for x in a.a[1:3]):
                    return False
                op, l, r = a.a[0], a.a[1], a.a[2]
                if contains(l, lambda y: mine(y, "where_stacking_limit")):
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                return (op == "<" and pol) or (op == ">=" and not pol)
            ctx.ob("where", con + " limit", holds(ev, limit), ev.loc, "%s: not under the where stacking limit" % con)
            ok = _limit_counts(ev, mine)
            ctx.ob("where", con + " count", ok, ev.loc,
                   "%s: the where stacking limit does not count the conditions of the inputs and of the features they depend on" % con)
    # where clauses come from features that exist (ignored variables have none)
    predicates(ctx, p, c)
    results(ctx, p, c, events, mine)
    merging(ctx, p)


def _given(t):
    return t is not None and not (is_const(t) and cval(t) is None)


def _one_less(d):
    """max_depth - 1, or None when there is no limit"""
    ds = [x for x in alts(d) if not (is_const(x) and cval(x) is None)]
    if not ds:
        return False
    for x in ds:
        if x.k == "binop" or x.k == "op" or x.k == "bin":
            s = show(x).replace(" ", "")
            if not re.match(r"^\(?(max_depth-1|-1\+max_depth|max_depth\+-1)\)?$", s):
                return False
        else:
            return False
    return True


def _depth_param(call, less):
    d = arg(call, "max_depth", 2)
    if d is None:
        return False
    if _one_less(d):
        return True
    if less:
        return False
    ds = [x for x in alts(d) if not (is_const(x) and cval(x) is None)]
    return bool(ds) and all(x.k == "param" and x.a[0] == "max_depth" for x in ds)


def _entity_of(call):
    return arg(call, "entity", 1)


def _options_of(o, prim):
    """self.primitive_options looked up for this primitive (or for its name)"""
    if o is None or prim is None:
        return False
    ok = False
    for x in alts(o):
        if x.k == "mcall" and x.a[1] == "get" and contains(x.a[0], lambda y: owner(y, "primitive_options")) or \
                x.k in ("item", "getitem") and contains(x.a[0], lambda y: owner(y, "primitive_options")):
            if x.k == "mcall":
                if not x.a[2] or x.a[2][0] is not prim and not (x.a[2][0].k == "attr" and x.a[2][0].a[0] is prim):
                    return False
                if len(x.a[2]) > 1 and not _options_of(x.a[2][1], prim):
                    return False
            else:
                k = x.a[1]
                if not (k is prim or k.k == "attr" and k.a[0] is prim and k.a[1] == "name"):
                    return False
            ok = True
        else:
            return False
    return ok


def _under(el, call):
    """the iterated collection of an elem term is the call's result (possibly filtered or copied)"""
    st = [el.a[0]]
    while st:
        t = strip_copy(st.pop())
        if t is call:
            return True
        if t.k == "phi":
            st += list(t.a[0])
        elif t.k == "ite":
            st += [t.a[1], t.a[2]]
        elif t.k == "comp":
            st += [g.a[0] for g in t.a[2]] if t.a[1].k == "elem" else []
        elif t.k == "pcall" and _cname(t) in ("filter_matches_by_options",):
            a = arg(t, "matches", 0)
            if a is not None:
                st.append(a)
    return False


def _is_elem_of(src, call):
    s = strip_copy(src)
    return all(x.k == "elem" and _under(x, call) for x in alts(s))


def _where_filtered(w, prim, ev):
    def full(t):
        return [x for x in walk(t) if x.k in ("pcall", "call", "mcall") and _cname(x) == "variable_filter"]
    cands = []
    for x in walk(w):
        if x.k == "comp":
            for g in x.a[2]:
                for cond in g.a[1]:
                    cands += [(cond, True)]
        if x.k == "elem":
            for y in alts(x.a[0]):
                if y.k == "pcall" and _cname(y) in ("filter_matches_by_options",):
                    o = arg(y, "options", 1)
                    if _options_of(o, prim):
                        return True
    cands += list(ev.guards)
    for g, pol in ev.guards:                       # the loop that w is an element of
        if g.k == "inloop" and any(x.k == "comp" for x in alts(strip_copy(g.a[0]))) and \
                contains(w, lambda y: y.k == "elem" and any(strip_copy(y.a[0], WRAP) is strip_copy(z.a[0], WRAP) for x in alts(strip_copy(g.a[0])) if x.k == "comp" for z in x.a[2])):
            cs = [x for x in alts(strip_copy(g.a[0])) if x.k == "comp"]
            cands += [(cond, True) for x in cs for q in x.a[2] for cond in q.a[1]]
    for cond, pol in cands:
        for v in full(cond):
            o = arg(v, "options", 1)
            if o is None:
                continue
            for y in [o] + list(walk(o)):
                if y.k == "elem" and any(_options_of(z, prim) for z in alts(y.a[0])) or _options_of(y, prim):
                    # for every option, and with the right polarity
                    if _all_form(cond, pol, v):
                        return True
    return False


def _all_form(cond, pol, v):
    def ok(a, q):
        if a is v:
            return q
        if a.k == "call" and a.a[0] == "all" and q:
            t = a.a[1][0]
            return contains(t, lambda y: y is v) and not contains(t, lambda y: y.k == "not" and contains(y, lambda z: z is v))
        if a.k == "call" and a.a[0] == "any" and not q:
            t = a.a[1][0]
            return contains(t, lambda y: y.k == "not" and contains(y, lambda z: z is v))
        return False
    return exempt(cond, pol, ok)


def _limit_counts(ev, mine):
    for g, pol in ev.guards:
        for a, q in lits(g, pol):
            if a.k == "cmp" and any(contains(x, lambda y: mine(y, "where_stacking_limit")) for x in a.a[1:3]):
                return contains(a, lambda y: y.k in ("pcall", "mcall") and _cname(y) == "get_dependencies" and
                                (is_const(arg(y, "deep") or NONE) and cval(arg(y, "deep") or NONE) is True)) and \
                    contains(a, lambda y: owner(y, "where"))
    return False


# ---- the helpers -----------------------------------------------------------------------
def elems(text):
    """elem(...) sub-expressions of a text with their collections, innermost last"""
    out, i = [], 0
    while True:
        i = text.find("elem(", i)
        if i < 0:
            return out
        d, j = 0, i + 4
        while j < len(text):
            d += text[j] == "("
            d -= text[j] == ")"
            if d == 0:
                break
            j += 1
        out.append((text[i:j + 1], text[i + 5:j]))
        i += 5


def retext(f, fn):
    if f[0] == "atom":
        return ("atom", fn(f[1]))
    if f[0] == "not":
        return P.f_not(retext(f[1], fn))
    if f[0] in ("and", "or"):
        return P._nary(f[0], [retext(x, fn) for x in f[1]])
    if f[0] == "ex":
        return ("ex", f[1], retext(f[2], fn))
    return f


def about(f, covers, who):
    """the formula with elem(collection) written as `who` for the collections that contain it"""
    def fn(s):
        for full, coll in sorted(elems(s), key=lambda x: -len(x[0])):
            if covers(coll):
                s = s.replace(full, who)
        return s
    return retext(f, fn)


def predicates(ctx, p, c):
    # ---- variable_filter
    fi = p.func_by_name("variable_filter")[0]
    ctx.unit(fi)
    q = fi.params()

    def key(k, gb):
        return "'%s'" % (k.replace("_", "_groupby_", 1) if gb else k)
    for gb in (False, True):
        pd = P.Pred(p, stop=("get_dependencies",))
        f = pd.returns_true(fi, params={"groupby": gb})
        for who, covers in (("the feature", lambda s: re.search(r"\[f\]|\(f,\)|\bf\]|\[f\b", s) is not None),
                            ("a feature it depends on", lambda s: "get_dependencies" in s and "deep=True" in s)):
            W = "WHO"
            g = about(f, covers, W)
            if who == "the feature":
                g = retext(g, lambda s: re.sub(r"\bf\b(?!\.variable_type, Discrete|\.get_dependencies)", W, s))
            inc_v, ign_v, inc_e, ign_e = [key(k, gb) for k in ("include_variables", "ignore_variables", "include_entities", "ignore_entities")]
            I = "isinstance(%s, IdentityFeature)" % W
            ent, var = W + ".entity.id", W + ".variable.id"
            base = {"issubclass(f.variable_type, Discrete)": True} if gb else {}
            rules = [
                ("%s names a variable that is not among the included ones of its entity" % inc_v,
                 {I: True, "%s in options" % inc_v: True, "%s in options[%s]" % (ent, inc_v): True, "%s in options[%s][%s]" % (var, inc_v, ent): False}),
                ("%s names the variable" % ign_v,
                 {I: True, "%s in options" % ign_v: True, "%s in options[%s]" % (ent, ign_v): True, "%s in options[%s][%s]" % (var, ign_v, ent): True,
                  "%s in options" % inc_v: False}),
                ("%s names the variable and %s speaks of other entities only" % (ign_v, inc_v),
                 {I: True, "%s in options" % ign_v: True, "%s in options[%s]" % (ent, ign_v): True, "%s in options[%s][%s]" % (var, ign_v, ent): True,
                  "%s in options" % inc_v: True, "%s in options[%s]" % (ent, inc_v): False}),
                ("%s does not name its entity" % inc_e,
                 {"%s in options" % inc_e: True, "%s in options[%s]" % (ent, inc_e): False, "%s in options" % inc_v: False}),
                ("%s names its entity" % ign_e,
                 {"%s in options" % ign_e: True, "%s in options[%s]" % (ent, ign_e): True, "%s in options" % inc_v: False, "%s in options" % inc_e: False}),
                ("%s does not name its entity although %s exists" % (inc_e, ign_e),
                 {"%s in options" % ign_e: True, "%s in options" % inc_e: True, "%s in options[%s]" % (ent, inc_e): False, "%s in options" % inc_v: False}),
            ]
            for what, lt in rules:
                ok = not P.can_be(g, True, dict(base, **lt), known=covers, who=W)
                ctx.ob("predicate", "variable_filter%s: %s, for %s" % (" (group-by)" if gb else "", what, who), ok, fi.loc,
                       "%s accepts a feature when %s, for %s" % (fi.name, what, who))
    pd = P.Pred(p, stop=("get_dependencies",))
    f = pd.returns_true(fi, params={"groupby": True})
    ok = not P.can_be(f, True, {"issubclass(f.variable_type, Discrete)": False})
    ctx.ob("predicate", "variable_filter (group-by): a discrete variable is required", ok, fi.loc,
           "variable_filter accepts a group-by feature whose variable type is not discrete")

    # ---- filter_matches_by_options
    fi = p.func_by_name("filter_matches_by_options")[0]
    ctx.unit(fi)
    pd = P.Pred(p, stop=("variable_filter",))
    v = pd.returns_value(fi)
    parts = (v.d.get("parts") or ([(v.d["coll"], v.d["elem"], v.d["cond"])] if v.d.get("coll") else [])) if v is not None and v.kind == "built" else []
    ctx.need(bool(parts), "the list of matches kept by filter_matches_by_options")
    for coll, el, f in parts:
        e = pd.text(el)
        for lt, cond in (({"variable_filter(elem(%s), options[0], groupby)" % e: False, "len(options) > 1": False}, "the only option set rejects an input"),
                         ({"variable_filter(elem(%s), elem(options), groupby)" % e: False, "len(options) > 1": True}, "its own option set rejects an input")):
            ok = not P.can_be(f, True, lt, known=lambda s: True)
            ctx.ob("predicate", "filter_matches_by_options: %s (%s)" % (cond, coll[:40]), ok, fi.loc, "a match is kept although %s" % cond)
    # ---- filter_groupby_matches_by_options hands the group-by flag and the options on
    fg = p.func_by_name("filter_groupby_matches_by_options")
    if fg:
        fg = fg[0]
        ctx.unit(fg)
        e = Engine(p, inline=lambda x: False)
        e.run(fg)
        evs = [ev for ev in e.evs("call") if (ev.d.get("name") or "").split(".")[-1] == "filter_matches_by_options"]
        for ev in evs:
            b = ev.d.get("bound") or {}
            g, o = b.get("groupby"), b.get("options")
            ctx.ob("predicate", "filter_groupby_matches_by_options: group-by options", g is not None and is_const(g) and cval(g) is True and
                   o is not None and o.k == "param" and o.a[0] == "options", ev.loc, "group-by matches are not filtered by the group-by options")
        ctx.need(bool(evs), "the filtering of group-by matches")

    # ---- ignore_entity_for_primitive
    fi = p.func_by_name("ignore_entity_for_primitive")[0]
    ctx.unit(fi)
    for gb in (False, True):
        pd = P.Pred(p)
        f = pd.returns_true(fi, params={"groupby": gb})
        f = about(f, lambda s: s == "options", "THIS")
        ie, xe, iv = "'include_entities'", "'ignore_entities'", "'include_variables'"
        base = {"%s in THIS" % xe: True, "'ignore_entities' in THIS": True}
        rules = [("include_entities does not name it", {"%s in THIS" % ie: True, "entity.id in THIS[%s]" % ie: False, "%s in THIS" % iv: False}),
                 ("include_entities does not name it and include_variables speaks of others",
                  {"%s in THIS" % ie: True, "entity.id in THIS[%s]" % ie: False, "%s in THIS" % iv: True, "entity.id in THIS[%s]" % iv: False}),
                 ("ignore_entities names it", {"entity.id in THIS[%s]" % xe: True, "%s in THIS" % iv: False, "%s in THIS" % ie: False})]
        if gb:
            ie2, xe2, iv2 = "'include_groupby_entities'", "'ignore_groupby_entities'", "'include_groupby_variables'"
            rules += [("include_groupby_entities does not name it", {"%s in THIS" % ie2: True, "entity.id in THIS[%s]" % ie2: False, "%s in THIS" % iv2: False}),
                      ("ignore_groupby_entities names it", {"%s in THIS" % xe2: True, "entity.id in THIS[%s]" % xe2: True, "%s in THIS" % iv2: False, "%s in THIS" % ie2: False})]
        for what, lt in rules:
            ok = not P.can_be(f, False, dict(base, **lt), known=lambda s: s == "options", who="THIS")
            ctx.ob("predicate", "ignore_entity_for_primitive%s: %s" % (" (group-by)" if gb else "", what), ok, fi.loc,
                   "an entity is not ignored for a primitive although %s" % what)

    # ---- check_stacking
    fi = p.func_by_name("check_stacking")[0]
    ctx.unit(fi)
    pd = P.Pred(p)
    pd.equiv = {"primitive.stack_on_self": ("primitive.stack_on_self is True", True)}
    f = pd.returns_true(fi)
    f = about(f, lambda s: s == "inputs", "THIS")
    f = _any_of(f)
    same = "isinstance(THIS.primitive, primitive.__class__)"
    f = retext(f, lambda s: s.replace("type(primitive)", "primitive.__class__").replace("type(THIS.primitive)", "THIS.primitive.__class__"))
    rules = [("the primitive does not stack on itself", {"primitive.stack_on_self is False": True, "primitive.stack_on_self is True": False, same: True}),
             ("the primitive excludes the input's primitive", {"primitive.stack_on_exclude is None": False, "primitive.stack_on_exclude": True,
                                                               "isinstance(THIS.primitive, primitive.stack_on_exclude)": True}),
             ("the input has several outputs", {"THIS.number_output_features > 1": True, "1 == THIS.number_output_features": False, "THIS.number_output_features == 1": False}),
             ("the input's primitive excludes the primitive", {"THIS.primitive.base_of_exclude is None": False, "THIS.primitive.base_of_exclude": True,
                                                               "isinstance(primitive, THIS.primitive.base_of_exclude)": True}),
             ("neither side allows the other", {"primitive.stack_on is None": False, "isinstance(THIS.primitive, primitive.stack_on)": False,
                                                "THIS.primitive.base_of is None": False, "primitive.__class__ in THIS.primitive.base_of": False,
                                                "primitive.stack_on_self is True": False, "primitive.stack_on": True, "THIS.primitive.base_of": True,
                                                "isinstance(primitive, THIS.primitive.base_of)": False}),
             ("neither side allows the other, self-stacking of other primitives aside",
              {"primitive.stack_on is None": False, "isinstance(THIS.primitive, primitive.stack_on)": False, "primitive.stack_on": True, "THIS.primitive.base_of": True,
               "THIS.primitive.base_of is None": False, "primitive.__class__ in THIS.primitive.base_of": False,
               "isinstance(primitive, THIS.primitive.base_of)": False,
               "primitive.stack_on_self is True": True, same: False})]
    for what, lt in rules:
        ok = not P.can_be(f, True, lt, known=lambda s: s == "inputs", who="THIS")
        ctx.ob("predicate", "check_stacking: %s" % what, ok, fi.loc, "an aggregation is stacked on an input although %s" % what)
    # ---- check_transform_stacking
    fi = p.func_by_name("check_transform_stacking")[0]
    ctx.unit(fi)
    pd = P.Pred(p)
    f = about(pd.returns_true(fi), lambda s: s == "inputs", "THIS")
    rules = [("the input is a transform feature", {"isinstance(THIS.primitive, TransformPrimitive)": True}),
             ("the input is a direct feature of a transform feature", {"isinstance(THIS, DirectFeature)": True, "isinstance(THIS.base_features[0].primitive, TransformPrimitive)": True})]
    for what, lt in rules:
        ok = not P.can_be(f, True, lt, known=lambda s: s == "inputs", who="THIS")
        ctx.ob("predicate", "check_transform_stacking: %s" % what, ok, fi.loc, "a transform is stacked on an input although %s" % what)

    # ---- _features_by_type: the depth limit
    m = c.find_method("_features_by_type")
    if m is None:
        raise AnalysisBroken("the selection of features by type was not found")
    ctx.unit(m)
    pd = P.Pred(p, stop=("get_depth",))
    v = pd.returns_value(m, cls=c)
    parts = []
    if v is not None:
        st = [v]
        while st:
            x = st.pop()
            if x.kind == "ite":
                st += [x.d["a"], x.d["b"]]
            elif x.kind == "built":
                parts += x.d.get("parts") or ([(x.d["coll"], x.d["elem"], x.d["cond"])] if x.d["coll"] else [])
            else:
                parts.append((None, None, P.TRUE))
    ctx.need(bool(parts), "the selected features of _features_by_type")
    for coll, el, f in parts:
        ats = [a for a in P.atoms(f) if "get_depth(" in a and "max_depth" in a]
        lt = {}
        for a in ats:
            m1 = re.match(r"^.*get_depth\((.*)\) > max_depth$", a)
            m2 = re.match(r"^max_depth > .*get_depth\((.*)\)$", a)
            stop = (m1 or m2) and (m1 or m2).group(1)
            if stop not in ("", "self.seed_features", "stop_at=self.seed_features"):
                continue        # counted from somewhere else than the data or the seed features
            if m1:
                lt[a] = True
            elif m2:
                lt[a] = False
        lt["max_depth is None"] = False
        ok = bool(ats) and len(lt) > 1 and not P.can_be(f, True, lt)
        ctx.ob("depth", "selected features", ok, m.loc, "a feature deeper than the allowed depth is selected as an input")


def _any_of(f):
    """any(isinstance(x, c) for c in cs) is isinstance(x, cs)"""
    if f[0] == "ex":
        g = _any_of(f[2])
        if g[0] == "atom":
            m = re.match(r"^isinstance\((.*), elem\((.*)\)\)$", g[1])
            if m and m.group(2) == f[1]:
                return ("atom", "isinstance(%s, %s)" % (m.group(1), f[1]))
        return ("ex", f[1], g)
    if f[0] == "not":
        return P.f_not(_any_of(f[1]))
    if f[0] in ("and", "or"):
        return P._nary(f[0], [_any_of(x) for x in f[1]])
    return f


# ---- what is handed back ------------------------------------------------------------------
def results(ctx, p, c, events, mine):
    m = c.find_method("build_features")
    ctx.unit(m)
    # names
    ff = c.find_method("_filter_features")
    pd = P.Pred(p, stop=("get_name", "_run_dfs", "_add_identity_features"))
    v = pd.returns_value(m, cls=c)
    flat = []

    def open_(x, cond):
        if x is None:
            return
        if x.kind == "ite":
            open_(x.d["a"], P.f_and(cond, x.d["c"]))
            open_(x.d["b"], P.f_and(cond, P.f_not(x.d["c"])))
        else:
            flat.append((cond, x))
    open_(v, P.TRUE)
    ctx.need(bool(flat), "the features returned by build_features")
    for cond, x in flat:
        cut, y = _slice_of(pd, x)
        lim = "self.max_features > 0"
        if not cut:
            ok = not P.can_be(cond, True, {lim: True, "self.max_features == -1": False, "-1 == self.max_features": False}, known=lambda s: False)
            ctx.ob("result", "count limit", ok, m.loc, "features are returned uncut although a maximum number of features is set")
        else:
            ctx.ob("result", "count limit (cut)", cut == "self.max_features", m.loc, "the returned features are cut at %s, not at the maximum the user gave" % cut)
        f = _conds(pd, y)
        if f is None:
            raise AnalysisBroken("cannot follow the list returned by build_features")
        name = r"elem\(.*\)\.get_name\(\)"
        names = [a for a in P.atoms(f)]
        drop_e = [a for a in names if re.match("^.*get_name\\(\\) in self\\.drop_exact$", a)]
        drop_c = [a for a in names if re.match("^elem\\(self\\.drop_contains\\) in .*get_name\\(\\)$", a)]
        ok = bool(drop_e) and not P.can_be(f, True, {a: True for a in drop_e})
        ctx.ob("result", "drop_exact", ok, m.loc, "a feature whose name is in drop_exact is returned")
        ok = bool(drop_c) and not P.can_be(f, True, {a: True for a in drop_c})
        ctx.ob("result", "drop_contains", ok, m.loc, "a feature whose name contains a text in drop_contains is returned")
        rt = [a for a in names if ".variable_type" in a and "issubclass" in a]
        # a type restriction is in force unless 'all' was given
        lt = {}
        for a in P.atoms(f):
            if re.match(r"^'all' == .*return_variable_types$|^return_variable_types == 'all'$|^.*return_variable_types is 'all'$", a):
                lt[a] = False
        g = _deny_exists(f, rt)
        ok = bool(rt) and not P.can_be(g, True, lt)
        ctx.ob("result", "return types", ok, m.loc, "a feature of a variable type that was not asked for is returned")
    # exclude list of the keyword wrapper is covered by C03


def _deny_exists(f, ats):
    """the formula when no element satisfies one of the given atoms"""
    if f[0] == "ex":
        g = _deny_exists(f[2], ats)
        return P.f_ex(f[1], g)
    if f[0] == "atom":
        return P.FALSE if f[1] in ats else f
    if f[0] == "not":
        return P.f_not(_deny_exists(f[1], ats))
    if f[0] in ("and", "or"):
        return P._nary(f[0], [_deny_exists(x, ats) for x in f[1]])
    return f


def _slice_of(pd, x):
    n = pd.as_node(x) if x.kind != "built" else None
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.step is None and n.slice.upper is not None:
        v = n.value
        if isinstance(v, ast.Name) and v.id in pd.vals:
            return pd.text(n.slice.upper), pd.vals[v.id]
        return pd.text(n.slice.upper), P.E(v)
    return None, x


def _conds(pd, x):
    if x.kind == "built":
        return x.d["cond"]
    if x.kind == "expr" and isinstance(x.d["node"], ast.Name) and x.d["node"].id in pd.vals:
        return _conds(pd, pd.vals[x.d["node"].id])
    if x.kind == "ite":
        a, b = _conds(pd, x.d["a"]), _conds(pd, x.d["b"])
        return None if a is None or b is None else P.f_ite(x.d["c"], a, b)
    if x.kind == "expr":
        return P.TRUE
    return None


# ---- options are merged ----------------------------------------------------------------------
def merging(ctx, p):
    fi = p.func_by_name("generate_all_primitive_options")[0]
    ctx.unit(fi)
    e = Engine(p, inline=lambda f: f.module is fi.module and f.name not in ("_init_primitive_options", "_init_option_dict"))
    r = e.run(fi)
    par = lambda t, n: contains(t, lambda y: y.k == "param" and y.a[0] == n)  # noqa
    sets = [ev for ev in e.evs("setitem")]
    ent = [ev for ev in sets if is_const(ev.d["key"]) and cval(ev.d["key"]) == "ignore_entities"]
    muts = [ev for ev in e.evs("call") if ev.d.get("name", "").split(".")[-1] in ("update", "__ior__") and ev.d.get("recv") is not None and
            contains(ev.d["recv"], lambda y: is_const(y) and cval(y) == "ignore_entities")]
    ok = False
    for ev in ent:
        v = ev.d["value"]
        ok = ok or par(v, "ignore_entities") and contains(v, lambda y: is_const(y) and cval(y) == "ignore_entities") and _joined(v) and _open(ev)
    for ev in muts:
        ok = ok or any(par(a, "ignore_entities") for a in ev.d.get("args", ())) and _open(ev)
    ctx.ob("merge", "ignored entities join a primitive's own", ok, fi.loc,
           "a primitive with options of its own does not get the globally ignored entities in addition to its own")
    var = [ev for ev in sets if ev.d["key"].k in ("keyof", "elem") and par(ev.d["key"], "ignore_variables") and
           contains(ev.d["recv"], lambda y: is_const(y) and cval(y) == "ignore_variables")]

    def joins(v):
        """the union of the option's own variables and the globally ignored ones"""
        for x in alts(v):
            ops = [x.a[0]] + list(x.a[2]) if x.k == "mcall" and x.a[1] == "union" else list(x.a[1:]) if x.k in ("binop", "bin", "op") and x.a[0] == "|" else []
            own = [y for y in ops if hasattr(y, "k") and contains(y, lambda z: is_const(z) and cval(z) == "ignore_variables")]
            glob = [y for y in ops if hasattr(y, "k") and any(z.k in ("valof", "item") and z.a[0].k == "param" and z.a[0].a[0] == "ignore_variables" for z in alts(y))]
            if own and glob:
                return True
        return False
    both = [ev for ev in var if joins(ev.d["value"])]
    plain = [ev for ev in var if ev.d["value"].k in ("valof", "item") and par(ev.d["value"], "ignore_variables")]
    ctx.ob("merge", "ignored variables join a primitive's own", bool(both) and all(_open(ev) for ev in both), fi.loc,
           "a primitive that ignores variables of an entity does not get the globally ignored ones in addition")
    ctx.ob("merge", "ignored variables are kept for other entities", bool(plain or [ev for ev in both if not _needs_key(ev)]) and all(_open(ev) for ev in plain), fi.loc,
           "a primitive with options of its own loses the globally ignored variables of entities it does not mention")
    dflt = [ev for ev in sets if contains(ev.d["value"], lambda y: y.k == "dict") and ev.d["key"].k == "elem" and par(ev.d["key"], "all_primitives")]
    ok = any(par(ev.d["value"], "ignore_entities") and par(ev.d["value"], "ignore_variables") and
             contains(ev.d["value"], lambda y: is_const(y) and cval(y) == "ignore_entities") and
             contains(ev.d["value"], lambda y: is_const(y) and cval(y) == "ignore_variables") for ev in dflt)
    ctx.ob("merge", "primitives without options", ok, fi.loc, "a primitive without options of its own does not get the globally ignored entities and variables")


def _joined(v):
    return contains(v, lambda y: y.k == "mcall" and y.a[1] == "union" or y.k in ("binop", "bin", "op") and "|" in [x for x in y.a if isinstance(x, str)])


def _needs_key(ev):
    return any(a.k == "cmp" and a.a[0] == "in" and q and contains(a.a[2], lambda y: is_const(y) and cval(y) == "ignore_variables")
               for g, pol in ev.guards for a, q in lits(g, pol))


def _open(ev):
    """no condition other than: the primitive has options, the entity is already mentioned, the entity is included"""
    for g, pol in ev.guards:
        if g.k == "inloop":
            continue
        for a, q in lits(g, pol):
            if a.k == "bool" or a.k == "cmp" and a.a[0] == "in" and (
                    contains(a.a[1], lambda y: y.k == "param" and y.a[0] == "all_primitives") or
                    contains(a.a[2], lambda y: is_const(y) and cval(y) in ("ignore_variables", "include_entities"))):
                continue
            return False
    return True
