"""Gated value-flow over EntitySet.query_by_values (with its helpers inlined) and over the whole
calculate_feature_matrix back-end (serial, parallel and approximate routes inlined).
R1 every data path from an entity's stored frame to the value returned by the query passes a row filter
comparing the entity's time index with the time bound (<= when the cutoff is included, < when not), except
under 'no time bound', 'no time index' or 'empty frame'.  R2 the columns tied to each secondary time index are
blanked where that index is at/after the bound, on every backend.  R3 every query and every nested
computation is handed the caller's cutoff, window and include-cutoff choice.  R4 no stored frame is used for
row values in the back-end without passing the time filter.  R5 approximation rounds cutoffs down, and the
original cutoffs are restored for everything that is not approximated.  R6 primitives that ask for the
calculation time get the calculator's own cutoff."""
from ..util import *  # noqa

TECHNIQUE = "gated value-flow analysis (inlined, flow- and guard-sensitive) of the time filter and of cutoff forwarding"
LEVEL_NOTE = ("Decides, for all inputs, that the row filter with the right comparison lies on every data path and that every "
              "computation route hands it the caller's cutoff; pandas' own comparison semantics are assumed.")
MIN_INSTANCES = {"time-filter": 1, "secondary-time": 1, "cutoff-forwarding": 2}

VALUE_CALLS = {"pandas.to_datetime", "pandas.Timestamp", "numpy.datetime64"}


def is_time_bound(t):
    """t is the time_last argument itself, maybe converted"""
    ok = False
    for x in alts(t):
        while x.k == "call" and x.a[0] in VALUE_CALLS and x.a[1]:
            x = x.a[1][0]
        if x.k in ("ite", "phi"):
            if not is_time_bound(x):
                return False
            ok = True
            continue
        if not (x.k == "param" and x.a[0] == "time_last"):
            return False
        ok = True
    return ok


def is_col(t, attr):
    """t is the column of a frame named by <entity>.<attr>"""
    t = strip_wrap(t)
    if t.k == "item":
        return any(x.k == "attr" and x.a[1] == attr for x in alts(t.a[1])) and \
            all(x.k == "attr" and x.a[1] == attr for x in alts(t.a[1]))
    return False


def exempt_atom(c, pol):
    if pol and c.k == "cmp" and c.a[0] in ("is", "==") and (c.a[2] is NONE or c.a[1] is NONE):
        x = c.a[1] if c.a[2] is NONE else c.a[2]
        return is_time_bound(x) or all(y.k == "attr" and y.a[1] == "time_index" for y in alts(x))
    if not pol and all(y.k == "attr" and y.a[1] == "time_index" for y in alts(c)):
        return True
    if pol and c.k == "attr" and c.a[1] == "empty":
        return True
    if pol and c.k == "cmp" and c.a[0] == "==" and c.a[2] is const(0) and c.a[1].k == "call" and c.a[1].a[0] == "len":
        return True
    if not pol and c.k == "call" and c.a[0] == "len":
        return True
    return False


def is_include(t):
    return t.k == "param" and t.a[0] == "include_cutoff_time"


def include_value(conds):
    for c, p in conds.items():
        if is_include(c):
            return p
        if c.k == "cmp" and c.a[0] in ("is", "==") and is_include(c.a[1]) and is_const(c.a[2]):
            return p == bool(cval(c.a[2]))
    return None


def time_op_ok(op, inc):
    return (op == "<=" and inc is True) or (op == "<" and inc is False)


def cmp_with_bound(f, attr):
    """op with the time-index column on the left, or None"""
    r = orient(f, is_time_bound)
    if r is None:
        return None
    op, l, b = r
    return op if is_col(l, attr) else None


def find_unfiltered(t, conds, layer_ok, ok_atom, out, seen, budget):
    """Follow the data spine; stop at layers that satisfy layer_ok (possibly splitting cases); collect roots reached
    without.  layer_ok(layer, conds) -> list of Conds under which the layer does NOT discharge."""
    stack = [(t, conds)]
    while stack:
        x, c = stack.pop()
        budget[0] -= 1
        if budget[0] < 0:
            raise Blowup()
        if c.exempt(ok_atom):
            continue
        key = (x, frozenset(c.d.items()))
        if key in seen:
            continue
        seen.add(key)
        if x.k == "ite":
            v = c.value(x.a[0])
            for pol, br in ((True, x.a[1]), (False, x.a[2])):
                if v is not None and v != pol:
                    continue
                c2 = c.add(x.a[0], pol)
                if c2 is not None:
                    stack.append((br, c2))
        elif x.k == "phi":
            for y in x.a[0]:
                stack.append((y, c))
        elif x.k == "item":
            b = x.a[0]
            if b.k == "attr" and b.a[1] in ("loc", "iloc"):
                b = b.a[0]
            for c2 in layer_ok(("item", x.a[1]), c):
                stack.append((b, c2))
        elif x.k == "upd":
            stack.append((x.a[1], c))
        elif x.k in ("mcall", "cbcall"):
            args = x.a[2] if x.k == "mcall" else x.a[3]
            if x.a[1] == "head" and args and args[0] is const(0):
                continue
            for c2 in layer_ok(("m", x.a[1], args, x), c):
                stack.append((x.a[0], c2))
        else:
            out.append((c, x))
    return out


def mask_cases(key, conds):
    try:
        return formula_cases(formula(key), conds)
    except Blowup:
        return None


def time_filter_layer(layer, conds):
    if layer[0] == "item":
        cs = mask_cases(layer[1], conds)
        if cs is None:
            raise Blowup()
        rest = []
        for c, f in cs:
            ok = False
            for g in conjuncts(f):
                op = cmp_with_bound(g, "time_index")
                if op is not None and time_op_ok(op, include_value(c)):
                    ok = True
            if not ok:
                rest.append(c)
        if len(rest) == len(cs):
            return [conds]
        return rest
    return [conds]


def describe(c, n=5):
    return "; ".join("%s=%s" % (show(x, 4), p) for x, p in list(c.items())[:n])


def check(ctx):
    p = ctx.p
    check_query(ctx, p)
    check_backend(ctx, p)


def query_engine(p):
    return method_engine(p, "EntitySet", "query_by_values",
                         inline=lambda f: f.name not in OPAQUE and f.name not in ("__init__", "_check_timedelta", "__getitem__"))


def check_query(ctx, p):
    e = query_engine(p)
    ctx.unit(e.entry)
    ctx.need(not e.truncated, "query_by_values too large to analyse")
    bad = find_unfiltered(e.result, Conds(), time_filter_layer, exempt_atom, [], set(), [20000])
    bad = [(c, x) for c, x in bad if contains(x, lambda y: y.k == "attr" and y.a[1] == "df")]
    ctx.stats["query_paths_unfiltered"] = len(bad)
    if bad:
        c, x = bad[0]
        ctx.bad("time-filter", "EntitySet.query_by_values", e.entry.loc,
                "rows of %s are returned without a time-index filter of the right kind when: %s" % (show(x, 3), describe(c)))
    else:
        ctx.ob("time-filter", "EntitySet.query_by_values", True, e.entry.loc)
    check_secondary(ctx, e)


def sec_atom(c, pol):
    if pol and c.k == "attr" and c.a[1] == "empty":
        return True
    return exempt_atom(c, pol) and not contains(c, lambda x: x.k == "attr" and x.a[1] == "time_index")


def is_sec_key(t):
    """iterates the names of the secondary time indexes"""
    return all(contains(x, lambda y: y.k == "attr" and y.a[1] == "secondary_time_index") for x in alts(t)) and bool(alts(t))


def sec_cols(t):
    ok = bool(alts(t))
    for x in alts(t):
        if x.k == "call" and x.a[0] in ("list", "tuple") and x.a[1]:
            x = x.a[1][0]
        ok = ok and ((x.k == "valof" and x.a[0].k == "attr") or (x.k == "item" and x.a[0].k == "attr" and
                                                                x.a[0].a[1] == "secondary_time_index"))
    return ok


def sec_mask_ok(m, guards):
    base = Conds()
    for c, pol in guards:
        b2 = base.add(c, pol)
        base = b2 if b2 is not None else base
    cs = mask_cases(m, base)
    if not cs:
        return False
    for c, f in cs:
        good = False
        for g in disjuncts(f):
            r = orient(g, is_time_bound)
            if r is None:
                continue
            op, l, b = r
            l = strip_wrap(l)
            if l.k == "item" and is_sec_key(l.a[1]):
                inc = include_value(c)
                if op == ">=" or (op == ">" and inc is True):
                    good = True
        if not good:
            return False
    return True


def blank(v):
    return v is NONE or (v.k == "glob" and v.a[0] in ("numpy.nan", "pandas.NaT", "pandas.NA", "numpy.NaN"))


def check_secondary(ctx, e):
    p = ctx.p
    hits = []
    for ev in e.evs("setitem"):
        v, k, r = ev.value, ev.key, ev.recv
        mask = cols = None
        if blank(v) and k.k == "tuple" and len(k.a[1]) == 2:
            mask, cols = k.a[1]
            whole = sec_cols(cols)
        elif v.k == "mcall" and v.a[1] in ("mask", "where") and v.a[2]:
            mask = v.a[2][0]
            if v.a[1] == "where":
                mask = mk("un", "~", mask)
            other = v.a[2][1] if len(v.a[2]) > 1 else const(None)
            if not blank(other):
                continue
            # k iterates the columns, or is the list of columns
            whole = k.k == "elem" and sec_cols(k.a[0]) or sec_cols(k)
        else:
            continue
        if not contains(k, lambda y: y.k == "attr" and y.a[1] == "secondary_time_index"):
            continue
        hits.append((ev, sec_mask_ok(mask, ev.guards) and whole))
    ctx.stats["secondary_time_hiding_sites"] = len(hits)
    frames = ("pandas", "dask", "koalas")

    def backend(c, pol, b):
        """literal about the backend consistent with b?  None if not about the backend"""
        if c.k == "call" and c.a[0] == "isinstance" and len(c.a[1]) == 2:
            s = show(c.a[1][1])
            w = "dask" if "dask" in s or "dd." in s else ("koalas" if "koalas" in s or "ks" in s else ("pandas" if "pandas" in s else None))
            return None if w is None else (w == b) == pol
        if c.k == "pcall" and "is_instance" in c.a[0].name:
            d = dict(c.a[1])
            mods = show(d.get("modules", NONE))
            hit = {"pandas": "pandas", "dask": "dask", "koalas": "ks"}[b] in mods
            return hit == pol
        return None

    def seckey(t):
        return contains(t, lambda y: y.k == "attr" and y.a[1] == "secondary_time_index")

    def ty_ok(guards, b):
        for c, pol in guards:
            for l, q in lits(c, pol) or [(c, pol)]:
                if l.k == "inloop" and seckey(l):
                    continue
                if l.k == "attr" and l.a[1] == "secondary_time_index" and q:
                    continue
                r = backend(l, q, b)
                if r is True:
                    continue
                if r is False:
                    return False
                if l.k in ("ite", "bool") or True:
                    # a condition whose failure implies an exempt situation
                    if exempt(l, not q, lambda a, pp: sec_atom(a, pp) or backend(a, pp, b) is False):
                        continue
                    return False
        return True
    for b in frames:
        ok = any(good and ty_ok(ev.guards, b) for ev, good in hits)
        # the blanked frame is what is returned
        ctx.ob("secondary-time", "EntitySet.query_by_values[%s]" % b, ok, hits[0][0].loc if hits else e.entry.loc,
               "values recorded at or after the cutoff are not hidden for columns of a secondary time index on the %s backend" % b)


# ------------------------------------------------------------------ back-end
CARRIED = ("include_cutoff_time", "training_window")


def top_leaves(t):
    """possible values of a scalar time term, conversions peeled"""
    out = []
    try:
        g = gated(t, limit=3000)
    except Blowup:
        return None
    for c, x in g:
        while True:
            if x.k == "call" and (x.a[0] in VALUE_CALLS) and x.a[1]:
                x = x.a[1][0]
            elif x.k == "mcall" and x.a[1] in ("to_pydatetime", "to_datetime64") and not x.a[2]:
                x = x.a[0]
            else:
                break
        if x.k in ("ite", "phi"):
            sub = top_leaves(x)
            if sub is None:
                return None
            out += [(c, y) for _, y in sub]
        else:
            out.append((c, x))
    return out


def is_cutoff_none(c, pol):
    return is_none_atom(c, pol, lambda x: has_param(x, "cutoff_time"))


def clock_or_inf(x):
    return (x.k == "call" and x.a[0].split(".")[-1] in ("now", "utcnow", "today")) or \
        (x.k == "glob" and x.a[0] in ("numpy.inf", "numpy.Inf", "numpy.infty", "math.inf")) or \
        (x.k == "call" and x.a[0] == "float") or x.k == "const"


def check_time_value(ctx, rule, construct, t, loc, what):
    lv = top_leaves(t)
    if lv is None:
        ctx.stats["undecided"] = ctx.stats.get("undecided", 0) + 1
        return
    bad = clock = None
    for c, x in lv:
        if clock_or_inf(x):
            if x is NONE:
                bad = bad or "it can be None (no time bound)"
            elif not c.exempt(is_cutoff_none):
                clock = (c, x)
            continue
        if x.k in ("bin", "un"):
            bad = "it is changed arithmetically: %s" % show(x, 3)
        elif not has_param(x, "cutoff_time"):
            bad = "it does not come from the caller's cutoff time: %s" % show(x, 3)
    ctx.ob(rule, construct, bad is None, loc, "%s: %s" % (what, bad))
    if clock is not None and approx_clock(clock[0]):
        construct = "rows queried (all aggregations approximated)" if rule == "cutoff-value" and what.startswith("time bound of the query") else construct + " (all aggregations approximated)"
    ctx.ob(rule + "-clock", construct, clock is None, loc,
           "%s: %s although the caller gave cutoff times, when %s" % (what, clock and show(clock[1], 2), clock and describe(clock[0])))


def carried_ok(t, name, extra_none=None):
    """t is the public parameter `name` (through conversions); None allowed where extra_none(conds)"""
    for c, x in gated(t):
        while x.k == "pcall" and x.a[0].name in ("_check_timedelta",):
            x = dict(x.a[1]).get(x.a[0].all_params()[0])
        if x.k == "param" and x.a[0] == name:
            continue
        if x is NONE and is_none_const_ok(c, name):
            continue
        if x is NONE and extra_none and c.exempt(extra_none):
            continue
        return False, (c, x)
    return True, None


def is_none_const_ok(c, name):
    return c.exempt(lambda a, pol: is_none_atom(a, pol, lambda y: y.k == "param" and y.a[0] == name))


def approx_given(c, pol):
    """literal implying approximate is not None / truthy"""
    if not pol and c.k == "cmp" and c.a[0] in ("is", "==") and c.a[2] is NONE:
        return all(x.k == "param" and x.a[0] == "approximate" for x in alts(c.a[1]))
    return pol and c.k == "param" and c.a[0] == "approximate"


def route_of(ev):
    names = [f.name for f in ev.stack]
    return ">".join(n for n in names if not n.startswith("<"))


def check_backend(ctx, p):
    e = cfm_engine(p)
    ctx.need(not e.truncated, "back-end too large to analyse")
    ctx.stats["backend_events"] = len(e.events)
    for f in {ev.func for ev in e.events}:
        ctx.unit(f)
    q = [(ev, c) for ev, c in events_calling(e, lambda c: c.name == "query_by_values" and c.cls is not None)]
    ctx.need(q, "no entity query found in the computation back-end")
    ctx.stats["query_contexts"] = len(q)
    n_cfm = p.public("calculate_feature_matrix")
    for ev, c in q:
        b = ev.bound
        con = "query_by_values in %s" % ev.func.name
        loc = ev.loc
        ok, w = carried_ok(b["include_cutoff_time"], "include_cutoff_time")
        ctx.ob("cutoff-forwarding", con + ":include_cutoff_time", ok, loc, "query is not given the caller's include_cutoff_time: %s [%s]" % (w and show(w[1], 3), route_of(ev)))
        ok, w = carried_ok(b["training_window"], "training_window", approx_given)
        ctx.ob("cutoff-forwarding", con + ":training_window", ok, loc, "query is not given the caller's training_window: %s [%s]" % (w and show(w[1], 3), route_of(ev)))
        check_time_value(ctx, "cutoff-value", con + ":time_last", b["time_last"], loc, "time bound of the query [%s]" % route_of(ev))
    # nested public computation (approximation)
    rec = [(ev, c) for ev, c in events_calling(e, lambda c: c.node is n_cfm.node)]
    for ev, c in rec:
        b = ev.bound
        con = "calculate_feature_matrix in %s" % ev.func.name
        for nm in CARRIED:
            ok, w = carried_ok(b[nm], nm)
            ctx.ob("cutoff-forwarding", con + ":" + nm, ok, ev.loc, "nested computation is not given the caller's %s: %s" % (nm, w and show(w[1], 3)))
        ct = b["cutoff_time"]
        ctx.ob("cutoff-value", con + ":cutoff_time", has_param(ct, "cutoff_time") or not (ct.k == "const"), ev.loc,
               "nested computation is not given the cutoff times")
    own = {}
    for ev in e.evs("call"):
        for c in ev.d.get("callee") or []:
            if ev.d.get("bound") and not ev.d.get("inlined") and any(f.node is c.node for f in ev.stack) and c.node is not n_cfm.node:
                own.setdefault(c.node, c)
    for c in own.values():
        check_recursive(ctx, p, c)
    # recursive evaluation of linked entities: every carried parameter of a recursive call is re-passed
    for ev in e.evs("call"):
        for c in ev.d.get("callee") or []:
            if ev.d.get("bound") and not ev.d.get("inlined") and any(f.node is c.node for f in ev.stack) and c.node is not n_cfm.node:
                for nm in CARRIED + ("time_last",):
                    if nm in ev.bound and nm in c.all_params():
                        mine = carried_ok(ev.bound[nm], nm, approx_given)[0] if nm != "time_last" else has_param(ev.bound[nm], "cutoff_time")
                        ctx.ob("cutoff-forwarding", "recursive %s:%s" % (c.name, nm), mine, ev.loc,
                               "%s is not passed on to the linked entity's computation" % nm)
    check_frames(ctx, e)
    check_binning(ctx, e, p)
    check_calc_time(ctx, e)


def check_recursive(ctx, p, m):
    """the queries of a recursive evaluator, whatever its own arguments are at some depth"""
    e = Engine(p, max_depth=6, budget=400000, types={"entityset": "EntitySet"}, inline=lambda f: cfm_inline(f) and f is not m, inline_properties=False)
    e.run(m)
    ctx.unit(m)
    for ev, c in events_calling(e, lambda c: c.name == "query_by_values" and c.cls is not None):
        for nm, what in (("time_last", "the time bound"), ("training_window", "the training window"), ("include_cutoff_time", "the choice to include the cutoff")):
            v = ev.bound.get(nm)
            bad = None
            for cs, x in gated(v) if v is not None else ():
                src = [y for y in walk(x) if y.k in ("param", "attr")]
                if src and not clock_or_inf(x) and x.k not in ("bin", "un"):
                    continue
                if x is NONE and any(a.k == "cmp" and a.a[0] in ("is", "==") and a.a[2] is NONE and pol and has_attr(a.a[1], nm) for a, pol in cs.items()):
                    continue
                bad = bad or (cs, x)
            ctx.ob("cutoff-forwarding", "query in %s at any depth:%s" % (m.name, nm), v is not None and bad is None, ev.loc,
                   "%s of a linked entity's query is %s when %s" % (what, bad and show(bad[1], 2), bad and describe(bad[0])))


def has_attr(t, nm):
    return contains(t, lambda y: y.k == "attr" and y.a[1] == nm or y.k == "param" and y.a[0] == nm)


def check_frames(ctx, e):
    """reads of stored entity frames inside the back-end"""
    entry = e.entry
    # uses of <entity>.df that carry row values: anything but isinstance / dtype / columns / emptiness / key columns / the time filter
    n = 0
    allowed_attr = {"dtype", "dtypes", "columns", "empty", "shape", "index", "cat"}

    def stored(t):
        return t.k == "attr" and t.a[1] == "df" and not t.a[0].k == "part"
    seen = set()
    for ev in e.events:
        if ev.func.cls is not None and ev.func.cls.name == "EntitySet":
            continue        # the query side, decided by time-filter / default-instances
        if ev.kind == "call" and ev.d.get("bound") is None and ev.d.get("term") is not None and ev.d.get("recv") is not None:
            r = ev.recv
            if stored(r) and ev.name in ("merge", "join", "groupby", "apply", "query", "set_index", "copy", "compute", "iterrows",
                                         "head", "sample", "sort_values", "itertuples", "agg", "assign", "to_pandas"):
                key = (ev.func.qual, ev.name)
                if key not in seen:
                    seen.add(key)
                    ctx.bad("unfiltered-read", "%s in %s" % (ev.name, ev.func.qual), ev.loc,
                            "rows of the stored frame are used without the time filter")
        if ev.kind == "getitem" and (stored(ev.recv) or (ev.recv.k == "attr" and ev.recv.a[1] in ("loc", "iloc") and stored(ev.recv.a[0]))):
            n += 1
            # allowed: columns that are index / linking variables
            if keyish(ev.key):
                continue
            key = (ev.func.qual, show(ev.key, 3))
            if key not in seen:
                seen.add(key)
                ctx.bad("unfiltered-read", "stored frame[%s] in %s" % (show(ev.key, 2), ev.func.qual), ev.loc,
                        "rows of the stored frame are used without the time filter")
    ctx.stats["stored_frame_reads"] = n
    # instance ids default: target entity's frame reaches ids only through the time filter
    for ev in e.evs("call"):
        for c in ev.d.get("callee") or []:
            b = ev.d.get("bound")
            if b and "df" in b and c.cls is not None and c.cls.name == "EntitySet" and "time_last" in b:
                con = "%s in %s" % (c.name, ev.func.name)
                ok, w = carried_ok(b.get("include_cutoff_time", NONE), "include_cutoff_time")
                ctx.ob("cutoff-forwarding", con + ":include_cutoff_time", ok, ev.loc, "time filter of the default instances is not given include_cutoff_time")
                ok, w = carried_ok(b.get("training_window", NONE), "training_window")
                ctx.ob("cutoff-forwarding", con + ":training_window", ok, ev.loc, "time filter of the default instances is not given training_window")
                check_time_value(ctx, "cutoff-value", con + ":time_last", b["time_last"], ev.loc, "time bound of the default instances")
    # default instances: leaves of the ids that come from the stored frame must be time-filtered
    for ev, c in [(ev, c) for ev, c in events_calling(e, lambda c: c.name == "run" and c.cls is not None)]:
        ids = ev.bound.get("instance_ids") or ev.bound.get(c.params()[1])
        bad = unfiltered_ids(ids)
        ctx.ob("default-instances", "instance ids in %s" % ev.func.name, bad is None, ev.loc,
               "default instance ids come from the stored frame without a time filter: %s" % (bad and show(bad, 3)))


def keyish(k):
    for x in alts(k):
        xs = x.a[1] if x.k in ("list", "tuple") else (x,)
        for y in xs:
            for z in alts(y):
                if z.k == "attr" and z.a[1] in ("index", "id", "_child_variable_id", "_parent_variable_id"):
                    continue
                if z.k == "pcall" or z.k == "mcall":
                    continue
                return False
    return True


def unfiltered_ids(t):
    def layer(l, conds):
        if l[0] == "item":
            cs = mask_cases(l[1], conds)
            if cs is None:
                raise Blowup()
            rest = []
            for c, f in cs:
                if not any(g[0] == "cmp" and g[1] in ("<", "<=", ">", ">=") for g in conjuncts(f)):
                    rest.append(c)
            return rest
        return [conds]

    def atom(c, pol):
        if pol and c.k == "cmp" and c.a[0] in ("is", "==") and c.a[2] is NONE:
            return not has_param(c.a[1], "instance_ids")
        if not pol and all(y.k == "attr" and y.a[1] == "time_index" for y in alts(c)):
            return True
        return pol and c.k == "attr" and c.a[1] == "empty"
    try:
        out = find_unfiltered(t, Conds(), layer, atom, [], set(), [40000])
    except Blowup:
        return None
    for c, x in out:
        if x.k == "attr" and x.a[1] == "df":
            return x
    return None


def check_binning(ctx, e, p):
    floors = []
    for ev in e.evs("call"):
        if ev.func.name == "datetime_round" or ev.d.get("name") in ("floor", "round", "ceil"):
            if ev.d.get("name") in ("floor", "round", "ceil") and ev.d.get("recv") is not None:
                floors.append(ev)
    for ev in floors:
        if ev.recv.k == "attr" and ev.recv.a[1] == "dt":
            ctx.ob("bin-floor", "%s in %s" % (ev.name, ev.func.name), ev.name == "floor", ev.loc,
                   "cutoffs are rounded with %s: an approximated value may use data after its cutoff" % ev.name)
    # integer bins: v // b * b
    for ev in e.events:
        if ev.kind == "call" and ev.d.get("name") in ("apply", "map") and ev.d.get("recv") is not None:
            r = ev.recv
    for ev in e.evs("setitem"):
        if ev.key is const("time") and has_param(ev.value, "approximate"):
            for c, x in gated(ev.value, limit=500):
                vs = [y for y in walk(x) if y.k == "bin" and y.a[0] == "*"] if x.k in ("cbcall", "bin", "mcall") else []
                for y in vs:
                    # v / b * b with the bin width b
                    div = [z for z, o in ((y.a[1], y.a[2]), (y.a[2], y.a[1])) if z.k == "bin" and z.a[0] in ("/", "//") and z.a[2] is o
                           and has_param(o, "approximate")]
                    for z in div:
                        ctx.ob("bin-floor", "numeric bins in %s" % ev.func.name, z.a[0] == "//", ev.loc,
                               "numeric cutoffs are divided without rounding down: bins have no effect")
            frm = [y for y in alts(ev.value) if contains(y, lambda z: z is const("_original_time"))]
    # original time is used for what is not approximated: some write of the group's time from the preserved original column
    rest = False
    for ev in e.evs("setitem"):
        if contains(ev.key, lambda z: z is const("time")) and ev.value.k == "item" and is_const(ev.value.a[1]) and isinstance(cval(ev.value.a[1]), str) and ev.value.a[1] is not const("time"):
            rest = True
            col = ev.value.a[1]
    saves = [ev for ev in e.evs("setitem") if is_const(ev.key) and isinstance(cval(ev.key), str) and cval(ev.key) not in ("time",)
             and ev.value.k == "item" and ev.value.a[1] is const("time") and has_param(ev.value, "cutoff_time")]
    ctx.ob("original-time", "unbinned cutoff restored", rest, e.entry.loc,
           "features that are not approximated are computed at the binned cutoff instead of the caller's")
    for ev in saves:
        binned = contains(identity(ev.value.a[0]), lambda z: z.k == "param" and z.a[0] == "approximate")
        src_binned = any(u.k == "upd" and u.a[0] == "setitem" and u.a[2][0] is const("time") and has_param(u.a[2][1], "approximate")
                         for u in spine_upds(ev.value.a[0]))
        if cval(ev.key) == (cval(col) if rest else "_original_time"):
            ctx.ob("original-time", "original cutoff preserved", not src_binned, ev.loc, "the preserved original cutoff is the binned one")


def spine_upds(t):
    out = []
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "upd":
            out.append(x)
            st.append(x.a[1])
        elif x.k == "ite":
            st += [x.a[1], x.a[2]]
        elif x.k == "phi":
            st += list(x.a[0])
        elif x.k == "mcall" and x.a[1] in ("copy",):
            st.append(x.a[0])
    return out


def check_calc_time(ctx, e):
    n = 0
    seen = set()
    for ev in e.evs("call"):
        d = dict(ev.d.get("kws") or ())
        if "time" in d and ev.d.get("name") is None:
            n += 1
            t = d["time"]
            con = "time= in %s" % ev.func.name
            lv = top_leaves(t)
            if lv is None:
                continue
            # a keyword passed on some ways only
            lv = [(c, x) for c, x in lv if not (x.k == "undef" or x.k == "call" and x.a[0] == "undef")]
            bad = [x for c, x in lv if x.k in ("bin", "un") or (clock_or_inf(x) and not c.exempt(is_cutoff_none) and not approx_clock(c)) or
                   not (clock_or_inf(x) or has_param(x, "cutoff_time"))]
            ctx.ob("calc-time", con, not bad, ev.loc, "calculation time handed to the primitive is not the cutoff: %s" % (bad and show(bad[0], 3)))
    ctx.stats["calc_time_sites"] = n


def approx_clock(c):
    return c.exempt(approx_given)
