"""Gated value-flow over EntitySet.query_by_values and over the whole calculate_feature_matrix back-end.
R1 every data path of the entity query passes, under a training window, a filter that keeps a row only if its
time index or its last time index is after bound-minus-window (> when the cutoff is included, >= when not).
R2 the window given to every query and nested computation is the caller's.  R3 every frame that is aggregated
has passed the where filter of the features aggregated, unless they have none.  R4 it has passed the
use_previous filter (time index >= cutoff - span, or the last n rows per group), and the last n rows are
taken after the where filter."""
from ..util import *  # noqa
from .c01 import (is_col, is_time_bound, exempt_atom, include_value, mask_cases, find_unfiltered, query_engine, describe,
                  carried_ok, approx_given, route_of)

TECHNIQUE = "gated value-flow analysis of the window, where and use_previous filters on every data path"
LEVEL_NOTE = ("Decides for all inputs that the narrowing filters, with the right edges, lie on every data path into an aggregation; "
              "pandas comparison and Timedelta arithmetic are assumed.")
MIN_INSTANCES = {"window-filter": 1, "where-filter": 1, "use-previous-filter": 1, "window-forwarding": 1}


def is_window(t):
    ok = False
    for x in alts(t):
        while x.k == "pcall" and x.a[0].name == "_check_timedelta":
            x = dict(x.a[1]).get(x.a[0].all_params()[0])
        if x.k in ("ite", "phi"):
            if not is_window(x):
                return False
        elif not (x.k == "param" and x.a[0] == "training_window"):
            return False
        ok = True
    return ok


def is_edge(t):
    return all(x.k == "bin" and x.a[0] == "-" and is_time_bound(x.a[1]) and is_window(x.a[2]) for x in alts(t)) and bool(alts(t))


def win_atom(c, pol):
    if exempt_atom(c, pol):
        return True
    if is_none_atom(c, pol, is_window):
        return True
    return not pol and is_window(c)


def no_lti(c, pol):
    return is_none_atom(c, pol, lambda x: all(y.k == "attr" and y.a[1] == "last_time_index" for y in alts(x)))


def is_lti(t):
    return all(strip_wrap(x).k == "attr" and strip_wrap(x).a[1] == "last_time_index" for x in alts(t))


def window_layer(layer, conds):
    if layer[0] != "item":
        return [conds]
    cs = mask_cases(layer[1], conds)
    if cs is None:
        raise Blowup()
    rest = []
    hit = False
    for c, f in cs:
        ok = False
        for g in conjuncts(f):
            ds = disjuncts(g)
            kinds = set()
            for d in ds:
                r = orient(d, is_edge)
                inc = include_value(c)
                if r is None:
                    kinds.add("other")
                    continue
                op, l, b = r
                if not ((op == ">" and inc is True) or (op == ">=" and inc is False)):
                    kinds.add("badop")
                elif is_col(l, "time_index"):
                    kinds.add("ti")
                elif is_lti(l):
                    kinds.add("lti")
                else:
                    kinds.add("other")
            if kinds == {"ti", "lti"} or (kinds == {"ti"} and c.exempt(no_lti)):
                ok = True
        if not ok:
            rest.append(c)
        else:
            hit = True
    return rest if hit else [conds]


def any_edge_layer(t):
    return contains(t, lambda x: x.k == "bin" and x.a[0] == "-" and is_edge(x))


def check(ctx):
    p = ctx.p
    e = query_engine(p)
    ctx.unit(e.entry)
    bad = find_unfiltered(e.result, Conds(), window_layer, win_atom, [], set(), [60000])
    bad = [(c, x) for c, x in bad if contains(x, lambda y: y.k == "attr" and y.a[1] == "df")]
    ctx.ob("window-filter", "EntitySet.query_by_values", not bad, e.entry.loc,
           "rows are returned without the training-window filter (own time or last time index after cutoff - window) when: %s"
           % (bad and describe(bad[0][0], 8)))
    # nothing else may be lost through the window arithmetic: every comparison against the edge has the right kind
    b = cfm_engine(p)
    ctx.need(not b.truncated, "back-end too large to analyse")
    for f in {ev.func for ev in b.events}:
        ctx.unit(f)
    forwarding(ctx, b)
    aggregations(ctx, b)


def forwarding(ctx, e):
    p = ctx.p
    n_cfm = p.public("calculate_feature_matrix")
    for ev in e.evs("call"):
        for c in ev.d.get("callee") or []:
            bd = ev.d.get("bound")
            if not bd or "training_window" not in bd:
                continue
            if ev.d.get("inlined"):
                continue
            recursive = c.node is n_cfm.node
            ok, w = carried_ok(bd["training_window"], "training_window", approx_given)
            ctx.ob("window-forwarding", "%s in %s" % (c.name, ev.func.name), ok, ev.loc,
                   "training_window given to %s is not the caller's: %s [%s]" % (c.name, w and show(w[1], 3), route_of(ev)))


def trie_frame(t):
    """frame of an already computed node: <trie>.get_node(..).value"""
    return t.k == "attr" and t.a[1] == "value"


def where_layer(layer, conds):
    if layer[0] != "item":
        return [conds]
    rest, hit = [], False
    try:
        cs = formula_cases(formula(layer[1]), conds)
    except Blowup:
        return [conds]
    for c, f in cs:
        ok = False
        for g in conjuncts(f):
            if g[0] == "raw" and g[2] and g[1].k == "item" and has_attr(g[1].a[1], "where"):
                ok = True
            if g[0] == "cmp" and g[1] == "==" and g[3] is const(True) and g[2].k == "item" and has_attr(g[2].a[1], "where"):
                ok = True
        if ok:
            hit = True
        else:
            rest.append(c)
    return rest if hit else [conds]


def where_atom(c, pol):
    if is_none_atom(c, pol, lambda x: all(y.k == "attr" and y.a[1] == "where" for y in alts(x))):
        return True
    if not pol and all(y.k == "attr" and y.a[1] == "where" for y in alts(c)):
        return True
    return empty_atom(c, pol)


def empty_atom(c, pol):
    if pol and c.k == "attr" and c.a[1] == "empty":
        return True
    if pol and c.k == "cmp" and c.a[0] == "==" and c.a[2] is const(0):
        return c.a[1].k == "call" and c.a[1].a[0] == "len" or c.a[1].k == "item"
    return False


def is_up(t):
    return all(y.k == "attr" and y.a[1] == "use_previous" for y in alts(t)) and bool(alts(t))


def up_atom(c, pol):
    if empty_atom(c, pol):
        return True
    if is_none_atom(c, pol, is_up):
        return True
    if not pol and is_up(c):
        return True
    # no time index to compare
    if is_none_atom(c, pol, lambda x: all(y.k == "attr" and y.a[1] == "time_index" for y in alts(x))):
        return True
    return not pol and all(y.k == "attr" and y.a[1] == "time_index" for y in alts(c))


def last_n(x):
    """cbcall / mcall keeping the last n rows of each group, n from use_previous"""
    if x.k == "mcall" and x.a[1] == "tail" and x.a[2] and has_attr(x.a[2][0], "use_previous"):
        return True
    if x.k != "cbcall":
        return False
    r = x.a[2]
    if r.k == "mcall" and r.a[1] == "tail" and r.a[2] and has_attr(r.a[2][0], "use_previous"):
        return True
    if r.k == "item" and r.a[0].k == "attr" and r.a[0].a[1] == "iloc":
        r = mk("item", r.a[0].a[0], r.a[1])
    if r.k == "item" and r.a[1].k == "slice":
        lo, hi, st = r.a[1].a
        return lo.k == "un" and lo.a[0] == "-" and has_attr(lo, "use_previous") and hi is NONE and st is NONE and lo.a[1].k != "bin"
    return False


PICKS = {"head", "tail", "nlargest", "nsmallest", "sample", "sort_values", "iloc", "loc", "copy", "reset_index"}


def row_picker(x):
    """callback that returns part of its own rows"""
    if x.k != "cbcall":
        return False
    r = x.a[2]
    n = 0
    while True:
        if r.k == "item":
            r = r.a[0]
        elif r.k == "attr" and r.a[1] in PICKS:
            r = r.a[0]
        elif r.k == "mcall" and r.a[1] in PICKS:
            r = r.a[0]
        else:
            break
        n += 1
    return n > 0 and r.k == "part"


def obs_value(conds):
    for c, pol in conds.items():
        s = None
        if c.k in ("pcall", "mcall"):
            nm = c.a[0].name if c.k == "pcall" else c.a[1]
            if nm == "has_no_observations":
                return not pol
            if nm == "has_observations":
                return pol
    return None


def up_layer(layer, conds):
    if layer[0] == "m":
        if last_n(layer[3]):
            return []
        return [conds]
    rest, hit = [], False
    try:
        cs = formula_cases(formula(layer[1]), conds)
    except Blowup:
        return [conds]
    for c, f in cs:
        ok = False
        for g in conjuncts(f):
            r = orient(g, lambda t: t.k == "bin" and t.a[0] == "-" and is_up(t.a[2]))
            if r is not None and r[0] == ">=" and is_col(r[1], "time_index") and not (r[2].a[1].k == "bin"):
                ok = True
        if ok:
            hit = True
        else:
            rest.append(c)
    return rest if hit else [conds]


def aggregations(ctx, e):
    n = 0
    done = set()
    for ev in e.evs("call"):
        if ev.d.get("name") not in ("agg", "apply", "aggregate") or ev.d.get("recv") is None or ev.d.get("bound"):
            continue
        r = ev.recv
        if r.k != "mcall" or r.a[1] != "groupby":
            continue
        x = r.a[0]
        try:
            roots = find_unfiltered(x, Conds(), lambda l, c: [c], lambda c, q: False, [], set(), [20000])
        except Blowup:
            continue
        if not any(trie_frame(t) for _, t in roots):
            continue
        # the row-picking group step of use_previous is a filter itself, not an aggregation
        if ev.d.get("cb") is not None and row_picker(ev.cb):
            bw = find_unfiltered(x, guard_conds(ev), where_layer, where_atom, [], set(), [20000])
            ctx.ob("where-before-last-n", "%s:%s" % (ev.func.name, "last n"), not bw, ev.loc,
                   "the last n observations are taken before the where-condition is applied")
            continue
        n += 1
        g = guard_conds(ev)
        con = "%s in %s" % (ev.name, ev.func.name)
        bw = find_unfiltered(x, g, where_layer, where_atom, [], set(), [40000])
        bw = [(c, y) for c, y in bw if trie_frame(y)]
        ctx.ob("where-filter", con, not bw, ev.loc, "aggregated rows are not restricted to the where-condition when: %s" % (bw and describe(bw[0][0])))
        bu = find_unfiltered(x, g, up_layer, up_atom, [], set(), [40000])
        bu = [(c, y) for c, y in bu if trie_frame(y)]
        ctx.ob("use-previous-filter", con, not bu, ev.loc, "aggregated rows are not restricted to use_previous when: %s" % (bu and describe(bu[0][0])))
        # span filter must not be used for observation counts and vice versa
    ctx.stats["aggregation_sites"] = n
    ctx.need(n > 0, "no aggregation over a computed frame found")


def guard_conds(ev):
    c = Conds()
    for g, pol in ev.guards:
        c2 = c.add(g, pol)
        if c2 is not None:
            c = c2
    return c
