"""Value-flow from the public entry points.  R1 dfs hands each of its options, unchanged, to the feature
builder and to calculate_feature_matrix.  R2 package-wide: where a function has an option (a parameter named
like a public option) and calls something that accepts the same option, it passes its own.  R3 the function
evaluated per chunk gets the same option values on the in-process and on the distributed route.
R4 each option of calculate_feature_matrix reaches, on each route, the operation that gives it its effect.
R5 every option stored by the feature builder is read by it, and no public option is accepted and ignored."""
import ast
from ..util import *  # noqa
from .c01 import approx_given, route_of

TECHNIQUE = "inter-procedural value-flow (option provenance at every call site, route parity)"
LEVEL_NOTE = ("Decides that each option's value reaches its consumers unmodified on both routes; what the consumer does with it is the "
              "subject of the other properties.")
MIN_INSTANCES = {"dfs-forwarding": 20, "route-parity": 5, "option-forwarding": 10, "option-effect": 10}

# the option is allowed to be replaced by a constant at these points (semantics: see reason)
SPLIT_OPTIONS = {"chunk_size", "progress_bar", "progress_callback", "cutoff_time", "instance_ids", "entityset", "entities",
                 "relationships", "features", "dask_kwargs", "verbose", "target_entity", "path"}


def is_exactly(t, name):
    """every value t may have is the parameter itself (None-defaulting `p or {}` accepted)"""
    for c, x in gated(t, limit=2000):
        if x.k == "bool" and x.a[0] == "or":
            x = x.a[1][0]
        while x.k == "pcall" and x.a[0].name == "_check_timedelta":
            x = dict(x.a[1]).get(x.a[0].all_params()[0])
        if x.k == "param" and x.a[0] == name:
            continue
        if is_const(x) and c.exempt(lambda a, pol: pinned(a, pol, name, x)):
            continue
        return False, (c, x)
    return True, None


def pinned(a, pol, name, x):
    return pol and a.k == "cmp" and a.a[0] in ("is", "==") and a.a[1].k == "param" and a.a[1].a[0] == name


def check(ctx):
    p = ctx.p
    dfs_forwarding(ctx, p)
    name_forwarding(ctx, p)
    e = cfm_engine(p)
    ctx.need(not e.truncated, "back-end too large to analyse")
    for f in {ev.func for ev in e.events}:
        ctx.unit(f)
    parity(ctx, e)
    exact(ctx, e)
    handed_on(ctx, e)
    effects(ctx, e)
    stored(ctx, p)


def dfs_forwarding(ctx, p):
    dfs = p.public("dfs")
    cfm = p.public("calculate_feature_matrix")
    builder = p.cls("DeepFeatureSynthesis")
    e = Engine(p, inline=lambda f: f.module is dfs.module or (f.name == "__init__" and False), max_depth=6, inline_properties=False)
    e.run(dfs)
    ctx.unit(dfs)
    mine = set(dfs.all_params())
    targets = {}
    for ev in e.events:
        if ev.kind == "new" and ev.cls is builder:
            targets.setdefault("DeepFeatureSynthesis", []).append((ev, ev.init))
        elif ev.kind == "call":
            for c in ev.d.get("callee") or []:
                if c.node is cfm.node:
                    targets.setdefault("calculate_feature_matrix", []).append((ev, c))
                elif c.cls is not None and c.cls is builder:
                    targets.setdefault("DeepFeatureSynthesis." + c.name, []).append((ev, c))
    ctx.need("DeepFeatureSynthesis" in targets and "calculate_feature_matrix" in targets, "dfs no longer builds features and computes them")
    covered = set()
    for name, evs in targets.items():
        for ev, c in evs:
            b = ev.d.get("bound")
            if b is None:
                continue
            for q in c.all_params():
                src = q if q in mine else ("target_entity" if q == "target_entity_id" else None)
                if src is None or q == "self" or q == "features":
                    continue
                covered.add(src)
                if src == "entityset":
                    ok = has_param(b[q], "entityset")
                    ctx.ob("dfs-forwarding", "%s(%s)" % (name, q), ok, ev.loc, "the EntitySet used is not the caller's")
                    continue
                ok, w = is_exactly(b[q], src)
                # entities / relationships may be left out once folded into the entityset
                if not ok and src in ("entities", "relationships") and name == "calculate_feature_matrix":
                    continue
                ctx.ob("dfs-forwarding", "%s(%s)" % (name, q), ok, ev.loc,
                       "option %s reaches %s as %s" % (src, name, w and show(w[1], 3)))
    for ev in e.evs("new"):
        if ev.cls.name == "EntitySet":
            b = ev.bound or {}
            for q in ("entities", "relationships"):
                covered.add(q)
                ctx.ob("dfs-forwarding", "EntitySet(%s)" % q, is_exactly(b.get(q, NONE), q)[0], ev.loc, "%s not passed to the new EntitySet" % q)
    for o in mine - covered:
        used = any(contains(g, lambda x: x.k == "param" and x.a[0] == o) for ev in e.events for g, _ in ev.guards)
        ctx.ob("dfs-forwarding", "dfs(%s)" % o, used, dfs.loc, "option %s of dfs is never used" % o)
    # features_only: the matrix is not computed
    for ev, c in targets["calculate_feature_matrix"]:
        ok = any(contains(g, lambda x: x.k == "param" and x.a[0] == "features_only") for g, pol in ev.guards)
        ctx.ob("dfs-forwarding", "dfs(features_only)", ok, ev.loc, "features_only has no effect")


def public_options(p):
    out = set()
    for n in ("dfs", "calculate_feature_matrix", "encode_features"):
        out |= set(p.public(n).all_params())
    return out


def name_forwarding(ctx, p):
    opts = public_options(p) - SPLIT_OPTIONS
    cfm = p.public("calculate_feature_matrix")
    n = 0
    for fi in p.all_functions():
        mine = set(fi.all_params()) & opts
        if not mine:
            continue
        e = Engine(p, inline=lambda f: False, budget=60000, inline_properties=False)
        e.run(fi)
        ctx.unit(fi)
        for ev in e.events:
            if ev.kind not in ("call", "new") or not ev.d.get("bound"):
                continue
            c = ev.init if ev.kind == "new" else ev.callee[0]
            for q in c.all_params():
                if q not in mine or q not in ev.bound:
                    continue
                if q == "approximate" and c.node is cfm.node:
                    continue    # the nested computation of approximated features must not approximate again
                n += 1
                ok = has_param(ev.bound[q], q)
                ctx.ob("option-forwarding", "%s -> %s(%s)" % (fi.qual, c.qual, q), ok, ev.loc,
                       "%s has option %s but hands %s to %s" % (fi.qual, q, show(ev.bound[q], 3), c.qual))
            if ev.d.get("virtual"):
                continue
    ctx.stats["option_call_sites"] = n


def cfm_n_jobs(guards):
    """'parallel' / 'serial' / None by the guards on n_jobs/dask_kwargs"""
    for g, pol in guards:
        if g.k in ("bool", "cmp", "ite", "not") and contains(g, lambda x: x.k == "param" and x.a[0] == "n_jobs") and \
                not contains(g, lambda x: x.k in ("call", "mcall", "pcall")):
            at = [x for x in walk(g) if x.k == "cmp" and x.a[1].k == "param" and x.a[1].a[0] == "n_jobs"]
            if not at:
                continue
            # distributed iff n_jobs != 1 or cluster options were given
            tv = Conds().add(mk("cmp", "==", at[0].a[1], const(1)), False)
            v = tv.value(g)
            if v is True:
                return "parallel" if pol else "serial"
            if v is False:
                return "serial" if pol else "parallel"
    return None


def parity(ctx, e):
    by = {}
    for ev in e.evs("call"):
        r = cfm_n_jobs(ev.guards)
        if r is None or not ev.d.get("bound"):
            continue
        for c in ev.d.get("callee") or []:
            by.setdefault(c.node, {}).setdefault(r, []).append((ev, c))
    ctx.need(any(len(v) == 2 for v in by.values()), "no function computed on both routes found")
    # the outermost function evaluated on both routes
    best = None
    for node, v in by.items():
        if "serial" in v and "parallel" in v:
            d = min(len(ev.stack) for ev, _ in v["serial"])
            if best is None or d < best[0]:
                best = (d, v)
    v = best[1]
    ev_s, c = v["serial"][0]
    for ev_p, _ in v["parallel"]:
        for q in c.all_params():
            if q not in ev_s.bound:
                continue
            ts, tp = ev_s.bound[q], ev_p.bound[q]
            if ts is tp:
                ok = True
            elif q in ("progress_bar",) or (tp is NONE and has_kind(ts, "pcall") and show(ts).find("tqdm") >= 0):
                ok = True       # display only
            elif tp is NONE and has_param(ts, "chunk_size") and not has_param(ts, "cutoff_time_in_index"):
                # already split: the mapped chunks depend on chunk_size
                ok = any(has_param(x, "chunk_size") for x in ev_p.bound.values())
            elif contains(tp, lambda x: x is ts):
                # the same object shipped to the workers
                ok = True
            else:
                ats, atp = atoms(ts), atoms(tp)
                shared = {x for x in ats if x.k == "param"}
                ok = bool(shared) and shared <= {x for x in atp if x.k == "param"} and not is_const(tp) and \
                    not any(x.k == "param" for x in alts(ts))
            ctx.ob("route-parity", "%s(%s)" % (c.name, q), ok, ev_p.loc,
                   "in-process: %s, distributed: %s" % (show(ts, 3), show(tp, 3)))


EXACT = {"approximate", "include_cutoff_time", "training_window", "save_progress", "n_jobs", "dask_kwargs", "cutoff_time_in_index",
         "progress_callback"}


def exact(ctx, e):
    """wherever a callee takes an option by its public name, it gets the public value"""
    cfm = e.entry
    for ev in e.evs("call"):
        b = ev.d.get("bound")
        if not b:
            continue
        for c in ev.d.get("callee") or []:
            rec = c.node is cfm.node
            for q in EXACT & set(b):
                if rec and q in ("approximate", "save_progress", "n_jobs", "dask_kwargs", "cutoff_time_in_index", "progress_callback"):
                    continue
                if q == "progress_callback" and b[q].k != "param":
                    # wrapped callbacks are checked by option-effect
                    continue
                ok, w = is_exactly(b[q], q)
                if not ok and q == "training_window" and w[1] is NONE and w[0].exempt(approx_given):
                    ok = True   # documented approximation shortcut, see C01 known finding
                if not ok and w[1] is NONE and is_none_const(w[0], q):
                    ok = True
                ctx.ob("option-forwarding", "%s(%s) in %s" % (c.name, q, ev.func.name), ok, ev.loc,
                       "option %s is %s instead of the caller's value [%s]" % (q, w and show(w[1], 3), route_of(ev)))


def handed_on(ctx, e):
    """an option handed on under another name (the binning window, say) is the caller's in every case"""
    cfm = e.entry
    for ev in e.evs("call"):
        for c in ev.d.get("callee") or []:
            if c.node is cfm.node:
                continue
            for q, v in (ev.d.get("bound") or {}).items():
                if q in EXACT or v.k == "param":
                    continue
                try:
                    leaves = [x for _, x in gated(v, limit=500)]
                except Blowup:
                    continue
                for o in {x.a[0] for x in leaves if x.k == "param" and x.a[0] in EXACT}:
                    if o == "progress_callback":
                        continue
                    ok, w = is_exactly(v, o)
                    if not ok and w[1] is NONE and (is_none_const(w[0], o) or o == "training_window" and w[0].exempt(approx_given)):
                        ok = True
                    if not ok and not is_const(w[1]):
                        continue
                    ctx.ob("option-forwarding", "%s(%s) in %s" % (c.name, q, ev.func.name), ok, ev.loc,
                           "option %s is handed on as %s in some cases [%s]" % (o, w and show(w[1], 3), route_of(ev)))


def is_none_const(c, q):
    return c.exempt(lambda a, pol: is_none_atom(a, pol, lambda y: y.k == "param" and y.a[0] == q))


def effects(ctx, e):
    def exists(opt, route, pred, what):
        hit = False
        for ev in e.events:
            r = cfm_n_jobs(ev.guards)
            if route is not None and r != route:
                continue
            try:
                if pred(ev):
                    hit = True
                    break
            except AttributeError:
                continue
        ctx.ob("option-effect", "%s [%s]" % (opt, route or "any"), hit, e.entry.loc,
               "option %s has no effect on the %s route (%s)" % (opt, route or "public", what))

    def arg(ev, opt):
        ts = list(ev.d.get("args") or ()) + [v for _, v in ev.d.get("kws") or ()] + list((ev.d.get("bound") or {}).values())
        return any(isinstance(t, T) and has_param(t, opt) for t in ts)
    for route in ("serial", "parallel"):
        exists("include_cutoff_time", route, lambda ev: ev.kind == "call" and "query_by_values" in [c.name for c in ev.callee] and arg(ev, "include_cutoff_time"), "entity query")
        exists("training_window", route, lambda ev: ev.kind == "call" and "query_by_values" in [c.name for c in ev.callee] and arg(ev, "training_window"), "entity query")
        exists("chunk_size", route, lambda ev: ev.kind == "call" and ev.name == "range" and arg(ev, "chunk_size"), "splitting into chunks")
        exists("save_progress", route, lambda ev: ev.kind in ("call", "decorate") and (ev.kind == "call" and (ev.d.get("bound") or {}).get("save_progress") is not None
               and len(ev.bound) == 1 and has_param(ev.bound["save_progress"], "save_progress") or ev.d.get("name") == "to_csv"), "writing progress files")
        exists("progress_callback", route, lambda ev: ev.kind == "call" and ev.d.get("fterm") is not None and has_param(ev.fterm, "progress_callback")
               or (ev.kind == "call" and ev.d.get("recv") is None and ev.d.get("fterm") is not None and ev.fterm.k == "param" and ev.fterm.a[0] == "progress_callback"), "calling the callback")
        exists("approximate", route, lambda ev: ev.kind == "call" and any("bin" in c.name and "cutoff" in c.name for c in ev.callee) and arg(ev, "approximate"), "binning of cutoffs")
        exists("instance_ids", route, lambda ev: ev.kind == "call" and ev.name == "run" and arg(ev, "instance_ids"), "instances computed")
        exists("cutoff_time", route, lambda ev: ev.kind == "call" and "query_by_values" in [c.name for c in ev.callee] and arg(ev, "cutoff_time"), "entity query")
    exists("n_jobs", "parallel", lambda ev: ev.kind == "call" and arg(ev, "n_jobs") and arg(ev, "dask_kwargs"), "creating the cluster")
    exists("verbose", None, lambda ev: ev.kind == "call" and (arg(ev, "verbose") or any(has_param(g, "verbose") for g, _ in ev.guards)), "progress bar")
    exists("cutoff_time_in_index", None, lambda ev: ev.kind == "call" and ev.name in ("reset_index", "droplevel") and
           any(x.k == "param" and x.a[0] == "cutoff_time_in_index" and pl is False for g, pol in ev.guards for x, pl in lits(g, pol)), "dropping the time level")
    # ... and it is not dropped when the caller asked to keep it
    for ev in e.evs("call"):
        if ev.name in ("reset_index", "droplevel") and len(ev.stack) == 1 and cfm_n_jobs(ev.guards) is None:
            ls = [(x, pl) for g, pol in ev.guards for x, pl in lits(g, pol)]
            ctx.ob("option-effect", "cutoff_time_in_index kept", any(x.k == "param" and x.a[0] == "cutoff_time_in_index" and not pl for x, pl in ls),
                   ev.loc, "the time level is dropped although cutoff_time_in_index may be set")
    exists("entities", None, lambda ev: ev.kind == "new" and ev.cls.name == "EntitySet" and has_param(ev.bound["entities"], "entities")
           and has_param(ev.bound["relationships"], "relationships"), "building the EntitySet")


def stored(ctx, p):
    """options of the feature builder: stored and read again"""
    c = p.cls("DeepFeatureSynthesis")
    init = c.methods["__init__"]
    e = Engine(p, inline=lambda f: f.cls is c and f.name != "build_features", max_depth=4, inline_properties=False)
    e.run(init)
    ctx.unit(init)
    by_attr = {}
    for ev in e.evs("setattr"):
        if ev.recv.k == "inst":
            by_attr.setdefault(ev.attr, []).append(ev.value)
    reads = set()
    for m in c.methods.values():
        if m is init:
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.add(n.attr)
    init_loads = {n.attr for n in ast.walk(init.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    for o in init.all_params():
        if o == "self":
            continue
        attrs = [a for a, vs in by_attr.items() if any(has_param(v, o) for v in vs)]
        ctx.ob("option-stored", "DeepFeatureSynthesis(%s)" % o, any(a in reads for a in attrs) or
               (not attrs and used_in_loop(init, o)), init.loc, "option %s is not kept for the build (kept in: %s)" % (o, attrs))
        # the value kept under the option's own name is the caller's
        for a in attrs:
            if a == o:
                vs = by_attr[a]
                for v in vs:
                    lossy = [x for x in walk(v) if x.k == "slice" and not all(y is NONE for y in x.a)]
                    ctx.ob("option-stored", "DeepFeatureSynthesis.%s value" % a, not lossy, init.loc, "only part of option %s is kept" % o)


def used_in_loop(fi, name):
    return any(isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.iter)) for n in ast.walk(fi.node))
