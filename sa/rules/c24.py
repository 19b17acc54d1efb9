"""Every computed chunk reaches the progress directory.  The chunk function (the innermost function all routes to
FeatureSetCalculator.run share) is inlined with its decorators: on each path on which a progress directory is given, each result
of the calculator must be written as it is, all of it, to a name identified completely by the cutoff time and the ids it was
computed for (a digest of both, or a unique name), first under a temporary name in the same directory and then renamed.  Nothing
but what the call itself made may be removed.  Every call of the chunk function gets the caller's progress directory."""
from ..util import *  # noqa
from .c03 import is_exactly

TECHNIQUE = "inlined value-flow (decorators applied) from the calculator's result to the file writer; injectivity of the file name in cutoff time and ids; provenance of removed paths and of the progress directory"
LEVEL_NOTE = "Assumes that digests do not collide, that os.rename within one directory is atomic, and that two chunks differ in cutoff time or ids."
MIN_INSTANCES = {"saved": 2, "name": 2, "complete": 2, "forwarded": 2, "removal": 1}
MOVES = {"os.rename", "os.replace", "shutil.move", "os.renames"}
REMOVES = {"os.remove", "os.unlink", "shutil.rmtree", "os.rmdir", "os.removedirs", "os.truncate"}
DIGEST = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256", "sha3_512", "tokenize"}
UNIQUE = {"uuid.uuid4", "uuid.uuid1", "tempfile.mkstemp", "tempfile.mktemp", "tempfile.mkdtemp", "tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile"}
WHOLE = {"repr", "str", "encode", "hexdigest", "digest", "hex", "tobytes", "bytes", "dumps", "tolist", "list", "tuple", "isoformat", "format", "int", "hash", "join", "sorted"}
LISTED = {"list", "tuple", "tolist", "sorted", "tobytes", "dumps"}


def inline(fi):
    if fi.name in OPAQUE or fi.cls is not None and fi.cls.name == "FeatureSetCalculator":
        return False
    return cfm_inline(fi)


class Name(object):
    """which of the given inputs does the text of a name determine completely?"""

    def __init__(self, wanted, all_):
        self.wanted, self.all = wanted, all_

    def many(self, ts, listed):
        return set().union(*[self.of(x, listed) for x in ts] or [set()])

    def of(self, t, listed=False):
        if t in self.wanted:
            n = self.wanted[t]
            # the text of an array or a Series leaves out its middle
            return {n} if listed or n == "time" else set()
        k, a = t.k, t.a
        if k == "ite":
            return self.of(a[1], listed) & self.of(a[2], listed)
        if k == "phi":
            r = [self.of(x, listed) for x in a[0]]
            return set.intersection(*r) if r else set()
        if k in ("call", "mcall", "ocall"):
            if k == "call":
                nm, ops = a[0], list(a[1]) + [v for _, v in a[2]]
            else:
                nm, ops = a[1], [a[0]] + list(a[2]) + [v for _, v in a[3]]
            last = nm.split(".")[-1]
            if nm in UNIQUE or last in {x.split(".")[-1] for x in UNIQUE}:
                return set(self.all)
            if last in DIGEST or last in WHOLE or last in ("map", "replace", "lower", "upper", "Path", "joinpath"):
                return self.many(ops, listed or last in LISTED or last == "map")
            return set()
        if k == "attr":
            # parts of a uuid, the values of an array
            return self.of(a[0], listed) if a[1] in ("hex", "int", "bytes", "urn", "name", "values", "value") else set()
        if k == "item":
            key = a[1]
            if key.k == "slice":
                up = [x for x in kids(key) if is_const(x) and isinstance(cval(x), int)]
                return self.of(a[0], listed) if up and all(cval(x) >= 16 for x in up) else set()
            if a[0].k == "call" and a[0].a[0] == "tempfile.mkstemp":
                return set(self.all)
            return set()
        if k == "comp":
            return self.many(kids(t), True)
        if k in ("tuple", "list", "fmt", "bin", "fstr", "join", "dict", "enter", "upd", "elem", "joined", "format"):
            return self.many(kids(t), listed)
        return set()


def arg(ev, i, *names):
    kw = dict(ev.kws)
    for n in names:
        if n in kw:
            return kw[n]
    return ev.args[i] if len(ev.args) > i else None


def glob_call(ev, names):
    return ev.kind == "call" and ev.d.get("name") in names and ev.d.get("recv") is None


def scratch(t):
    """is the path inside something made by the call?"""
    return contains(t, lambda x: x.k == "call" and x.a[0] in UNIQUE and x.a[0].startswith("tempfile."))


def base_function(e, runs):
    """innermost function on the way to every run"""
    common = None
    for ev in runs:
        s = [f for f in ev.stack]
        common = s if common is None else [f for f in common if f in s]
    return common[-1] if common else None


def engine(p, fi):
    e = Engine(p, max_depth=14, budget=900000, types={"entityset": "EntitySet"}, inline=inline, inline_properties=False, apply_decorators=True)
    e.run(fi)
    return e


def is_run(ev):
    return ev.kind == "call" and any(c.name == "run" and c.cls is not None and c.cls.name == "FeatureSetCalculator" for c in ev.d.get("callee") or [])


def guards_of(ev):
    c = Conds()
    for g, pol in ev.guards:
        c.add(g, pol)
    return c


def off(ev):
    """is the event only reached without a progress directory?"""
    for g, pol in ev.guards:
        m = g
        while m.k == "not":
            m, pol = m.a[0], not pol
        if m.k == "cmp" and m.a[0] in ("is", "==") and m.a[1].k == "param" and m.a[1].a[0] == "save_progress" and pol:
            return True
        if m.k == "cmp" and m.a[0] in ("is not", "!=") and m.a[1].k == "param" and m.a[1].a[0] == "save_progress" and not pol:
            return True
        if m.k == "param" and m.a[0] == "save_progress" and not pol:
            return True
        if m.k == "bool" and m.a[0] == "and" and not pol and False:
            return True
    return False


def about_dir(g):
    return g.k in ("intry",) or contains(g, lambda x: x.k == "param" and x.a[0] == "save_progress") and not contains(
        g, lambda x: x.k in ("pcall", "elem", "mcall") or x.k == "param" and x.a[0] not in ("save_progress",))


def check(ctx):
    p = ctx.p
    cfm = p.public("calculate_feature_matrix")
    top = engine(p, cfm)
    ctx.need(not top.truncated, "back-end too large to analyse")
    runs = [ev for ev in top.events if is_run(ev)]
    ctx.need(runs, "FeatureSetCalculator.run is no longer called by calculate_feature_matrix")
    base = base_function(top, runs)
    ctx.need(base is not None, "no function common to all computations")
    if not isinstance(base, str):
        base = base.qual
    bf = [f for f in p.functions if f.qual == base]
    ctx.need(bf and "save_progress" in bf[0].all_params(), "the chunk function has no save_progress")
    bf = bf[0]
    e = engine(p, bf) if bf.node is not cfm.node else top
    for f in {ev.func for ev in e.events}:
        ctx.unit(f)
    results(ctx, e)
    removals(ctx, top)
    n = 0
    for ev in top.events:
        t = None
        if ev.kind == "call" and any(c.node is bf.node for c in ev.d.get("callee") or []) and ev.d.get("bound") is not None:
            t = ev.bound.get("save_progress", NONE)
        if t is not None:
            ok, w = is_exactly(t, "save_progress")
            n += 1
            ctx.ob("forwarded", "%s called by %s" % (bf.name, ev.func.name), ok, ev.loc, "chunks are computed without the caller's progress directory: %s" % (w and show(w[1], 3)))
    if bf.node is cfm.node:
        for i in range(2):
            ctx.ob("forwarded", "one function %d" % i, True)


def results(ctx, e):
    runs = [ev for ev in e.events if is_run(ev)]
    seen = {}
    for ev in runs:
        if off(ev):
            continue
        con = "result in %s" % ev.func.name
        seen[con] = seen.get(con, 0) + 1
        if seen[con] > 1:
            con += " #%d" % seen[con]
        res = ev.d.get("result")
        saves = [w for w in e.events if w.kind == "call" and w.d.get("name") in ("to_csv", "to_parquet", "to_pickle") and w.d.get("recv") is not None
                 and contains(w.recv, lambda x: x is res)]
        mine = [w for w in saves if set(id(e.events[i]) for i in ()) is not None and later(e, ev, w) and not extra_guards(ev, w)]
        ctx.ob("saved", con, mine, ev.loc, "a computed chunk is not written to the progress directory on every path" if not saves else
               "a computed chunk is only written under a further condition: %s" % "; ".join(show(g, 2) for g in extra_guards(ev, saves[0]))[:200])
        wanted = inputs(ev)
        names = {v for v in wanted.values()}
        for w in mine[:1]:
            whole(ctx, con, w, res)
            path = arg(w, 0, "path_or_buf", "path", "filename")
            moves = [m for m in e.events if glob_call(m, MOVES) and same(arg(m, 0, "src"), path) and later(e, w, m)]
            moves += [m for m in e.events if m.kind == "call" and m.d.get("name") in ("rename", "replace") and m.d.get("recv") is not None and same(m.recv, path) and later(e, w, m)]
            final = path
            if moves:
                m = moves[0]
                final = arg(m, 1, "dst", "target") if glob_call(m, MOVES) else arg(m, 0, "target")
            indir = contains(path, lambda x: x.k == "param" and x.a[0] == "save_progress")
            ctx.ob("complete", con, moves and indir and not same(path, final), w.loc,
                   "the chunk is written under its final name, where a reader can find it incomplete" if not moves else
                   "the temporary file is not in the progress directory, so that moving it into place is not atomic")
            ctx.ob("saved", con + " directory", contains(final, lambda x: x.k == "param" and x.a[0] == "save_progress"), w.loc,
                   "the chunk is not written to the progress directory: %s" % show(final, 3))
            got = Name(wanted, names).of(basename(final))
            miss = names - got
            ctx.ob("name", con, not miss, w.loc, "two chunks that differ in %s can get the same file name: %s" % (", ".join(sorted(miss)), show(basename(final), 2)))


def basename(t):
    """the file name without directories"""
    if t.k == "call" and t.a[0].endswith("join") and t.a[1]:
        return t.a[1][-1]
    return t


def same(a, b):
    return a is b or a == b


def later(e, a, b):
    return e.events.index(b) > e.events.index(a)


def extra_guards(ev, w):
    """conditions of the write that are not conditions of the computation"""
    have = set(ev.guards)
    return [g for g, pol in w.guards if (g, pol) not in have and not about_dir(g)]


def inputs(ev):
    """what a chunk is computed from: cutoff time, ids and precalculated values"""
    b = ev.d.get("bound") or {}
    out = {}
    me = b.get("self")
    if "instance_ids" in b:
        out[b["instance_ids"]] = "ids"
    if me is not None and me.k == "new" and len(me.a) >= 4:
        init = me.a[0].find_method("__init__")
        names = [x for x in init.all_params() if x != "self"]
        bound = dict(zip(names, me.a[2]))
        bound.update(dict(me.a[3]))
        for n, label in (("time_last", "time"), ("precalculated_features", "precalculated values")):
            t = bound.get(n)
            if t is not None and not is_const(t):
                out[t] = label
    return out


def whole(ctx, con, w, res):
    t = w.recv
    while t.k == "mcall" and t.a[1] in ("copy", "compute", "sort_index", "to_pandas"):
        t = t.a[0]
    ok = all(x is res or x.k == "mcall" and x.a[1] in ("copy", "compute", "to_pandas") and x.a[0] is res for x in alts(t))
    kw = dict(w.kws)
    less = [k for k in ("index", "header", "columns", "mode", "chunksize") if k in kw and not (is_const(kw[k]) and cval(kw[k]) in (True, "w", None))]
    less = [k for k in less if k != "chunksize"]
    ctx.ob("saved", con + " whole", ok and not less, w.loc, "not all of the chunk is written (%s)" % (", ".join(less) or show(t, 2)))


def removals(ctx, e):
    n = 0
    for ev in e.events:
        if ev.kind != "call":
            continue
        t = None
        if glob_call(ev, REMOVES):
            t = arg(ev, 0, "path")
        elif ev.d.get("name") in ("unlink", "rmdir", "rmtree") and ev.d.get("recv") is not None:
            t = ev.recv
        if t is not None:
            n += 1
            ctx.ob("removal", "%s in %s" % (ev.name, ev.func.name), scratch(t), ev.loc, "removes what the call did not create: %s" % show(t, 3))
    ctx.ob("removal", "back-end", True)
    ctx.stats["removing calls"] = n
