"""Every resource the library opens is released on every exit.  A path-sensitive ownership analysis (sa/own.py) enters every
function that opens a file, archive, temporary directory, cluster or client, directly or through helpers, and follows each
resource to every normal return and every exception exit: it must have been closed, handed to a with block or exit stack that
is left, or be part of the returned value (then the caller owns it).  A resource reached only through a parameter is the
caller's and may not be closed."""
from ..own import Ownership, TooBig

TECHNIQUE = "path-sensitive ownership typestate analysis over normal and exceptional exits, entering helpers"
LEVEL_NOTE = "Every call, subscript and arithmetic operation is taken to be able to fail, also inside close; asynchronous interrupts between two operations are not."
MIN_INSTANCES = {"released": 10, "borrowed": 5}


def check(ctx):
    p = ctx.p
    o = Ownership(p)
    o.prepare()
    seen = {}
    roots, large = 0, []
    for m, node, fi in sorted(o.funcs, key=lambda x: (x[0].rel, x[1].lineno)):
        if not o.interesting.get(id(node)):
            continue
        o.closures = {}
        name = fi.qual if fi is not None else "%s:%s" % (m.name.replace("featuretools.", "", 1), node.name)
        try:
            outs = o.run_root(m, node, fi)
        except TooBig:
            large.append(name)
            continue
        ids = {r for k, st, v in outs for r in st.res}
        if not ids:
            continue
        roots += 1
        ctx.unit(name)
        for r in sorted(ids):
            bad = None
            for k, st, v in outs:
                s = st.res.get(r)
                if s != "open":
                    continue
                if k in ("return", "next") and r in o.resources(v, st):
                    continue
                bad = "an error" if k == "raise" else "return"
                break
            w = o.opened[r]
            key = (name, w.loc, w.what)
            seen[key] = seen.get(key) or bad
    for (name, loc, what), bad in sorted(seen.items()):
        ctx.ob("released", "%s opened in %s" % (what, name), bad is None, loc, "not released when the operation ends with %s" % bad)
    ctx.need(roots, "functions that open resources")
    for m, node, fi in o.funcs:
        if o.interesting.get(id(node)):
            hits = [x for x in o.borrowed if x[2][1] is node and id(node) not in o.called]
            ctx.ob("borrowed", fi.qual if fi is not None else node.name, not hits, hits[0][1] if hits else "%s:%d" % (m.rel, node.lineno),
                   "%s belongs to the caller and is closed" % (hits[0][0] if hits else ""))
    ctx.stats.update({"functions entered as roots": roots, "resources": len(seen), "functions too large": large})
