"""Mutation summaries over the whole package.  Every function is analysed for the objects it changes in place, each
named by an access path from one of its parameters; summaries are propagated through all calls, so a defensive copy
anywhere between the caller's object and the change removes the path.  R1 no exported function, and no method of an
exported class, changes anything reachable from a parameter.  R2 a method that is not a documented mutator changes
nothing reachable from the object it is called on.  R3 an object handed to a constructor and kept is not changed
later by the object's own methods.  R4 a query result or feature
matrix is never the stored data or the caller's own object."""
import re
from ..effects import Effects, drop_inplace
from ..index import PKG
from ..util import *  # noqa

TECHNIQUE = "inter-procedural mutation and alias summaries (effect analysis with access paths)"
LEVEL_NOTE = "Library calls (pandas, dask) follow a documented mutation model: inplace=, item/attribute stores, container mutators."
MIN_INSTANCES = {"argument": 150, "receiver": 60}

# methods documented to change the object they are called on
MUTATOR = re.compile(r"^(_*(add|set|delete|convert|normalize|update|reset|make|create|append)|__(init|setstate|setitem|delitem|setattr|new)__$)")
MUTATOR_NAMES = {"entity_from_dataframe", "build_features"}
# classes whose instances are the library's own bookkeeping, never handed in by a user
INTERNAL_ROOT = {"Trie", "FeatureSet"}
# objects a user hands over to be changed: an entity set under construction (loading), the display of progress,
# the entity set a new relationship is added to, a serializer's cache
HANDED_OVER = {("description_to_entity", "entityset"), ("parallel_calculate_chunks", "progress_bar"), ("calculate_chunk", "progress_bar")}


def exported(p):
    funcs, classes = {}, {}
    for mod in ("featuretools", "featuretools.primitives", "featuretools.variable_types", "featuretools.selection",
                "featuretools.synthesis", "featuretools.computational_backends", "featuretools.entityset",
                "featuretools.feature_base", "featuretools.utils"):
        m = p.modules.get(mod)
        if m is None:
            continue
        seen, todo = set(), [m]
        while todo:
            x = todo.pop()
            if x.name in seen:
                continue
            seen.add(x.name)
            for s in x.stars:
                if s in p.modules:
                    todo.append(p.modules[s])
            for n in x.symbols:
                if n.startswith("_"):
                    continue
                r = p.lookup(x, n)
                if r and r[0] == "func":
                    funcs[r[1].node] = r[1]
                elif r and r[0] == "class":
                    classes[r[1].qual] = r[1]
    return funcs, classes


def hidden(path):
    """dropping a lazily rebuilt cache is not observable"""
    return path == ("_data_description",)


RESULTS = ("calculate_feature_matrix", "encode_features", "dfs")


def only_from_mutators(E, f):
    """an initialisation helper: every call in the package is from a constructor or mutator of its own class"""
    n = 0
    for g in E.funcs:
        for ev in E.eng[g.node].evs("call"):
            if any(c.node is f.node for c in ev.d.get("callee") or []):
                n += 1
                if g.cls is not f.cls or not (MUTATOR.match(g.name) or g.name in MUTATOR_NAMES):
                    return False
    return n > 0


def check(ctx):
    p = ctx.p
    E = Effects(p)
    funcs, classes = exported(p)
    ctx.need(len(funcs) > 20 and len(classes) > 10, "the package's public interface was not found")
    entry = dict(funcs)
    for c in classes.values():
        for m in list(c.methods.values()) + list(c.setters.values()):
            if not m.name.startswith("_") or m.name in ("__init__", "__call__", "__new__", "__eq__", "__getitem__"):
                entry[m.node] = m
    for f in E.funcs:
        ctx.unit(f)
    for f in entry.values():
        if f.node not in E.mut or (f.cls is not None and f.cls.name in INTERNAL_ROOT):
            continue
        first = f.params()[0] if f.params() and f.cls is not None and not f.is_staticmethod else None
        mut = E.mut[f.node]
        for q in f.all_params():
            if q == first:
                continue
            bad = [(k, v) for k, v in mut.items() if k[0] == q and not hidden(k[1])]
            if q.endswith("serializer"):
                continue        # the (de)serializer is created for the call and caches what it found
            if f.cls is not None and f.cls.name == "Entity" and f.name == "__init__" and q == "entityset":
                continue        # the entity set the entity is made a part of
            if (f.name, q) in HANDED_OVER or (q in ("relationship", "relationships") and f.cls is not None and f.cls.name == "EntitySet"):
                continue
            if bad:
                k, (loc, how) = bad[0]
                ctx.bad("argument", "%s(%s) %s" % (f.qual, q, "".join("." + x for x in k[1])), f.loc,
                        "%s of the caller's %s%s at %s" % (how, q, "".join("." + x for x in k[1]), loc))
            else:
                ctx.ob("argument", "%s(%s)" % (f.qual, q), True, f.loc)
        if first is not None and not f.is_classmethod:
            if MUTATOR.match(f.name) or f.name in MUTATOR_NAMES or f.is_setter or f.cls.find_setter(f.name):
                continue
            if only_from_mutators(E, f):
                continue
            if f.cls.name.endswith("Deserializer") or f.cls.name.endswith("Serializer"):
                continue
            bad = [(k, v) for k, v in mut.items() if k[0] == first and not hidden(k[1])]
            det = "; ".join("%s changed: %s at %s" % ("".join("." + x for x in k[1]), v[1], v[0]) for k, v in bad[:2])
            ctx.ob("receiver", f.qual, not bad, f.loc, "not a mutator, yet self%s" % det)
    # R4 results are the caller's own: never the stored data or the argument itself
    q = p.cls("EntitySet").find_method("query_by_values")
    ctx.need(q is not None, "EntitySet.query_by_values not found")
    fs = [p.public(n) for n in RESULTS] + [q] + [f for f in funcs.values() if f.module.name == PKG + ".selection.selection"]
    for f in fs:
        t = E.eng[f.node].result
        shared = set()
        for x in alts(drop_inplace(t)):
            parts = x.a[1] if x.k == "tuple" else (x,)
            for y in parts:
                shared |= {(r, pp) for r, pp in E.own(f, y) if not hidden(pp) and pp[-1:] != ("[]",)}
        ctx.ob("result", f.qual, not shared, f.loc, "the result is the same object as %s" % sorted(r + "".join("." + z for z in pp) for r, pp in shared))
    # R3 kept arguments
    for c in classes.values():
        al = E.ctor.get(c.qual, {})
        if c.name in INTERNAL_ROOT:
            continue
        for attr, (q, path) in sorted(al.items()):
            hits = []
            for k in c.mro():
                for m in k.methods.values():
                    if m.node in E.mut:
                        me = m.params()[0] if m.params() else None
                        for (r, pp), (loc, how) in E.mut[m.node].items():
                            # changes *inside* the kept object (an attribute or item of it)
                            if r == me and len(pp) >= 1 and pp[0] == attr and how.split(" ")[0] != "attribute":
                                hits.append((m, how, loc))
            init = c.find_method("__init__")
            own_kind = q in ("entity", "entityset", "feature", "features") and all("attribute" in h[1] for h in hits)
            ctx.ob("kept-argument", "%s(%s)" % (c.name, q), not hits or own_kind, init.loc if init else c.loc,
                   hits and "%s changes the caller's %s: %s at %s" % (hits[0][0].qual, q, hits[0][1], hits[0][2]))
