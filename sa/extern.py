"""Facts about the installed third-party libraries (never about the program under analysis): which names and members they have and
which calls their functions accept.  Asked once per run from the interpreter the project is installed for."""
import json
import os
import subprocess
import sys

SCRIPT = r'''
import sys, json, importlib, inspect, types, warnings, builtins
warnings.simplefilter("ignore")
q = json.load(sys.stdin)
tops = set()
for m in q["modules"]:
    try:
        importlib.import_module(m)
        tops.add(m.split(".")[0])
    except Exception:
        pass
uni = set()
done = set()
def take(c):
    if id(c) in done:
        return
    done.add(id(c))
    try:
        uni.update(dir(c))
        if isinstance(c, type):
            for b in c.__mro__:
                uni.update(getattr(b, "__annotations__", {}) or {})
                for f in b.__dict__.values():
                    if isinstance(f, types.FunctionType):
                        # attributes set on self
                        uni.update(n for n in f.__code__.co_names)
    except Exception:
        pass
for n, m in list(sys.modules.items()):
    if n.split(".")[0] in tops or n in ("builtins",):
        uni.update(dir(m))
        for x in list(vars(m).values()):
            if isinstance(x, type):
                take(x)
for x in (type(lambda: 0), types.ModuleType, type((i for i in ())), types.CodeType, types.FrameType, types.TracebackType, type(re_ := __import__("re").match("a", "a")), type(__import__("re").compile("a"))):
    take(x)
def find(d):
    """(object, unresolved tail)"""
    parts = d.split(".")
    obj, i = None, 0
    try:
        obj = importlib.import_module(parts[0]); i = 1
    except Exception:
        return None, "?"
    while i < len(parts):
        if not isinstance(obj, (types.ModuleType, type)):
            return obj, "-"
        if hasattr(obj, parts[i]):
            obj = getattr(obj, parts[i])
        elif isinstance(obj, types.ModuleType):
            try:
                obj = importlib.import_module(".".join(parts[:i + 1]))
            except Exception:
                return obj, parts[i]
        else:
            return obj, parts[i]
        i += 1
    return obj, ""
missing, bad = [], []
for c in q["chains"]:
    o, t = find(c)
    if t not in ("", "-", "?"):
        missing.append(c)
class Any(object):
    pass
for d, n, kws in q["calls"]:
    o, t = find(d)
    if t or o is None:
        continue
    try:
        s = inspect.signature(o)
    except Exception:
        continue
    try:
        s.bind(*[Any()] * n, **{k: Any() for k in kws})
    except TypeError as e:
        bad.append([d, n, kws, str(e)])
json.dump({"universe": sorted(uni), "missing": missing, "bad": bad}, sys.stdout)
'''


def ask(modules, chains, calls):
    """None when no interpreter with the libraries is found"""
    for py in ("/opt/venv/bin/python", sys.executable):
        if not os.path.exists(py):
            continue
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", DASK_DATAFRAME__QUERY_PLANNING="False", MPLBACKEND="Agg", PYTHONPATH="")
        try:
            r = subprocess.run([py, "-I", "-W", "ignore", "-B", "-c", SCRIPT], input=json.dumps({"modules": modules, "chains": chains, "calls": calls}),
                               capture_output=True, text=True, timeout=240, env=env, cwd="/")
            if r.returncode == 0:
                return json.loads(r.stdout)
        except (OSError, ValueError, subprocess.SubprocessError):
            pass
    return None
