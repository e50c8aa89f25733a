"""Calls public functions of the package.

A case is {"calls": [{"fn": "coords.cart2polar", "args": [...], "kw": {...}}, ...]}.
Arguments: {"f": nested list} a float array, {"i": ...} an int array, {"F": ...} a float array in Fortran order, {"np": x} a numpy
scalar, {"v": numbers, "as": type} an array or NumPy scalar of that type, {"t": [...]} a tuple; everything else is passed as it is.  A call's "layout" says how its
arrays lie in memory (frozen, strided, reversed, fortran).
Each call's outcome is {"r": result} or {"exc", "msg"}, with "mut": True if the call
changed an argument."""
import copy
import importlib
import traceback

import numpy as np

import worker


def lay(a, layout):
    if layout == "frozen":
        a.setflags(write=False)
    elif layout == "strided":
        b = np.full(tuple(2*n for n in a.shape), -7, dtype=a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        a = b
    elif layout == "reversed":
        b = np.empty_like(a)[tuple(slice(None, None, -1) for _ in a.shape)]
        b[...] = a
        a = b
    elif layout == "fortran":
        a = np.asfortranarray(a)
    return a


def dec(x, layout=None):
    if isinstance(x, dict):
        if "f" in x:
            return lay(np.array(x["f"], dtype=float), layout)
        if "i" in x:
            return lay(np.array(x["i"], dtype=int), layout)
        if "F" in x:
            return np.asfortranarray(np.array(x["F"], dtype=float))
        if "as" in x:      # numbers in a type of their own
            return lay(np.array(x["v"], dtype=x["as"]), layout) if isinstance(x["v"], list) else np.dtype(x["as"]).type(x["v"])
        if "np" in x:
            return np.float64(x["np"])
        if "npi" in x:
            return np.int64(x["npi"])
        if "t" in x:
            return tuple(dec(v, layout) for v in x["t"])
        return {k: dec(v, layout) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v, layout) for v in x]
    return x


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return repr(a) == repr(b)


def spoil(x):
    """Overwrites the caller's arrays."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fi" and x.flags.writeable:
        x[...] = 12345
    elif isinstance(x, (list, tuple)):
        for k, y in enumerate(x):
            spoil(y)
            if isinstance(x, list) and isinstance(y, (int, float)):
                x[k] = 12345


def find(name):
    mod, _, fn = name.rpartition(".")
    return getattr(importlib.import_module("magpie" + ("." + mod if mod else "")), fn)


def one(c):
    try:
        if "seed" in c:
            np.random.seed(c["seed"])
        fn = find(c["fn"])
        args, kw = dec(c.get("args", []), c.get("layout")), dec(c.get("kw", {}), c.get("layout"))
        before = copy.deepcopy((args, list(kw.values())))
        std = copy.deepcopy(getattr(fn, "__defaults__", None))
        r = fn(*args, **kw)
        out = {"r": worker.enc(r)}
        if not same(before, (args, list(kw.values()))):
            out["mut"] = True
        if not same(std, getattr(fn, "__defaults__", None)):
            out["std"] = True
        if c.get("spoil"):
            spoil(r)
            spoil(args + list(kw.values()))
        return out
    except (Exception, SystemExit) as e:
        return {"exc": type(e).__name__, "msg": str(e)[:200] + " | " + traceback.format_exc()[-300:]}


def run(case):
    return [one(c) for c in case["calls"]]
