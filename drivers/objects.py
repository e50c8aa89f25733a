"""Plays a script on one object of the package.

A case is {"cls": "densegrid.Box2Ring", "steps": [...]}; a step is {"m": method, "args", "kw",
"seed"} (arguments as in calls.py; {"prev": k} stands for the raw result of step k),
{"get": attribute}, {"gets": [attributes]}, {"dict": 1} (all public attributes), {"fn": package
function, ...} or {"new": 1} (start over with a fresh object); {"save": prefix} keeps the
attributes with that prefix and {"put": 1} gives the kept ones to the object.  "obj": n picks one of several
objects; "spoil" overwrites the arrays a call was given and has returned, once they are written
down, "hear" notes in "said" what a call writes to the terminal.  One outcome per step."""
import contextlib
import copy
import io
import traceback

import numpy as np

import calls
import worker


def run(case):
    new = calls.find(case["cls"])
    objs = {}
    raw, out = [], []
    layout, kept = None, {}

    def dec(x):
        if isinstance(x, dict) and "prev" in x:
            return raw[x["prev"]]
        if isinstance(x, list):
            return [dec(v) for v in x]
        return calls.dec(x, layout)

    for s in case["steps"]:
        which = s.get("obj", 1)
        try:
            if which not in objs or "new" in s:
                objs[which] = new()
            obj = objs[which]
            layout = s.get("layout")
            if "new" in s:
                raw.append(None)
                out.append({"r": None})
                continue
            if "save" in s:
                kept = {k: copy.deepcopy(v) for k, v in vars(obj).items() if k.startswith(s["save"])}
                raw.append(None)
                out.append({"r": sorted(kept)})
                continue
            if "put" in s:
                for k, v in kept.items():
                    setattr(obj, k, copy.deepcopy(v))
                raw.append(None)
                out.append({"r": None})
                continue
            if "get" in s:
                r = copy.deepcopy(getattr(obj, s["get"]))
                raw.append(r)
                out.append({"r": worker.enc(r)})
                continue
            if "gets" in s:
                raw.append(None)
                out.append({"r": [worker.enc(getattr(obj, a)) for a in s["gets"]]})
                continue
            if "dict" in s:
                raw.append(None)
                out.append({"r": {k: worker.enc(v) for k, v in sorted(vars(obj).items()) if k[0] != "_"}})
                continue
            if "seed" in s:
                np.random.seed(s["seed"])
            f = getattr(obj, s["m"]) if "m" in s else calls.find(s["fn"])
            args = [dec(a) for a in s.get("args", [])]
            kw = {k: dec(v) for k, v in s.get("kw", {}).items()}
            before = copy.deepcopy((args, list(kw.values())))
            std = copy.deepcopy(f.__defaults__)
            ear = io.StringIO() if s.get("hear") else None
            if ear:
                with contextlib.redirect_stdout(ear), contextlib.redirect_stderr(ear):
                    r = f(*args, **kw)
            else:
                r = f(*args, **kw)
            raw.append(r)
            if s.get("quiet"):
                o = {"r": None}
            else:
                o = {"r": worker.enc(r)}
            if ear:
                o["said"] = ear.getvalue()
            if not calls.same(before, (args, list(kw.values()))):
                o["mut"] = True
            if not calls.same(std, f.__defaults__):
                o["std"] = True
            out.append(o)
            if s.get("spoil"):
                calls.spoil(r)
                calls.spoil(args + list(kw.values()))
        except (Exception, SystemExit) as e:
            raw.append(None)
            out.append({"exc": type(e).__name__, "msg": str(e)[:200] + " | " + traceback.format_exc()[-300:]})
    return out
