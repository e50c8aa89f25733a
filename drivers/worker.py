"""Runs a driver on a list of cases, one JSON line of observations per case."""
import importlib
import json
import os
import sys

import numpy as np


def enc(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [enc(v) for v in x]
        return x.tolist()
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, complex):
        return {"complex": [x.real, x.imag]}
    return x


def main():
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)      # whatever the code under test prints does not mix with the results
    driver, path = sys.argv[1], sys.argv[2]
    cases = json.load(open(path))
    mod, _, fn = driver.partition(":")
    try:
        run = getattr(importlib.import_module(mod), fn or "run")
        failed = None
    except BaseException as e:      # the package does not import
        failed = e
    for c in cases:
        if os.environ.get("WORKER_FORK"):      # every case in a process that has seen no other
            pid = os.fork()
            if pid:
                if os.waitpid(pid, 0)[1]:
                    real.write('@@{"exc": "Crash", "msg": "the process ended"}\n')
                    real.flush()
                continue
        try:
            if failed is not None:
                raise failed
            out = {"ok": enc(run(c))}
        except (Exception, SystemExit) as e:
            import traceback
            out = {"exc": type(e).__name__, "msg": (str(e) + " | " + traceback.format_exc()[-500:])}
        real.write("@@" + json.dumps(out) + "\n")
        real.flush()
        if os.environ.get("WORKER_FORK"):
            os._exit(0)


if __name__ == "__main__":
    main()
