"""Calls a function for every index of a loop and records what each call writes.

A case is {"fn", "length", "kw"}; the answer is the list of texts written."""
import io
import sys

import calls


def run(case):
    f = calls.find(case["fn"])
    kw = {k: calls.dec(v) for k, v in case["kw"].items()}
    out = []
    keep = sys.stdout
    try:
        for i in range(case["length"]):
            sys.stdout = io.StringIO()
            f(i, case["length"], **kw)
            out.append(sys.stdout.getvalue())
    finally:
        sys.stdout = keep
    return out
