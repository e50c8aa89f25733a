"""Asks random and other questions one after the other and says what came out and where the
global generator stands afterwards, as digests.

A case is {"steps": [...]}; a step is {"seed": k}, or {"ask": [calls as in calls.py]}, or
{"obj": {"cls", "steps"}} for a script of objects.py."""
import hashlib
import json

import numpy as np

import calls
import objects


def digest(x):
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:16]


def state():
    s = np.random.get_state()
    return digest([s[0], s[1].tolist(), *s[2:]])


def run(case):
    out = []
    for s in case["steps"]:
        if "seed" in s:
            np.random.seed(s["seed"])
            r = None
        elif "obj" in s:
            r = objects.run(s["obj"])
        else:
            r = [calls.one(dict(c, spoil=1)) for c in s["ask"]]
        bad = [x for x in r or [] if "exc" in x]
        out.append({"exc": bad[0]} if bad else {"r": digest(r), "at": state()})
    return out
