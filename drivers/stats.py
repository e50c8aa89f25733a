"""Draws large samples from the package's random functions and counts what comes out.

"points": one call; the points are counted in the product cells of the given edges, each
coordinate measured by "id", "sq", "cube", "cos" or (for HEALPix pixels) "diamond".
"repeat": many calls; the number of times every outcome came out."""
import math

import numpy as np

import calls

MEASURE = {"id": lambda v: v, "sq": lambda v: v**2, "cube": lambda v: v**3, "cos": np.cos}


class Extremes:
    """For a limited number of calls the uniform source only gives its extreme values."""

    def __init__(self, mode):
        self.mode, self.left = mode, 40
        self.real = np.random.random_sample

    def __call__(self, size=None):
        u = self.real(size)
        if self.left <= 0:
            return u
        self.left -= 1
        low, high = 0.0, 1 - 2.0**-53
        if self.mode == "mix":
            v = np.where(np.asarray(u) < 0.5, low, high)
        else:
            v = np.full(np.shape(u), low if self.mode == "low" else high)
        return float(v) if size is None else v

    def __enter__(self):
        np.random.random_sample = self
        return self

    def __exit__(self, *a):
        np.random.random_sample = self.real


class Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def source(c):
    return Extremes(c["extreme"]) if c.get("extreme") else Nothing()


def diamond(phi, theta, c):
    """Position of sky points inside a HEALPix pixel: along both sides, from 0 to 1."""
    n = c["nside"]
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    z = np.cos(theta)
    near = np.minimum(theta, np.pi - theta)
    t = np.sqrt(6.)*np.sin(near/2)
    mid = (np.floor(phi/(np.pi/2)) + .5)*np.pi/2
    cap = t < 1
    x = np.where(cap, mid + t*(phi - mid), phi)
    y = np.where(cap, np.sign(np.pi/2 - theta)*np.pi/4*(2 - t), 3*np.pi/8*z)
    jd, idd = x*2*n/np.pi, y*2*n/np.pi
    u, v = jd - idd + n/2 - c["star"][0], jd + idd + n/2 - c["star"][1]
    turn = np.round(((u + v)/2 - .5)/(4*n))*4*n
    return u - turn, v - turn


def points(c):
    with source(c):
        r = calls.find(c["fn"])(*[calls.dec(a) for a in c["args"]], **{k: calls.dec(v) for k, v in c.get("kw", {}).items()})
    cols = list(r) if isinstance(r, tuple) else [r]
    shapes = [list(np.shape(x)) for x in cols]
    if "star" in c:
        ranges = [[float(np.min(x)), float(np.max(x))] for x in cols]
        cols = list(diamond(cols[0], cols[1], c)) if len(cols) == 2 and shapes[0] == shapes[1] else cols
    else:
        ranges = []
    if len(cols) != len(c["axes"]) or any(s != [c["n"]] for s in shapes):
        return {"shapes": shapes}
    tol = c.get("tol", 1e-11)
    outside, index, counts_dim = 0, np.zeros(c["n"], int), 1
    cells, occupied = [], []
    share = np.concatenate([[0], np.cumsum(c["weights"])]) if c.get("weights") else None
    for x, a in zip(cols, c["axes"]):
        x = np.asarray(x, float)
        lo, hi = a["lo"], a["hi"]
        pad = tol*max(1e-300, abs(lo), abs(hi)) if "star" not in c else tol
        outside += int(np.sum(~((x >= lo - pad) & (x <= hi + pad))))
        e = np.array(a["edges"])
        m = MEASURE[a["t"]](x)
        if e[0] > e[-1]:
            k = len(e) - 1 - np.searchsorted(e[::-1], m, side="left")
        else:
            k = np.searchsorted(e, m, side="right") - 1
        k = np.clip(k, 0, len(e) - 2)
        cells.append(k)
        order = 1 if e[0] < e[-1] else -1
        far = np.interp(m, e[::order], (np.arange(len(e)) if share is None else share)[::order]*1.)
        far = np.floor(far/(len(e) - 1 if share is None else share[-1])*c["n"])
        occupied.append(int(len(np.unique(np.clip(far, 0, c["n"] - 1)))))
        index = index*(len(e) - 1) + k
        counts_dim *= len(e) - 1
    out = {"shapes": shapes, "outside": outside, "counts": np.bincount(index, minlength=counts_dim).tolist(),
           "ranges": ranges, "occupied": occupied, "distinct": min(int(len(np.unique(x))) for x in cols)}
    if "star" not in c and len(cols) > 1:      # coordinates that are copies of one another
        where = [(MEASURE[a["t"]](np.asarray(x, float)) - a["edges"][0])/(a["edges"][-1] - a["edges"][0]) for x, a in zip(cols, c["axes"])]
        out["distinct"] = min(out["distinct"], int(len(np.unique(np.round(np.concatenate(where), 9))))//len(cols))
    half = c["n"]//2
    out["pairs"] = []
    if half and not c.get("extreme"):
        def pair(what, k, b):
            n = len(c["axes"][b]["edges"]) - 1
            out["pairs"].append([what, b, np.bincount(k[0]*n + k[1], minlength=n*n).tolist()])
        for b, k in enumerate(cells):
            pair("successive points", (k[0:2*half:2], k[1:2*half:2]), b)
            pair("the halves of a sample", (k[:half], k[half:2*half]), b)
            for a in range(len(cells)):
                if a != b:      # neighbours in one coordinate are strangers in the other
                    s = k[np.argsort(cols[a], kind="stable")]
                    pair("coordinates %d and %d" % (a, b), (s[0:2*half:2], s[1:2*half:2]), b)
    return out


def repeat(c):
    f = calls.find(c["fn"])
    seen = {}
    for _ in range(c["n"]):
        args = [calls.dec(a) for a in c["args"]]
        kw = {k: calls.dec(v) for k, v in c.get("kw", {}).items()}
        with source(c):
            r = f(*args, **kw)
        r = np.asarray(r)
        key = repr(tuple(round(float(x), 9) for x in r.ravel())) if r.ndim else repr(round(float(r), 9))
        seen[key] = seen.get(key, 0) + 1
        if len(seen) > 5000:
            break
    return {"seen": seen}


def tiled(c):
    """One call on many copies of an array; the outcome of every copy."""
    r = np.asarray(calls.find(c["fn"])(np.tile(np.array(c["args"][0], float), c["n"])))
    rows, count = np.unique(r.reshape(c["n"], -1), axis=0, return_counts=True)
    return {"seen": {repr(tuple(round(float(x), 9) for x in row)): int(n) for row, n in list(zip(rows, count))[:5000]}}


def blocks(c):
    """Calls on a long sample of equal blocks: which block the elements at the places
    of the outcome come from."""
    f, b, size = calls.find(c["fn"]), c["blocks"], c["size"]
    n = b*size
    place, pairs = np.zeros((b, b), int), np.zeros((b, b), int)
    lengths, wrong = [], 0
    sample = np.arange(n)*3 + 7
    if c["kind"] == "f":
        sample = sample*0.5
    for _ in range(c["n"]):
        args = [np.repeat(np.array(a["repeat"], float), size) if isinstance(a, dict) else a for a in c["args"]]
        r = np.asarray(f(sample.copy(), *args, **c["kw"]))
        k = np.searchsorted(sample, r)
        lengths.append(len(r))
        if len(np.unique(r)) != len(r) or not np.all(sample[np.minimum(k, n - 1)] == r):
            wrong += 1
            continue
        k = k//size
        np.add.at(place, (k, np.arange(len(r))*b//max(1, len(r))), 1)
        m = len(r)//2*2
        np.add.at(pairs, (k[0:m:2], k[1:m:2]), 1)
    return {"place": place.tolist(), "pairs": pairs.tolist(), "lengths": lengths, "wrong": wrong}


def run(case):
    np.random.seed(case["seed"])
    return {"points": points, "repeat": repeat, "tiled": tiled, "blocks": blocks}[case["mode"]](case)
