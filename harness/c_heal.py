"""HEALPix pixels: properties P01..P04."""
import math
from fractions import Fraction
from core import fr, rat, near, near_all, isnum

PI = math.pi


def whole(o, e):
    return isnum(o) and o == e


def columns(o, n):
    r = o.get("r")
    return r if "exc" not in o and isinstance(r, list) and len(r) == n else None


def by_map(recs):
    out = {}
    for r in recs:
        out.setdefault(r["N"], []).append(r)
    return sorted(out.items())


def big(digits):
    """A number of spec/Big.tla."""
    return sum(d*10**(4*k) for k, d in enumerate(digits))


def far(ctx):
    """Pixels of maps too big for the exact small-map definitions."""
    recs = ctx.tlc("HealFar")
    for r in recs:
        r["p"] = big(r["p"])
        jd, off = big(r["jd"]), 4*r["N"]
        r["x"], r["y"] = rat(Fraction(jd, 4*r["N"])), rat(Fraction(r["id"], 4*r["N"]))
        r["d"] = [[r["id"], 2], rat(Fraction(jd, 2))]
        r["s"] = [(big(q) - off)//2 for q in r["s"]]
    return recs


def P01(ctx):
    recs = ctx.tlc("HealIndex") + far(ctx)
    ctx.sample(recs[len(recs)//2])
    calls, plan = [], []
    for N, rs in by_map(recs):
        ctx.rng.shuffle(rs)
        for part in (rs, rs[:1], rs[:7]):
            calls.append({"fn": "pixel.healpix_pix2ij", "args": [{"i": [r["p"] for r in part]}, N]})
            plan.append((part, ("i", "j")))
            calls.append({"fn": "pixel.healpix_ij2pix",
                          "args": [{"i": [r["i"] for r in part]}, {"i": [r["j"] for r in part]}, N]})
            plan.append((part, ("p",)))
        for k, r in enumerate(rs if N in (1, 2, 3, 8) else ctx.rng.sample(rs, min(len(rs), 250))):
            w = (lambda v: v) if k % 2 else (lambda v: {"npi": v})
            calls.append({"fn": "pixel.healpix_pix2ij", "args": [w(r["p"]), N]})
            plan.append((r, ("i", "j")))
            calls.append({"fn": "pixel.healpix_ij2pix", "args": [w(r["i"]), w(r["j"]), N]})
            plan.append((r, ("p",)))
    for c, (rs, keys), o in zip(calls, plan, ctx.calls(calls)):
        N = c["args"][-1]
        if isinstance(rs, dict):
            want = [rs[k] for k in keys]
            got = [o.get("r")] if len(keys) == 1 else columns(o, 2)
            if got is None or not all(map(whole, got, want)):
                ctx.fail("%s of one pixel is wrong" % c["fn"], c, want, o)
            else:
                ctx.seen("scalar", N, rs["p"])
            continue
        got = [o["r"]] if len(keys) == 1 and isinstance(o.get("r"), list) else columns(o, len(keys))
        if got is None or any(not isinstance(g, list) or len(g) != len(rs) for g in got):
            ctx.fail("%s of an array fails" % c["fn"], {"N": N, "n": len(rs)}, None, str(o)[:300])
            continue
        for q, r in enumerate(rs):
            want = [r[k] for k in keys]
            if not all(map(whole, [g[q] for g in got], want)):
                ctx.fail("%s of an array is wrong" % c["fn"], {"N": N, "pixel": r}, want, [g[q] for g in got])
            else:
                ctx.seen("array", N, r["p"])


def P02(ctx):
    recs = [r for r in ctx.tlc("HealIndex") + far(ctx) if "x" in r]
    ctx.sample(recs[len(recs)//2])
    calls, plan = [], []

    def add(fn, args, want):
        calls.append({"fn": "pixel." + fn, "args": args})
        plan.append(want)
    for N, rs in by_map(recs):
        ctx.rng.shuffle(rs)
        few = rs if N in (1, 2, 3, 4) else ctx.rng.sample(rs, min(len(rs), 150))
        parts = [rs, rs[:1], rs[1:6]] + [[r] for r in few]
        for n, part in enumerate(parts):
            one = n > 2

            def col(f, kind="i"):
                v = [f(r) for r in part]
                return v[0] if one else {kind: v}

            def exp(f):
                v = [f(r) for r in part]
                return v[0] if one else v
            p, i, j = (col(lambda r, k=k: r[k]) for k in "pij")
            xy = [exp(lambda r: PI*float(fr(r["x"]))), exp(lambda r: PI*float(fr(r["y"])))]
            d = [exp(lambda r, k=k: float(fr(r["d"][k]))) for k in (0, 1)]
            s = [exp(lambda r, k=k: r["s"][k]) for k in (0, 1)]
            add("healpix_pix2xy", [p, N], xy)
            add("healpix_ij2xy", [i, j, N], xy)
            add("healpix_i2id", [i, N], d[0])
            add("healpix_j2jd", [i, j, N], d[1])
            if not one:
                add("healpix_ijd2ijs", [{"f": d[0]}, {"f": d[1]}, N], s)
                add("healpix_ijs2ijd", [{"i": s[0]}, {"i": s[1]}, N], d)
    for c, want, o in zip(calls, plan, ctx.calls(calls)):
        N = c["args"][-1]
        if "exc" in o or not near_all(o["r"], want, 2e-14 if "xy" in c["fn"] else 1e-6, 1.0):
            ctx.fail("%s is wrong" % c["fn"], c, want, o)
        elif not isinstance(c["args"][0], dict):
            ctx.seen(c["fn"], c["args"])
    # the projection of the sky centres the specification gives
    calls, plan = [], []
    for N, rs in by_map(recs):
        rs = [r for r in rs if "lon" in r]
        if not rs:
            continue
        rs = ctx.rng.sample(rs, min(len(rs), 60))
        lon = [PI*float(fr(r["lon"])) for r in rs]
        col = [math.acos(float(fr(r["z"]))) for r in rs]
        calls.append({"fn": "coords.healpix_ang2xy", "args": [{"f": lon}, {"f": col}]})
        calls.append({"fn": "pixel.healpix_pix2xy", "args": [{"i": [r["p"] for r in rs]}, N]})
    outs = ctx.calls(calls)
    for c, a, b in zip(calls[1::2], outs[::2], outs[1::2]):
        if "exc" in a or "exc" in b or not near_all(b["r"], a["r"], 1e-7, 1.0):
            ctx.fail("pixel centres are not the projected sky centres", c, a, b)


def P03(ctx):
    recs = ctx.tlc("HealNeigh")
    ctx.sample(recs[0])
    calls = []
    for k, r in enumerate(recs):
        w = (lambda v: v) if k % 3 else (lambda v: {"npi": v})
        calls.append({"fn": "pixel.healpix_ijs_neighbours", "args": [w(r["s"][0]), w(r["s"][1]), r["N"]]})
    for r, c, o in zip(recs, calls, ctx.calls(calls)):
        want = sorted(map(tuple, r["nb"]))
        g = columns(o, 2)
        got = sorted(zip(*g)) if g and all(isinstance(x, list) for x in g) and len(g[0]) == len(g[1]) else None
        if got is None or [tuple(x) for x in got] != want:
            ctx.fail("wrong neighbours", {"nside": r["N"], "pixel": r["p"], "star": r["s"]}, want, got or o)
        else:
            ctx.seen(r["N"], r["p"])


def P04(ctx):
    recs = ctx.tlc("HealBound")
    ctx.sample(recs[0])
    allowed = {}
    for r in recs:
        xy = [[PI*float(fr(q[a])) for q in r["path"]] for a in (0, 1)]
        allowed.setdefault((r["N"], r["p"], sum(r["share"])), []).append((xy, r["share"]))
    calls, plan = [], []

    def add(fn, args, kw, wants, d):
        calls.append({"fn": "pixel." + fn, "args": args, "kw": kw})
        plan.append((wants, d))
    for (N, p, n), paths in allowed.items():
        d = 1.0/N
        kws = [{"steps": n}] + ([{}] if n == 40 else [])
        full = [x for x, _ in paths]
        back = [[c[::-1] for c in x] for x in full]
        for kw in kws:
            add("healpix_boundary", [p, N], kw, full, d)
            add("healpix_boundary", [p, N], dict(kw, reverse=True), back, d)
        for m in sorted({s[0] + s[1] for _, s in paths}):
            top = [[c[:m] for c in x] for x, s in paths if s[0] + s[1] == m]
            rest = [[c[m:][::-1] for c in x] for x, s in paths if s[0] + s[1] == m]
            kws = [{"steps": m}] + ([{}] if m == 20 else [])
            for kw in kws:
                add("healpix_boundary_top", [p, N], kw, top, d)
                add("healpix_boundary_top", [p, N], dict(kw, reverse=True), [[c[::-1] for c in x] for x in top], d)
            m = n - m
            kws = [{"steps": m}] + ([{}] if m == 20 else [])
            for kw in kws:
                add("healpix_boundary_bot", [p, N], kw, rest, d)
                add("healpix_boundary_bot", [p, N], dict(kw, reverse=True), [[c[::-1] for c in x] for x in rest], d)
    for c, (wants, d), o in zip(calls, plan, ctx.calls(calls)):
        if "exc" in o or not any(near_all(o["r"], w, 1e-9, d) for w in wants):
            ctx.fail("%s does not trace the pixel" % c["fn"], c, wants[0], o)
        else:
            ctx.seen(c["fn"], c["args"], c["kw"])
