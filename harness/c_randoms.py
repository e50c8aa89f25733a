"""Random points and draws: properties R01..R05."""
import math
from core import fr, isnum, near_all

PI = math.pi


def verdict(ctx, items):
    """items: (what, case, n, weights, counts); the specification judges the counts."""
    items = list(items)
    if not items:
        return
    out = ctx.oracle("Counts", [{"n": n, "w": w, "W": sum(w), "c": c} for _, _, n, w, c in items])
    for (what, case, n, w, c), r in zip(items, out):
        if not r["ok"]:
            ctx.fail(what, case, {"n": n, "weights": w}, {"counts": c, "verdict": r})
        else:
            ctx.seen(what, case)


def seeds(ctx):
    while True:
        yield ctx.rng.randrange(2**31)


def axis(a, edges):
    m = a["m"]
    lo, hi = float(fr(a["lo"])), float(fr(a["hi"]))
    e = [float(fr(x)) for x in edges]
    if m == "cos":
        return {"t": "cos", "lo": math.acos(lo), "hi": math.acos(hi), "edges": e}
    return {"t": m, "lo": lo, "hi": hi, "edges": e}


def circle(ax):
    return {"t": "id", "lo": ax["lo"]*PI, "hi": ax["hi"]*PI, "edges": [x*PI for x in ax["edges"]]}


UNITS = (2.0**-70, 2.0**-20, 2.0**30, 2.0**60)
LENGTHS = {"randoms_1d": 1, "randoms_2d": 2, "randoms_3d": 3, "randoms_polar": 1, "randoms_sphere_r": 1, "randoms_sphere": 1}


def region_call(r, n, rng, unit=1):
    ax = [axis(a, e) for a, e in zip(r["ax"], r["edges"])]
    k = r["kind"]
    for a in ax[:LENGTHS.get(k, 0)]:        # lengths in another unit
        a["lo"], a["hi"] = a["lo"]*unit, a["hi"]*unit
        a["edges"] = [x*unit**{"id": 1, "sq": 2, "cube": 3}[a["t"]] for x in a["edges"]]
    lo, hi = [a["lo"] for a in ax], [a["hi"] for a in ax]
    if k == "randoms_1d":
        kw = {"xmin": lo[0], "xmax": hi[0]}
        std = {"xmin": 0., "xmax": 1.}
    elif k in ("randoms_2d", "randoms_3d"):
        d = len(ax)
        kw = {"mins": rng.choice([lo, {"f": lo}, {"t": lo}]), "maxs": hi}
        if lo == [0.]*d:
            del kw["mins"]
        if hi == [1.]*d:
            del kw["maxs"]
        std = {}
    else:
        names = {"randoms_polar": ("r", "phi"), "randoms_sphere_r": ("r",), "randoms_usphere": ("phi", "theta"),
                 "randoms_sphere": ("r", "phi", "theta")}[k]
        ax = [circle(a) if q == "phi" else a for a, q in zip(ax, names)]
        kw = {}
        for a, q in zip(ax, names):
            kw[q + "_min"], kw[q + "_max"] = a["lo"], a["hi"]
        std = {"r_min": 0., "r_max": 1., "phi_min": 0., "phi_max": 2*PI, "theta_min": 0., "theta_max": PI}
    for q in list(kw):
        if q in std and kw[q] == std[q] and rng.random() < .7:
            del kw[q]
    return {"mode": "points", "fn": "randoms." + k, "args": [n], "kw": kw, "axes": ax, "n": n}


def judge_points(ctx, cases, outs, distinct=True):
    items = []
    for c, o in zip(cases, outs):
        brief = {k: c[k] for k in ("fn", "args", "kw", "extreme") if k in c}
        if "exc" in o:
            ctx.fail("%s fails" % c["fn"], brief, None, o)
            continue
        o = o["ok"]
        if "counts" not in o:
            ctx.fail("%s returns other than the requested points" % c["fn"], brief, c["n"], o)
            continue
        if o["outside"]:
            ctx.fail("%s leaves the region" % c["fn"], brief, [[a["lo"], a["hi"]] for a in c["axes"]], o["outside"])
            continue
        if "star" in c and o["ranges"] and not (-1e-12 <= o["ranges"][0][0] and o["ranges"][0][1] <= 2*PI + 1e-12
                                                and -1e-12 <= o["ranges"][1][0] and o["ranges"][1][1] <= PI + 1e-12):
            ctx.fail("%s gives angles outside their range" % c["fn"], brief, None, o["ranges"])
        if c.get("extreme") or c["n"] < 1000:
            ctx.seen("extreme", brief)
            continue
        if distinct and o["distinct"] < 0.99*c["n"]:
            ctx.fail("%s repeats points" % c["fn"], brief, c["n"], o["distinct"])
        items.append(("%s is not uniform" % c["fn"], brief, c["n"], c.get("weights") or [1]*len(o["counts"]), o["counts"]))
        if c.get("even", True):
            # as many cells as points: chance leaves 36.79 of 100 empty
            for k, m in enumerate(o["occupied"]):
                items.append(("%s spreads coordinate %d unlike chance" % (c["fn"], k), brief, c["n"], [6321, 3679], [m, c["n"] - m]))
        for what, b, counts in o["pairs"]:
            w1 = c.get("weights") or [1]*(len(c["axes"][b]["edges"]) - 1)
            items.append(("%s: %s depend on each other" % (c["fn"], what), brief, c["n"]//2, [p*q for p in w1 for q in w1], counts))
    verdict(ctx, items)


def R01(ctx):
    sd = seeds(ctx)
    regs = [r for r in ctx.tlc("Regions") if r["kind"] != "pixel"]
    ctx.sample(regs[0])
    n = ctx.pick(120000, 1000000)
    cases = []
    for r in regs:
        c = region_call(r, n, ctx.rng)
        cases.append(dict(c, seed=next(sd)))
        if r["kind"] in LENGTHS:
            cases.append(dict(region_call(r, n//6, ctx.rng, ctx.rng.choice(UNITS)), seed=next(sd)))
        for m in (0, 1, 7):
            cases.append(dict(region_call(r, m, ctx.rng), seed=next(sd)))
        for e in ("low", "high", "mix"):
            cases.append(dict(region_call(r, 50, ctx.rng), seed=next(sd), extreme=e))
    ctx.rng.shuffle(cases)
    judge_points(ctx, cases, ctx.drive("stats", cases, jobs=8))


def R02(ctx):
    sd = seeds(ctx)
    pix = [r for r in ctx.tlc("Regions") if r["kind"] == "pixel"]
    ctx.sample(pix[0])
    n = ctx.pick(60000, 500000)
    cases = []
    edges = [k/8 for k in range(9)]
    ax = {"t": "id", "lo": 0., "hi": 1., "edges": edges}
    for r in pix:
        c = {"mode": "points", "fn": "randoms.randoms_healpix_pixel", "kw": {}, "axes": [ax, ax], "nside": r["N"],
             "star": r["s"], "tol": 1e-6*max(1, r["N"]/8)}
        cases.append(dict(c, args=[n, r["p"], r["N"]], n=n, seed=next(sd)))
        cases.append(dict(c, args=[1, r["p"], r["N"]], n=1, seed=next(sd)))
        cases.append(dict(c, args=[23, r["p"], r["N"]], n=23, seed=next(sd)))
    ctx.rng.shuffle(cases)
    judge_points(ctx, cases, ctx.drive("stats", cases, jobs=8))


def R03(ctx):
    rng = ctx.rng
    sd = seeds(ctx)
    cases = []
    for q in range(ctx.pick(90, 600)):
        n = rng.randint(2, 9)
        pdf = [rng.randint(0, 9) for _ in range(n)]
        smooth = q % 3 == 0
        if smooth:
            n = rng.randint(5, 9)
            pdf, v = [], rng.randint(8, 20)
            for _ in range(n):
                pdf.append(v)
                v = max(8, v + rng.randint(-2, 2))
        if q % 30 == 7:     # many bins
            n, pdf, smooth = 150, [rng.randint(0, 9) for _ in range(150)], False
        if not any(pdf):
            pdf[rng.randrange(n)] = 1
        cases.append({"first": rng.choice(([0, 1], [-5, 2], [1, 3], [100, 1])), "dx": rng.choice(([1, 1], [1, 2], [7, 3], [1, 100])),
                      "pdf": pdf, "unit": rng.choice((1.0, 0.25, 3e-7, 1e6, 1e-40, 1e30)), "smooth": smooth,
                      "xu": rng.choice((1, 1, 2.0**-60, 2.0**-15, 2.0**40))})
    recs = ctx.oracle("Density", [{k: c[k] for k in ("first", "dx", "pdf")} for c in cases])
    ctx.sample({"case": cases[0], "expected": recs[0]})
    calls, plan = [], []
    for c, r in zip(cases, recs):
        u = c["xu"]
        first, dx = float(fr(c["first"]))*u, float(fr(c["dx"]))*u
        mid = {"f": [first + dx*k for k in range(len(c["pdf"]))]}
        pdf = {"f": [v*c["unit"] for v in c["pdf"]]}
        x, cdf, norm = ([float(fr(v))*s for v in r[k]] for k, s in (("x", u), ("cdf", 1), ("norm", 1/u)))
        calls.append({"fn": "randoms.pdf2cdf", "args": [mid, pdf]})
        plan.append((x, cdf, norm, dx))
        calls.append({"fn": "randoms.pdf2cdf", "args": [mid, pdf], "kw": {"return_normpdf": False}})
        plan.append((x, cdf, None, dx))
    for c, (x, cdf, norm, dx), o in zip(calls, plan, ctx.calls(calls)):
        g = o.get("r")
        ok = isinstance(g, list) and len(g) == (2 if norm is None else 3)
        ok = ok and near_all(g[0], x, 1e-11, abs(x[0]) + abs(x[-1])) and near_all(g[1], cdf, 1e-11, 1)
        ok = ok and (norm is None or near_all(g[2], norm, 1e-11, max(norm)))
        if not ok:
            ctx.fail("pdf2cdf is wrong", c, [x, cdf, norm], o)
        else:
            ctx.seen("pdf2cdf", c["args"])
    # draws: linear within every bin; otherwise the share of every bin
    n = ctx.pick(60000, 500000)
    todo = []
    for c, r in zip(cases, recs):
        u = c["xu"]
        x, cdf = ([float(fr(v))*s for v in r[k]] for k, s in (("x", u), ("cdf", 1)))
        first, dx = float(fr(c["first"]))*u, float(fr(c["dx"]))*u
        mid = {"f": [first + dx*k for k in range(len(c["pdf"]))]}
        pdf = {"f": [v*c["unit"] for v in c["pdf"]]}
        half = [v for a, b in zip(x, x[1:]) for v in (a, (a + b)/2)] + [x[-1]]
        kinds = ["linear"] + (["cubic", None] if c["smooth"] else [])
        for kind in kinds:
            if kind == "linear":
                ax = {"t": "id", "lo": x[0], "hi": x[-1], "edges": half}
                w = [v for v in c["pdf"] for _ in (0, 1)]
            else:
                ax = {"t": "id", "lo": x[0] - dx, "hi": x[-1] + dx, "edges": x}
                w = c["pdf"]
            kw = {} if kind is None else {"kind": kind}
            # the last value of a sum need not be 1 to the last bit; the function asks for it
            for fn, args in (("randoms.randoms_pdf", [mid, pdf]), ("randoms.randoms_cdf", [{"f": x}, {"f": cdf[:-1] + [1.0]}])):
                for m in (n, 0, 1):
                    t = {"mode": "points", "fn": fn, "args": args + [m], "kw": kw, "axes": [ax], "n": m, "weights": w, "even": kind == "linear",
                         "seed": next(sd), "tol": 1e-9}
                    todo.append(t)
    rng.shuffle(todo)
    judge_points(ctx, todo, ctx.drive("stats", todo, jobs=8))
    bad = []
    for cdf in ([0.1, .5, 1.], [0., .5, .9], [0., .5, 1.1], [-.1, .5, 1.], [1., .5, 0.], [0., 5., 10.], [0.5, .7, .9]):
        for kind in ("linear", None):
            X, Y = [0., 1., 2.], cdf
            if kind is None:
                X, Y = [0., 1., 2., 3.], [cdf[0], (cdf[0] + cdf[1])/2] + cdf[1:]
            bad.append({"fn": "randoms.randoms_cdf", "args": [{"f": X}, {"f": Y}, 10], "kw": {"kind": kind} if kind else {}})
    for c, o in zip(bad, ctx.calls(bad)):
        if "exc" not in o:
            ctx.fail("randoms_cdf accepts a distribution that does not run from 0 to 1", c, "an error", o)


def outcomes(recs, *kinds):
    """task -> list of (outcome, weight, total)"""
    out = {}
    for r in recs:
        if r["task"]["kind"] in kinds:
            out.setdefault(repr(r["task"]), (r["task"], []))[1].append(r)
    return list(out.values())


def tally(ctx, what, brief, o, key, table, n):
    """table: outcome key -> whole weight; yields an item for the verdict."""
    if "exc" in o:
        ctx.fail("%s fails" % what, brief, None, o)
        return None
    counts = {}
    for raw, c in o["ok"]["seen"].items():
        k = key(eval(raw))          # a tuple of numbers written by the driver
        if k not in table:
            ctx.fail("%s gives an impossible outcome" % what, brief, sorted(table)[:20], raw)
            return None
        counts[k] = counts.get(k, 0) + c
    ks = sorted(table)
    return ("%s has other probabilities" % what, brief, n, [table[k] for k in ks], [counts.get(k, 0) for k in ks])


def R04(ctx):
    rng = ctx.rng
    sd = seeds(ctx)
    recs = ctx.tlc("Draws")
    ctx.sample(recs[-1])
    reps = ctx.pick(15000, 120000)
    cases, plan = [], []

    def add(fn, sample, args, kw, key, table, extremes=True):
        base = {"mode": "repeat", "fn": "randoms." + fn, "args": [sample] + args, "kw": kw}
        cases.append(dict(base, n=reps, seed=next(sd)))
        plan.append((key, table, True))
        if extremes:
            for e in ("low", "high", "mix"):
                cases.append(dict(base, n=8, seed=next(sd), extreme=e))
                plan.append((key, table, False))
    for task, rs in outcomes(recs, "shuffle", "draw"):
        vals = rng.sample(range(-50, 50), task["n"])
        sample = {rng.choice("fi"): vals}

        def pos(t, vals=vals):
            return tuple(vals.index(v) if v in vals else -1 for v in t)
        if task["kind"] == "shuffle":
            add("shuffle", sample, [], {}, pos, {tuple(k - 1 for k in r["out"]): 1 for r in rs})
        else:
            def subset(t, pos=pos, m=task["m"]):
                return tuple(sorted(pos(t))) if len(set(t)) == m == len(t) else ("repeated",) + tuple(t)
            table = {tuple(sorted(k - 1 for k in r["out"])): 1 for r in rs}
            add("random_draw", sample, [task["m"]], {}, subset, table)
            # equal weights prefer nobody
            add("random_prob_draw", sample, [{"f": [rng.choice((.25, 1., 1e-9, 1e-40, 64., 1e6))]*task["n"]}], {"size": task["m"]}, subset, table)
    for task, rs in outcomes(recs, "keep"):
        n = task["n"]
        vals = rng.sample(range(-50, 50), n)
        sample = {rng.choice("fi"): vals}

        def kept(t, vals=vals):
            if len(set(t)) != len(t) or any(v not in vals for v in t):
                return ("repeated",) + tuple(t)
            return tuple(int(v in t) for v in vals)
        total = max(r["total"] for r in rs)
        table = {tuple(r["out"]): r["weight"]*(total//r["total"]) for r in rs}
        add("random_prob_draw", sample, [{"f": [float(fr(p)) for p in task["p"]]}], {}, kept, table)
    outs = ctx.drive("stats", cases, jobs=8)
    items = []
    for c, (key, table, judge), o in zip(cases, plan, outs):
        brief = {k: c[k] for k in ("fn", "args", "kw", "extreme") if k in c}
        it = tally(ctx, c["fn"], brief, o, key, table, c["n"])
        if it and judge:
            items.append(it)
    verdict(ctx, items)
    long_samples(ctx, sd)
    # unequal weights
    cases, plan = [], []
    for _ in range(ctx.pick(12, 60)):
        n = rng.randint(2, 6)
        m = rng.randint(1, n - 1)
        w = [rng.choice((1, 2, 4, 8, 9)) for _ in range(n)]
        vals = rng.sample(range(-50, 50), n)
        unit = rng.choice((.1, 1e-8, 1e-30, 100., 1e7))
        cases.append({"mode": "repeat", "fn": "randoms.random_prob_draw", "args": [{"i": vals}, {"f": [x*unit for x in w]}],
                      "kw": {"size": m}, "n": reps, "seed": next(sd)})
        plan.append((vals, w, m))
    asked = []
    for c, (vals, w, m), o in zip(cases, plan, ctx.drive("stats", cases, jobs=8)):
        brief = {k: c[k] for k in ("fn", "args", "kw")}
        if "exc" in o:
            ctx.fail("random_prob_draw with a size fails", brief, None, o)
            continue
        count = [0]*len(vals)
        for raw, k in o["ok"]["seen"].items():
            t = eval(raw)
            if len(t) != m or len(set(t)) != m or any(v not in vals for v in t):
                ctx.fail("random_prob_draw with a size gives other than that many distinct elements", brief, m, raw)
                break
            for v in t:
                count[vals.index(int(v))] += k
        else:
            asked.append((brief, {"n": reps, "m": m, "w": w, "c": count}))
    for (brief, q), r in zip(asked, ctx.oracle("Prefer", [q for _, q in asked]) if asked else []):
        if not r["ok"]:
            ctx.fail("random_prob_draw does not prefer larger weights", brief, q["w"], q["c"])
        else:
            ctx.seen("prefer", q["w"])
    bad = []
    s3 = {"i": [1, 2, 3]}
    for m in (3, 4, 10):
        bad.append({"fn": "randoms.random_draw", "args": [s3, m]})
        bad.append({"fn": "randoms.random_prob_draw", "args": [s3, {"f": [.5, .5, .5]}], "kw": {"size": m}})
    for p in ([0., .5, .5], [.5, 0., 1.], [.5, .5, 0.], [.5, -.1, .5]):
        bad.append({"fn": "randoms.random_prob_draw", "args": [s3, {"f": p}], "kw": {"size": 1}})
    for c, o in zip(bad, ctx.calls(bad)):
        if "exc" not in o:
            ctx.fail("a draw that must be refused is made", c, "an error", o)


def long_samples(ctx, sd):
    """Samples too long to list their outcomes: they are cut into blocks of equal
    length, and so are the places of the outcome."""
    rng = ctx.rng
    blocks, reps = 8, ctx.pick(60, 400)
    cases, plan = [], []
    for _ in range(ctx.pick(3, 12)):
        size = rng.choice((130, 600, 2000, 12000))
        n = blocks*size
        same = {"size": size, "blocks": blocks, "kw": {}, "mode": "blocks", "n": reps}
        m = blocks*rng.choice((1, size//2, size - 1))
        probs = [rng.choice(((0, 1), (1, 4), (1, 2), (3, 4), (1, 1), (1, 3), (1, 2000), (1999, 2000))) for _ in range(blocks)]
        even = {"fn": "randoms.random_prob_draw", "args": [{"repeat": [.375]*blocks}], "kw": {"size": m}}
        for q, out in (({"fn": "randoms.shuffle", "args": []}, n), ({"fn": "randoms.random_draw", "args": [m]}, m), (even, m),
                       ({"fn": "randoms.random_prob_draw", "args": [{"repeat": [p/q for p, q in probs]}]}, None)):
            cases.append(dict(same, **dict(q, seed=next(sd), kind=rng.choice("fi"))))
            plan.append((size, out, probs))
    items = []
    for c, (size, out, probs), o in zip(cases, plan, ctx.drive("stats", cases, jobs=8)):
        brief = {k: c[k] for k in ("fn", "args", "kw", "size", "blocks")}
        g = o.get("ok")
        if not g or g["wrong"] or (out is not None and g["lengths"] != [out]*reps):
            ctx.fail("%s of a long sample gives other than that many distinct elements" % c["fn"], brief, out, o)
            continue
        if out is None:
            for k, (p, q) in enumerate(probs):
                kept = sum(g["place"][k])
                items.append(("%s of a long sample has other probabilities" % c["fn"], dict(brief, block=k), reps*size, [p, q - p], [kept, reps*size - kept]))
                items.append(("%s of a long sample is not shuffled" % c["fn"], dict(brief, block=k), kept, [1]*2,
                              [sum(g["place"][k][:blocks//2]), sum(g["place"][k][blocks//2:])]))
        else:
            items.append(("%s of a long sample is not uniform" % c["fn"], brief, reps*out, [1]*blocks**2, [x for row in g["place"] for x in row]))
            items.append(("%s of a long sample keeps neighbours" % c["fn"], brief, reps*(out//2), [min(size, 4000) - (a == b) for a in range(blocks) for b in range(blocks)],
                          [x for row in g["pairs"] for x in row]))
    verdict(ctx, [i for i in items if i[2]])


def R05(ctx):
    sd = seeds(ctx)
    recs = ctx.tlc("Draws")
    reps = ctx.pick(20000, 150000)
    cases, plan = [], []
    for task, rs in outcomes(recs, "round"):
        ctx.sample({"task": task, "outcomes": rs[:3]})
        total = max(r["total"] for r in rs)
        w = [float(fr(x)) for x in task["p"]]
        for fn, field in (("stochastic_integer_weights", "out"), ("stochastic_binary_weights", "binary")):
            table = {}
            for r in rs:
                k = tuple(r[field])
                table[k] = table.get(k, 0) + r["weight"]*(total//r["total"])
            jobs = [([{"f": w}], table, True)]
            # the same weights again and again in one long array
            many = 10**6 if 10**6 % total == 0 and len(w) < 3 else reps        # rare outcomes too
            cases.append({"mode": "tiled", "fn": "randoms." + fn, "args": [w], "n": many, "seed": next(sd), "extreme": None})
            plan.append((table, True))
            # each weight by itself, as a scalar
            for k, x in enumerate(w):
                one = {}
                for out, v in table.items():
                    one[(out[k],)] = one.get((out[k],), 0) + v
                jobs.append(([{"np": x} if k % 2 else x], one, True))
            for args, tab, _ in jobs:
                for e, n in ((None, reps), ("low", 8), ("high", 8), ("mix", 8)):
                    cases.append({"mode": "repeat", "fn": "randoms." + fn, "args": args, "kw": {}, "n": n, "seed": next(sd),
                                  "extreme": e})
                    plan.append((tab, e is None))
    items = []
    for c, (table, judge), o in zip(cases, plan, ctx.drive("stats", cases, jobs=8)):
        brief = {k: c[k] for k in ("fn", "args", "extreme") if c[k]}
        it = tally(ctx, c["fn"], brief, o, lambda t: tuple(t) if isinstance(t, tuple) else (t,), table, c["n"])
        if it and judge:
            items.append(it)
    verdict(ctx, items)


def draws():
    """Groups of random questions and questions that are not."""
    from c_life import kinds, PI
    from c_pure import F, I, c
    n = 12
    xs = F(*range(40))
    half = F(*[.5]*60)
    x, p = F(*[k + .5 for k in range(8)]), F(1., 2., 3., 2., 1., 1., 4., 2.)
    g = [[c("randoms.randoms_1d", n), c("randoms.randoms_2d", n), c("randoms.randoms_3d", n)],
         [c("randoms.randoms_polar", n), c("randoms.randoms_sphere_r", n), c("randoms.randoms_sphere", n)],
         [c("randoms.randoms_usphere", n), c("randoms.randoms_usphere", n, phi_min=1., phi_max=2., theta_min=.5, theta_max=.75), c("randoms.randoms_healpix_pixel", n, 3, 2)],
         [c("randoms.randoms_healpix_pixel", n, 0, 1), c("randoms.randoms_healpix_pixel", n, 30, 2), c("randoms.randoms_1d", n, xmin=-2., xmax=3.)],
         [c("randoms.shuffle", xs), c("randoms.random_draw", xs, 20), c("randoms.random_prob_draw", xs, {"f": [.5]*40})],
         [c("randoms.random_prob_draw", xs, {"f": [.5]*40}, size=20), c("randoms.stochastic_integer_weights", half), c("randoms.stochastic_binary_weights", half)],
         [c("randoms.randoms_pdf", x, p, n), c("randoms.randoms_cdf", F(0., 1., 3.), F(0., .5, 1.), n, kind="linear"), c("randoms.randoms_pdf", x, p, n, kind="linear")]]
    groups = [[{"ask": [q]} for q in part] for part in g]
    mc = [k for k in kinds(None, True) if k.mc]
    for kd in mc:
        weigh = [{"obj": {"cls": kd.cls, "steps": [kd.src[s], kd.tgt[s], {"m": "get_weights", "kw": {"mc_size": 40, "verbose": False}}] + kd.ask("remap", s + 1, s + 1)}} for s in (0, 1)]
        groups.append(weigh + [{"ask": [c("randoms.randoms_2d", n)]}])
    # everything else leaves the generator alone
    from c_pure import catalogue
    plain = [{"ask": [q for q in part if "seed" not in q and "random" not in q["fn"]]} for part in catalogue()]
    plain = [q for q in plain if q["ask"]]
    plain.append({"ask": [c("randoms.pdf2cdf", x, p)]})
    for kd in kinds(None, True):
        if not kd.mc:
            steps = [kd.src[0]] + ([kd.tgt[0]] if kd.tgt else [])
            plain.append({"obj": {"cls": kd.cls, "steps": steps + [x for op in kd.ops for x in kd.ask(op, 1, 1)]}})
    return groups, plain


def R06(ctx):
    groups, plain = draws()
    rng = ctx.rng
    depth = ctx.pick(4, 5)
    share = [[rng.choice(plain)] for _ in groups]
    given = [{"draws": len(g), "plains": 1, "seeds": 2, "depth": depth} for g in groups]
    # every other function once, between draws
    given += [{"draws": 1, "plains": 1, "seeds": 1, "depth": 4} for _ in plain]
    asked = list(zip(groups, share)) + [([rng.choice(rng.choice(groups))], [q]) for q in plain]
    recs = ctx.tlc("Stream", given, workers=8)
    ctx.sample(recs[len(recs)//2])
    todo = []
    for r in recs:
        g, p = asked[r["i"] - 1]
        todo.append({"steps": [{"seed": 100 + h["k"]} if h["what"] == "seed" else (g if h["what"] == "draw" else p)[h["k"] - 1] for h in r["hist"]]})
    answers, places, told = {}, {}, set()

    def tell(what, r, q, n, want=None, got=None):
        key = (what, repr(q["steps"][n])[:80])
        if key not in told:
            told.add(key)
            ctx.fail(what, {"history": [(h["what"], h["k"]) for h in r["hist"][:n + 1]], "step": q["steps"][n]}, want, got)
    for r, q, o in zip(recs, todo, ctx.drive("stream", todo, jobs=8)):
        if "ok" not in o:
            ctx.fail("crash", q, None, o)
            continue
        for n, (h, x) in enumerate(zip(r["hist"], o["ok"])):
            if "exc" in x:
                tell("a call fails", r, q, n, None, x)
                break
            at = (h["at"]["seed"], *h["at"]["drawn"])
            if h["what"] != "seed":
                # the name of an answer: the question and the place it was asked at
                key = (r["i"], h["what"], h["k"], at if h["what"] == "draw" else None)
                if answers.setdefault(key, x["r"]) != x["r"]:
                    tell("the same question at the same place of the random stream has another answer", r, q, n)
                    break
            if places.setdefault((r["i"], at), x["at"]) != x["at"]:
                tell("the generator is not where its seed and the draws put it", r, q, n)
                break
        else:
            ctx.seen(r["i"], r["hist"])
    # the same question later in the stream, or after another seed, has another answer
    for (i, what, k, at), x in answers.items():
        if what != "draw":
            continue
        others = [at[:n] for n in range(2, len(at)) if at[n - 1] == k] + [(s, *at[1:]) for s in (1, 2) if s != at[0]]
        for other in others:
            if answers.get((i, what, k, other)) == x:
                q = asked[i - 1][0][k - 1]
                if repr(q) not in told:
                    told.add(repr(q))
                    ctx.fail("the same random answer at two places of the stream", {"step": q, "places": [other, at]})
    # processes that set no seed do not agree
    fresh = [{"steps": [q for g in groups for q in g]}]*3
    outs = ctx.drive("stream", fresh, jobs=3)
    for k, q in enumerate(fresh[0]["steps"]):
        rs = [o["ok"][k].get("r") if "ok" in o else None for o in outs]
        if None in rs or len(set(rs)) < len(rs):
            ctx.fail("unseeded processes have the same random answer", q, None, rs)
        else:
            ctx.seen("fresh", k)
