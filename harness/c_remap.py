"""Rebinning and grid-to-grid remapping: properties M01, M02."""
import math
from fractions import Fraction as F
from core import fr, rat, near, near_all, flat, fold, shape, isnum


def scaled(v, u):
    return [None if x is None else float(x)*u for x in v]


def M01(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(150, 1500)):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        den = rng.choice((2, 3, 4, 5))
        old = sorted(rng.sample(range(-20, 30), n + 1))
        new = sorted(rng.sample(range(-30, 40), m + 1))
        if rng.random() < .3:       # edges in common
            new = sorted(set(new) | set(rng.sample(old, min(2, n))))
        if rng.random() < .15:      # a bin without extent
            new = sorted(new + [new[rng.randrange(len(new))]])
        if rng.random() < .15:
            old = sorted(old + [old[rng.randrange(len(old))]])
        if rng.random() < .2:       # identity
            new = list(old)
        if rng.random() < .1:       # far away
            new = [x + 100 for x in new]
        if rng.random() < .15:      # a hair over an edge
            old, new = old[:3], sorted(rng.sample(range(old[0], old[-1] + 1), 2))
            new[rng.randrange(2)] = rng.choice(old) + F(rng.choice((-1, 1)), rng.choice((512, 4096)))
            new, den = sorted(new), 1
        k = len(old) - 1
        w = [F(rng.randint(0, 4), 2) for _ in range(k)]
        cases.append({"old": [rat(F(x, den)) for x in old], "new": [rat(F(x, den)) for x in new],
                      "f": [rat(F(rng.randint(-9, 9), 2)) for _ in range(k)], "w": [rat(x) for x in w],
                      "s": [rat(F(rng.randint(0, 5), 2)) for _ in range(k)]})
    for _ in range(ctx.pick(3, 12)):        # many bins
        n, m = rng.randint(130, 260), rng.randint(30, 60)
        old, new = [0], [rng.randint(-3, 3)]
        while len(old) <= n:
            old.append(old[-1] + rng.choice((1, 1, 2, 3)))
        while len(new) <= m:
            new.append(new[-1] + rng.randint(1, 12))
        cases.append({"old": [rat(F(x)) for x in old], "new": [rat(F(x, 2)) for x in new], "f": [rat(F(rng.randint(-9, 9), 2)) for _ in range(n)],
                      "w": [rat(F(rng.randint(1, 4), 2)) for _ in range(n)], "s": [rat(F(rng.randint(0, 5), 2)) for _ in range(n)]})
    recs = ctx.tlc("Rebin", cases)
    ctx.sample(recs[len(recs)//2])
    calls, plan = [], []
    for r in recs:
        old, new, f, w, s = ([float(fr(x)) for x in r[k]] for k in ("old", "new", "f", "w", "s"))
        out = [x or None for x in r["out"]]
        v = [x and fr(x["v"]) for x in out]
        sg = [x and math.sqrt(fr(x["s"]))/fr(x["g"]) for x in out]
        # positions, values and weights come in any unit
        ux, uf, uw = (rng.choice((1., 2.**-60, 2.**-20, 2.**40)) for _ in range(3))
        old, new, f, s, w = [x*ux for x in old], [x*ux for x in new], [x*uf for x in f], [x*uf for x in s], [x*uw for x in w]
        base = [{"f": old}, {"f": f}, {"f": new}]
        calls.append({"fn": "one_d.rebin_1d", "args": base})
        plan.append((r, scaled(v, uf), uf))
        calls.append({"fn": "one_d.rebin_1d", "args": base, "kw": {"sigma": {"f": s}}})
        plan.append((r, [scaled(v, uf), scaled(sg, uf)], uf))
        # a bin without a value only matters where it is covered
        k = rng.randrange(len(f))
        hit = lambda xs: [None if u[k] else x for x, u in zip(xs, r["used"])]
        holed = [{"f": old}, {"f": f[:k] + [math.nan] + f[k+1:]}, {"f": new}]
        calls.append({"fn": "one_d.rebin_1d", "args": holed})
        plan.append((r, scaled(hit(v), uf), uf))
        calls.append({"fn": "one_d.rebin_1d", "args": base, "kw": {"sigma": {"f": s[:k] + [math.nan] + s[k+1:]}}})
        plan.append((r, [scaled(v, uf), scaled(hit(sg), uf)], uf))
        if any(x and not x["vw"] for x in out):
            continue                # all the weight there is zero: nothing is promised
        vw = [x and fr(x["vw"]) for x in out]
        sw = [x and math.sqrt(fr(x["sw"]))/fr(x["gw"]) for x in out]
        calls.append({"fn": "one_d.rebin_1d", "args": base, "kw": {"w": {"f": w}}})
        plan.append((r, scaled(vw, uf), uf))
        calls.append({"fn": "one_d.rebin_1d", "args": base, "kw": {"w": {"f": w}, "sigma": {"f": s}}})
        plan.append((r, [scaled(vw, uf), scaled(sw, uf)], uf))
    for c, (r, want, unit), o in zip(calls, plan, ctx.calls(calls)):
        if "exc" in o or not near_all(o["r"], want, 1e-11, 10*unit):
            ctx.fail("rebin_1d is wrong", c, want, o)
        elif any(x and x["v"] != [0, 1] for x in r["out"]):
            ctx.seen(r["old"], r["new"], sorted(c.get("kw", {})))
    # what must be refused
    E, D = [0., 1., 2., 3.], [1., 2., 3.]
    bad = [([0., 2., 1., 3.], D, [0., 1.], {}), (E, D, [0., 2., 1.], {}), (E, D[:2], [0., 3.], {}),
           (E, D + [4.], [0., 3.], {}), (E, D, [0., 3.], {"w": {"f": D[:2]}}), (E, D, [0., 3.], {"sigma": {"f": D[:2]}}),
           (E, D, [0., 3.], {"w": {"f": D + [1.]}}), (E, D, [0., 3.], {"sigma": {"f": D + [1.]}})]
    calls = [{"fn": "one_d.rebin_1d", "args": [{"f": e}, {"f": d}, {"f": n}], "kw": kw} for e, d, n, kw in bad]
    for c, o in zip(calls, ctx.calls(calls)):
        if "exc" not in o:
            ctx.fail("rebin_1d accepts what it must refuse", c, "an error", o)


def kwargs(rng, axes, unit):
    """The ways to hand over the same geometry."""
    L = [float(fr(a["len"]))*unit for a in axes]
    m = [float(fr(a["min"]))*unit for a in axes]
    OL = [float(fr(a["olen"]))*unit for a in axes]
    om = [float(fr(a["omin"]))*unit for a in axes]
    on = [a["on"] for a in axes]

    def arg(v):
        return v[0] if len(v) == 1 or (len(set(v)) == 1 and rng.random() < .6) else v
    kw = {"origin": arg(m), "originout": arg(om), "boxsizeout": arg(OL)}
    if not any(m) and rng.random() < .7:
        del kw["origin"]
    if not any(om) and rng.random() < .7:
        del kw["originout"]
    if OL == L and rng.random() < .7:
        del kw["boxsizeout"]
    return [arg(L), arg(on)], kw


UNITS = (1., 1., .1, 2.**-60, 2.**40)     # lengths come in any unit


def M02(ctx):
    rng = ctx.rng
    recs = ctx.tlc("Grid2Grid")
    ctx.sample(recs[len(recs)//2])
    calls, plan = [], []
    for r in recs:
        for unit in (rng.choice(UNITS),) if not ctx.thorough else (rng.choice(UNITS[1:]), 1.0, 0.1):
            f = [rng.randint(-9, 9) for _ in range(r["ax"]["n"])]
            (L, on), kw = kwargs(rng, [r["ax"]], unit)
            want = [sum(fr(x)*v for x, v in zip(row, f)) for row in r["w"]]
            calls.append({"fn": "remap.grid2grid1D", "args": [{rng.choice("fi"): f}, L, on], "kw": kw})
            plan.append((want, 1.))
    # whole fields: axes drawn from a wider range
    cases = []

    def axis(small):
        den = rng.choice((1, 2, 3, 4, 10))
        a = {"len": rat(F(rng.randint(1, 12), den)), "min": rat(F(rng.randint(-6, 6), den)),
             "n": rng.randint(1, small), "on": rng.randint(1, small)}
        if rng.random() < .3:
            a["min"] = [0, 1]
        t = rng.random()
        if t < .25:
            a["olen"], a["omin"] = a["len"], a["min"]
        elif t < .4:
            a["olen"], a["omin"] = a["len"], rat(fr(a["min"]) + F(rng.randint(-3, 3), den))
        elif t < .5:
            a["olen"], a["omin"] = a["len"], [0, 1]
        else:
            a["olen"], a["omin"] = rat(F(rng.randint(1, 12), den)), rat(F(rng.randint(-8, 8), den))
        return a
    for d, count, small in ((1, ctx.pick(60, 500), 12), (2, ctx.pick(160, 900), 6), (3, ctx.pick(70, 400), 4)):
        for q in range(count):
            ax = [axis(small) for _ in range(d)]
            if q % 4 == 0:
                ax = [dict(ax[0], n=a["n"], on=ax[0]["on"]) for a in ax]
            n = math.prod(a["n"] for a in ax)
            f = [rng.randint(-9, 9) for _ in range(n)] if rng.random() < .8 else [1]*n
            cases.append({"ax": ax, "f": f})
    # long axes, and output grids a hair off
    for q in range(ctx.pick(6, 24)):
        ns, ons = ([rng.randint(150, 300)], [rng.randint(150, 300)]) if q % 3 == 0 else ([40, 5], [7, 31]) if q % 3 == 1 else ([12, 9, 3], [2, 11, 10])
        ax = [dict(axis(2), n=a, on=b) for a, b in zip(ns, ons)]
        for a in ax:
            for k in ("len", "olen"):
                a[k] = [rng.randint(1, 12), 1]
            for k in ("min", "omin"):
                a[k] = [rng.randint(-3, 3), 1]
        cases.append({"ax": ax, "f": [rng.randint(-9, 9) for _ in range(math.prod(ns))]})
    for q in range(ctx.pick(12, 60)):
        n = 2**rng.randint(0, 3)
        hair = F(rng.choice((-1, 1)), rng.choice((256, 4096)))
        cases.append({"ax": [{"len": [8, 1], "min": [0, 1], "n": n, "on": rng.choice((n, 2*n)), "olen": [8, 1], "omin": rat(hair)}],
                      "f": [rng.randint(-9, 9) for _ in range(n)]})
    for c, r in zip(cases, ctx.oracle("GridMap", cases)):
        d = len(c["ax"])
        args, kw = kwargs(rng, c["ax"], rng.choice(UNITS))
        unit = rng.choice((1., 2.**-60, 2.**50))
        f = fold([x*unit for x in c["f"]] if unit != 1 else c["f"], [a["n"] for a in c["ax"]])
        want = fold([float(fr(x))*unit for x in r["out"]], [a["on"] for a in c["ax"]])
        calls.append({"fn": "remap.grid2grid%dD" % d, "args": [{rng.choice(["f", "i", "F"]) if unit == 1 else rng.choice("fF"): f}] + args, "kw": kw})
        plan.append((want, unit))
    for c, (want, unit), o in zip(calls, plan, ctx.calls(calls)):
        if "exc" in o or not near_all(o["r"], want, 1e-11, 10*unit):
            ctx.fail("%s is not the exact average" % c["fn"], c, want, o)
        elif any(flat(want)):
            ctx.seen(c["fn"], c["args"], c["kw"])


def M03(ctx):
    """The kernels of magpie.src."""
    rng = ctx.rng
    recs = ctx.tlc("Flatten")
    rows = ctx.tlc("Grid2Grid")
    flats = [r for r in recs if r["kind"] == "flat"]
    points = [r for r in recs if r["kind"] == "which"]
    ctx.sample(flats[len(flats)//2])
    calls, judges = [], []

    def add(fn, judge, args=(), **kw):
        calls.append({"fn": "src." + fn, "args": list(args), "kw": kw})
        judges.append(judge)

    def exactly(want):
        return lambda o: None if near_all(o, want, 0.) else want
    for r in flats:
        c = r["c"]
        x, y, z = ({"i": c[k]} for k in "xyz")
        if c["z"]:
            add("pix1dto3d", exactly(r["out"]), xpix=x, ypix=y, zpix=z, ygrid=c["gy"], zgrid=c["gz"])
        else:
            add("pix1dto2d", exactly(r["out"]), xpix=x, ypix=y, ygrid=c["gy"])
    for r in points:
        c = r["c"]
        u = rng.choice((1., 1., 2.**-60, 2.**40))
        add("which_pix", exactly(r["out"][0]), xmin=float(fr(c["min"]))*u, dx=float(fr(c["dx"]))*u, x=float(fr(c["x"]))*u)

    def overlaps(row, most):
        """Judges a list of pixels and weights: every input pixel below the output pixel once, with its share."""
        want = {p: float(fr(v)) for p, v in enumerate(row) if fr(v)}

        def judge(o):
            pix, w = o
            if len(pix) != most or len(w) != most:
                return want
            got = {}
            for p, v in zip(pix, w):
                if p != -1 and not 0 <= p < len(row):
                    return want
                if p == -1 and v:
                    return want
                if abs(v) > 1e-9:
                    if p in got:
                        return want
                    got[p] = v
            return None if set(got) == {p for p, v in want.items() if v > 1e-9} and all(near(v, want[p]) for p, v in got.items()) else want
        return judge

    def enough(n, at):
        def judge(o):
            lens[at] = o
            return None if isinstance(o, int) and o >= n else "at least %d" % n
        return judge
    lens = {}
    keep = rows if ctx.thorough else rng.sample(rows, 400)
    geo = []
    for k, r in enumerate(keep):
        a = r["ax"]
        u = rng.choice((1., 1., 2.**-60, 2.**40))
        x1, l1, x2, l2 = (float(fr(a[q]))*u for q in ("min", "len", "omin", "olen"))
        g = {"x1min": x1, "x1max": x1 + l1, "grid1": a["n"], "x2min": x2, "x2max": x2 + l2, "grid2": a["on"]}
        geo.append(g)
        add("get_remap_pix_len", enough(max(sum(1 for v in row if fr(v)) for row in r["w"]), k), **g)
        # as many places as could be needed, or more
        need = int((fr(a["olen"])/a["on"]) // (fr(a["len"])/a["n"])) + 2
        f = [rng.randint(-9, 9) for _ in range(a["n"])]
        for most in (need, need + rng.randint(1, 4)):
            for q in range(a["on"]):
                add("remap_1d_grid2grid_pixel", overlaps(r["w"][q], most), which2pix=q, pixlen=most, **g)
            want = [float(sum(fr(v)*y for v, y in zip(row, f))) for row in r["w"]]
            add("remap_1d_grid2grid", lambda o, want=want: None if near_all(o, want, 1e-9, 10) else want,
                pixlen=most, f1={"f": f}, **{k: v for k, v in g.items() if k != "grid1"})

    def product(rs, d):
        """A field on a product of axes."""
        ns, ons = [r["ax"]["n"] for r in rs], [r["ax"]["on"] for r in rs]
        f = [rng.randint(-9, 9) for _ in range(math.prod(ns))]
        kw, out = {"f1": {"f": f}}, f
        ws = [[[fr(v) for v in row] for row in r["w"]] for r in rs]
        # contract the axes one after the other, the first one first
        out, left = [F(v) for v in f], list(ns)
        for w, n in zip(ws, ns):
            m = len(out)//n
            out = [sum((row[p]*out[p*m + q] for p in range(n) if row[p]), F(0)) for q in range(m) for row in w]
        for x, r in zip("xyz", rs):
            a = r["ax"]
            x1, l1, x2, l2 = (float(fr(a[q])) for q in ("min", "len", "omin", "olen"))
            kw.update({x + "1min": x1, x + "1max": x1 + l1, x + "1grid": a["n"], x + "2min": x2, x + "2max": x2 + l2, x + "2grid": a["on"],
                       x + "pixlen": int((fr(a["olen"])/a["on"]) // (fr(a["len"])/a["n"])) + 2 + rng.randint(0, 1)})
        want = [float(v) for v in out]
        add("remap_%dd_grid2grid" % d, lambda o: None if near_all(o, want, 1e-9, 10) else want, **kw)
    for _ in range(ctx.pick(150, 1500)):
        product(rng.sample(rows, 2), 2)
    for _ in range(ctx.pick(80, 600)):
        product(rng.sample([r for r in rows if r["ax"]["n"] < 4], 3), 3)
    for c, judge, o in zip(calls, judges, ctx.calls(calls, batch=400)):
        want = judge(o["r"]) if "exc" not in o else "an answer"
        if want is not None:
            ctx.fail("%s is wrong" % c["fn"], c, want, o)
        else:
            ctx.seen(c["fn"], c["kw"])
