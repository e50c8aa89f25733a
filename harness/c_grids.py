"""Grids and shapes: properties G01, G02, P05."""
import itertools
import math
from fractions import Fraction
from core import fr, near, near_all, flat, shape, isnum

PI, TAU = math.pi, 2*math.pi
UNITS = (1., 1., 2.**-60, 2.**-20, 2.**40)       # lengths come in any unit


def nums(v):
    return [float(fr(x)) for x in v]


def expect(ctx, calls, plan, tol=1e-9):
    """plan: (what, expected nested list, scale)"""
    for c, (what, want, scale), o in zip(calls, plan, ctx.calls(calls)):
        if isinstance(scale, list):     # one for every answer
            fine = "exc" not in o and isinstance(o["r"], list) and len(o["r"]) == len(want) == len(scale) \
                and all(near_all(a, b, tol, s) for a, b, s in zip(o["r"], want, scale))
        else:
            fine = "exc" not in o and near_all(o["r"], want, tol, scale)
        if not fine:
            ctx.fail("%s: %s" % (c["fn"], what), c, want, o)
        else:
            ctx.seen(c["fn"], c.get("args"), c.get("kw"))


def product(mids):
    """The 'ij'-indexed coordinate arrays of a product grid."""
    def build(k, idx, a):
        if k == len(mids):
            return mids[a][idx[a]]
        return [build(k + 1, idx + [i], a) for i in range(len(mids[k]))]
    return [build(0, [], a) for a in range(len(mids))]


def G01(ctx):
    recs = ctx.tlc("Grids")
    rng = ctx.rng
    axes = [r for r in recs if r["kind"] == "axis"]
    grids = [r for r in recs if r["kind"] == "grid"]
    ctx.sample(axes[0])
    calls, plan = [], []

    def add(fn, args, kw, want, scale, what="wrong numbers"):
        calls.append({"fn": "grids." + fn, "args": args, "kw": kw})
        plan.append((what, want, scale))
    for r in axes:
        ax = r["ax"]
        L, m, n = float(fr(ax["len"])), float(fr(ax["min"])), ax["n"]
        E, M = nums(r["edges"]), nums(r["mids"])
        u = rng.choice(UNITS)
        L, m, E, M = L*u, m*u, [x*u for x in E], [x*u for x in M]
        S = L + abs(m)
        kws = [{"xmin": m}] + ([{}] if m == 0 else [])
        for kw in kws:
            add("get_xedges", [L, n], kw, E, S)
            add("grid1d", [L, n], kw, M, S)
            add("grid1d", [L, n], dict(kw, return_edges=True), [M, E], S)
        add("xedges2mid", [{"f": E}], {}, M, S)
        # midpoints of edges that are not evenly spaced
        U = [e + (i*i*L/7) for i, e in enumerate(E)]
        add("xedges2mid", [{"f": U}], {}, [(a + b)/2 for a, b in zip(U, U[1:])], S + 2*L*len(U)**2)
    for r in grids:
        d = len(r["ax"])
        L = nums([a["len"] for a in r["ax"]])
        N = [a["n"] for a in r["ax"]]
        m = nums([a["min"] for a in r["ax"]])
        M = [nums(v) for v in r["mids"]]
        u = rng.choice(UNITS)
        L, m, M = [x*u for x in L], [x*u for x in m], [[x*u for x in v] for v in M]
        X = product(M)
        fn = "grid%dd" % d
        Ls = [L] + ([L[0]] if len(set(L)) == 1 else [])
        Ns = [N] + ([N[0]] if len(set(N)) == 1 else [])
        ms = [{"mins": m}] + ([{}] if not any(m) else []) + ([{"mins": [None if x == 0 else x for x in m]}] if 0 in m else [])
        for l, n, mm in itertools.product(Ls, Ns, ms):
            add(fn, [l, n], mm, X, 12*u)
            add(fn, [l, n], dict(mm, return1d=True), X + M, 12*u)
    expect(ctx, calls, plan, 1e-12)
    calls = [{"fn": "grids.xmid2edges", "args": [{"f": nums(r["mids"])}]} for r in axes if r["ax"]["n"] > 1]
    for r, c, o in zip([r for r in axes if r["ax"]["n"] > 1], calls, ctx.calls(calls)):
        E, M = nums(r["edges"]), nums(r["mids"])
        S = abs(E[0]) + abs(E[-1])
        if "exc" in o or not near_all(o["r"], E, 1e-9, S):
            # the recorded finding: whole instead of half cells are taken off and added
            dx = M[1] - M[0]
            full = [x - dx for x in M] + [M[-1] + dx]
            sig = "xmid2edges steps a whole cell from the midpoints" if near_all(o.get("r"), full, 1e-9, S) else None
            ctx.fail("xmid2edges does not invert xedges2mid", c, E, o, sig=sig)


def G02(ctx):
    recs = ctx.tlc("Grids")
    axes = [r for r in recs if r["kind"] == "axis"]
    rings = [r for r in recs if r["kind"] == "rings"]
    counts = [r for r in recs if r["kind"] == "count"]
    ctx.sample(rings[0])
    calls, plan = [], []

    def add(fn, args, kw, want, scale=1.0, what="wrong numbers"):
        calls.append({"fn": "grids." + fn, "args": args, "kw": kw})
        plan.append((what, want, scale))
    # a radial and an angular axis: the angular one in units of pi
    rad = [r for r in axes if fr(r["ax"]["min"]) >= 0]
    for k, r in enumerate(rad):
        for p in ctx.rng.sample(axes, 3):
            L, m, n = float(fr(r["ax"]["len"])), float(fr(r["ax"]["min"])), r["ax"]["n"]
            w, a, q = float(fr(p["ax"]["len"])), float(fr(p["ax"]["min"])), p["ax"]["n"]
            if n*q > 100000:
                continue
            u = ctx.rng.choice(UNITS)
            L, m = L*u, m*u
            R, P = [x*u for x in nums(r["mids"])], [PI*x for x in nums(p["mids"])]
            X = product([R, P])
            kw = {"rmin": m, "rmax": m + L, "phimin": a*PI, "phimax": (a + w)*PI}
            add("polargrid", [n, q], kw, X, [L + m, 350])
            add("polargrid", [n, q], dict(kw, return1d=True), X + [R, P], [L + m, 350]*2)
        n = r["ax"]["n"]
        if fr(r["ax"]["len"]) == 1 and fr(r["ax"]["min"]) == 0:
            for q in (1, 4, 5):
                X = product([nums(r["mids"]), [TAU*(j + .5)/q for j in range(q)]])
                add("polargrid", [n, q], {}, X, 7)
    for r in rings:
        ax = r["ax"]
        R, base, nr = float(fr(ax["rmax"])), ax["base"], ax["nr"]
        u = ctx.rng.choice(UNITS)
        R *= u
        for kw in [{"rmax": R, "base_nphi": base}] + ([{"rmax": R}] if base == 4 else []) \
                + ([{"base_nphi": base}] if R == 1 else []):
            add("polarEA_grid", [nr], kw, [[x*u for x in nums(r["r"])], [PI*x for x in nums(r["p"])]], [R, 7])
            add("polarEA_area", [nr], kw, PI*float(fr(r["area"]))*u*u, R*R)
            add("polarEA_npix", [nr], {k: v for k, v in kw.items() if k != "rmax"}, r["n"])
    for r in counts:
        add("polarEA_npix", [r["nr"]], {"base_nphi": r["base"]}, r["n"], 0.1)
    expect(ctx, calls, plan, 1e-12)


AXES = {  # names of the edges, midpoints, widths and coordinates of the cells
    "box2": [("xedges", "xmid", "dx", "x2d"), ("yedges", "ymid", "dy", "y2d")],
    "box3": [("xedges", "xmid", "dx", "x3d"), ("yedges", "ymid", "dy", "y3d"), ("zedges", "zmid", "dz", "z3d")],
    "ring": [("redges", "rmid", "dr", "r2d"), ("pedges", "pmid", "dp", "p2d")],
    "shell": [("redges", "rmid", "dr", None)],
    "cap": [("alpha_edges", "alpha_mid", "dalpha", "alpha2d"), ("beta_edges", "beta_mid", "dbeta", "beta2d")],
}
AXES.update(logring=AXES["ring"], logshell=AXES["shell"], sky=AXES["box2"], view=AXES["box2"])
MAPS = ["densegrid.Heal2Ring", "montecarlo.Heal2Ring", "densegrid.Heal2Polar", "montecarlo.Heal2Polar", "densegrid.Heal2Ortho"]
METHODS = {
    "box2": [("densegrid.Box2Ring", "setup_box"), ("montecarlo.Box2Ring", "setup_box")],
    "box3": [("densegrid.Cube2Shell", "setup_cube"), ("montecarlo.Cube2Shell", "setup_cube")],
    "ring": [("densegrid.Box2Ring", "setup_polar"), ("montecarlo.Box2Ring", "setup_polar_lin")],
    "logring": [("montecarlo.Box2Ring", "setup_polar_log")],
    "shell": [("densegrid.Cube2Shell", "setup_polar"), ("montecarlo.Cube2Shell", "setup_polar_lin")],
    "logshell": [("montecarlo.Cube2Shell", "setup_polar_log")],
    "cap": [("densegrid.Heal2Ring", "setup_polar_cap"), ("montecarlo.Heal2Ring", "setup_polar_cap")],
    "sky": [("densegrid.Heal2Polar", "setup_box"), ("montecarlo.Heal2Polar", "setup_box")],
    "view": [("densegrid.Heal2Ortho", "setup_box")],
    "map": [(k, "setup_map") for k in MAPS],
    "fine": [("densegrid.Cube2Shell", "setup_polar")],
}
FIRST = {  # a setup of every sort to start from
    "setup_box": [-1., 4., 3, 2., 3., 4], "setup_cube": [-1., 4., 3, 2., 3., 4, 0., 1., 2], "setup_polar_cap": [.2, 1.5, 3, 5], "setup_map": [2],
}


def setup_call(rng, cls, meth, r, u=1.):
    """The setup asked for, as a step of drivers/objects.py, and what else it should publish."""
    a, kind, kw, also = r["asked"], r["kind"], {}, {}

    def ends(x, unit=None):
        unit = u if unit is None else unit
        return [float(fr(x["lo"]))*unit, float(fr(x["hi"]))*unit, x["n"]]

    def log(x):
        lo, q = fr(x["lo"]), fr(x["ratio"])
        top = 2. if x["n"] <= 0 or lo <= 0 else float(lo*q**(x["n"] - (1 if x["zero"] else 0)))
        if not x["zero"] or rng.random() < .5:
            kw["addzero"] = x["zero"]
        return [float(lo)*u, top*u, x["n"]]

    def turn(x):
        if fr(x["lo"]) or rng.random() < .5:
            kw["beta_min" if kind == "cap" else "pmin"] = float(fr(x["lo"]))*PI
        if fr(x["hi"]) != 2 or rng.random() < .5:
            kw["beta_max" if kind == "cap" else "pmax"] = float(fr(x["hi"]))*PI
        return [x["n"]]
    if kind in ("box2", "box3"):
        args = [v for x in a for v in ends(x)]
    elif kind == "ring":
        args = ends(a[0]) + turn(a[1])
    elif kind == "logring":
        args = log(a[0]) + turn(a[1])
    elif kind == "cap":
        args = ends(a[0], PI) + turn(a[1])
    elif kind in ("shell", "logshell"):
        args = (ends if kind == "shell" else log)(a[0]) + [1 + rng.randrange(3)]
        also["nside"] = args[-1]
    elif kind == "map":
        args, also = [a[0]], {"nside": a[0]}
    elif kind == "fine":
        args, also = [.5, 1.5, 2, a[0]], {"nside": a[0], "rebin_shell": a[1], "rebin_r": a[2]}
        kw.update(rebin_shell=a[1], rebin_r=a[2])
    else:
        unit = PI if kind == "sky" else u
        (l, n), (yl, yn) = a[:2]
        args = [float(fr(l))*unit, n]
        like = fr(yl) == 99
        if not like:
            kw["y_length"] = float(fr(yl))*unit
        if not (like and yn == 0):
            kw["y_grid"] = yn
        if kind == "view" and (fr(a[2]) != 1 or u != 1 or rng.random() < .5):
            kw["radius"] = float(fr(a[2]))*u
        if kind == "view":
            also["radius"] = float(fr(a[2]))*u
    if r["center"]:
        kw["center"] = [.5, 1.25, 2., .75][:r["center"]]
    if kind not in ("map", "fine", "box2", "box3"):
        also["center"] = kw.get("center", [0.]*(3 if "shell" in kind else 2))
    if kind in ("ring", "logring", "cap", "sky") and rng.random() < .5:
        name = {"cap": "beta_shift", "sky": "alpha"}.get(kind, "phi_shift")
        also[name] = kw[name] = .5
    if cls.startswith("densegrid") and kind in ("ring", "cap", "sky", "view") and rng.random() < .5:
        for k, name in enumerate({"ring": ("rebin_r", "rebin_p"), "cap": ("rebin_alpha", "rebin_beta")}.get(kind, ("rebin_x", "rebin_y"))):
            also[name] = kw[name] = 1 + 2*k
    return {"m": meth, "args": args, "kw": kw}, also


def G03(ctx):
    rng = ctx.rng

    def axis(lo, hi, d, m=6):
        x, y = sorted(rng.sample(range(lo, hi), 2))
        return {"lo": rat_norm(x, d), "hi": rat_norm(y, d), "n": 1 + rng.randrange(m)}
    n = ctx.pick(2, 6)
    more = {"boxes": [axis(-20, 20, 8) for _ in range(n)], "radii": [axis(0, 30, 8) for _ in range(n)], "colats": [axis(0, 25, 24) for _ in range(n)],
            "turns": [axis(0, 31, 15) for _ in range(n)],
            "logs": [{"lo": rat_norm(rng.randrange(1, 9), 4), "ratio": rat_norm(rng.randrange(9, 20), 8), "n": 2 + rng.randrange(3), "zero": rng.random() < .5} for _ in range(n)],
            "long": ctx.pick(120, 400), "fine": ctx.pick(110, 180) + rng.randrange(10),
            "lengths": [[rat_norm(rng.randrange(1, 30), 16), 1 + rng.randrange(5)] for _ in range(n)]}
    recs = ctx.tlc("Setups", [more])
    recs.sort(key=repr)
    ctx.sample({k: recs[0][k] for k in ("kind", "asked", "refused")})
    plan, cases = [], {}
    for r in recs:
        for cls, meth in METHODS[r["kind"]]:
            u = 1. if r["kind"] in ("cap", "sky", "map", "fine") or rng.random() < .6 else rng.choice((2.**-40, 2.**-12, 2.**30))
            call, also = setup_call(rng, cls, meth, r, u)
            axes = AXES.get(r["kind"], [])
            names = [x for ax in axes for x in ax if x] + sorted(also) + (["onsphere", "z2d"] if r["kind"] == "view" else [])
            first = FIRST.get(meth, [.5, 2., 3, 2] if "Shell" in cls else [.5, 2., 3, 4])
            if cls[-9:] == "Heal2Ortho" or cls[-10:] == "Heal2Polar":
                first = [1., 3] if meth == "setup_box" else first
            source = {"m": "setup_map", "args": [1]} if "Heal" in cls else {"m": "setup_cube", "args": FIRST["setup_cube"]} if "Shell" in cls else None
            steps = ([source] if source else []) + [{"m": meth, "args": first}, {"gets": names}, call, {"gets": names}]
            cases.setdefault(cls, []).append(steps)
            plan.append((r, cls, call, also, names, u))
    # many setups in the life of one object
    todo, where = [], {}
    for cls, ss in cases.items():
        for b in range(0, len(ss), 20):
            todo.append({"cls": cls, "steps": [x for s in ss[b:b + 20] for x in [{"new": 1}] + s]})
            where.setdefault(cls, []).append((len(todo) - 1, [len(s) + 1 for s in ss[b:b + 20]]))
    outs = ctx.drive("objects", todo, jobs=8)
    ctx.validated += len(plan) - len(todo)
    answers = {}
    for cls, parts in where.items():
        answers[cls] = []
        for k, sizes in parts:
            o, at = outs[k], 0
            for m in sizes:
                answers[cls].append(o["ok"][at:at + m] if "ok" in o else [o]*m)
                at += m
        answers[cls] = iter(answers[cls])
    for r, cls, call, also, names, u in plan:
        o = next(answers[cls])
        what = None
        before, done, after = o[-3], o[-2], o[-1]
        if "exc" in before or "exc" in after:
            what, want, got = "does not publish its grid", names, [before, after]
        elif r["refused"]:
            want, got = before["r"], after["r"]
            if "exc" not in done:
                what = "accepts a setup it should refuse"
            elif repr(before["r"]) != repr(after["r"]):
                what = "changes its grid in a refused setup"
        elif "exc" in done:
            what, want, got = "refuses a sound setup", None, done
        else:
            unit = {"sky": (PI, PI), "cap": (PI, PI), "ring": (u, PI), "logring": (u, PI)}.get(r["kind"], (u, u, u))
            g, have = r["grid"], dict(zip(names, after["r"]))

            def floats(v, u):
                return [floats(x, u) for x in v] if not (len(v) == 2 and isinstance(v[0], int)) else float(fr(v))*u
            for ax, (d, w1) in zip(AXES.get(r["kind"], []), enumerate(unit)):
                w = floats(g["widths"][d], w1)
                want = {ax[0]: floats(g["edges"][d], w1), ax[1]: floats(g["mids"][d], w1), ax[2]: w if r["kind"][:3] == "log" and d == 0 else w[0]}
                if ax[3]:
                    want[ax[3]] = floats(g["mesh"][d], w1)
                for k, v in want.items():
                    log = r["kind"][:3] == "log" and d == 0       # every radius to its own precision
                    if not (close(have[k], v) if log else near_all(have[k], v, 1e-12, 10.*w1)):
                        what, want, got = "publishes a wrong " + k, v, have[k]
                        break
                if what:
                    break
            for k, v in also.items():
                if not what and not near_all(have[k], v, 0.):
                    what, want, got = "publishes a wrong " + k, v, have[k]
            if r["kind"] == "view" and not what:
                for row, on, z in zip(g["up"], have["onsphere"], have["z2d"]):
                    for h, b, v in zip(row, on, z):
                        h = fr(h)
                        if h and not (near(b, 1.) and near(v, math.sqrt(h)*u, 1e-9, u) if h > 0 else near(b, None)):
                            what, want, got = "is wrong about what is on the sphere", float(h), [b, v]
        if what:
            ctx.fail("%s %s" % (cls, what), {"setup": call}, want, got)
        else:
            ctx.seen(cls, call["m"], call["args"], sorted(call["kw"].items()))


def close(o, e):
    if isinstance(e, list):
        return isinstance(o, list) and len(o) == len(e) and all(close(a, b) for a, b in zip(o, e))
    return isnum(o) and abs(o - e) <= 1e-11*abs(e)


def rat_norm(a, b):
    f = Fraction(a, b)
    return [f.numerator, f.denominator]


def edge_points(edge, n, scale=1.0, shift=(0, 0, 0)):
    """n evenly spaced points of an edge, in both directions."""
    a, b = [[x*scale + s for x, s in zip(p, shift)] for p in sorted(edge)]
    fwd = [[a[d] + (b[d] - a[d])*k/(n - 1) for k in range(n)] for d in range(3)]
    return fwd, [c[::-1] for c in fwd]


def scaled(ctr, u):
    return [x*u for x in ctr] if isinstance(ctr, list) else {k: [x*u for x in v] for k, v in ctr.items()}


def same_edges(got, edges, n, scale, shift):
    """got: the x, y and z arrays, one row per edge; each edge once, in any order."""
    if not (isinstance(got, list) and len(got) == 3 and all(isinstance(g, list) and len(g) == len(edges) for g in got)):
        return False
    left = [edge_points(e, n, scale, shift) for e in edges]
    for q in range(len(edges)):
        mine = [got[d][q] for d in range(3)]
        for k, (u, v) in enumerate(left):
            if near_all(mine, u, 1e-9, 50*scale) or near_all(mine, v, 1e-9, 50*scale):
                del left[k]
                break
        else:
            return False
    return not left


def P05(ctx):
    recs = ctx.tlc("Shapes")
    rng = ctx.rng
    rects = [r for r in recs if r["kind"] == "rect"]
    arcs = [r for r in recs if r["kind"] == "arc"]
    boxes = [r for r in recs if r["kind"] == "box"]
    ctx.sample(rects[0])
    calls, plan = [], []

    def add(fn, args, kw, want, scale):
        calls.append({"fn": "pixel." + fn, "args": args, "kw": kw})
        plan.append(("wrong points", want, scale))
    centres = [None, [1.5, -2.0], {"f": [-3.0, 0.25]}, {"t": [1000.0, 2.0]}]

    def turn(rs, ps, ctr):
        cx, cy = (0, 0) if ctr is None else list(ctr.values())[0] if isinstance(ctr, dict) else ctr
        return [[cx + a*math.cos(b) for a, b in zip(rs, ps)], [cy + a*math.sin(b) for a, b in zip(rs, ps)]]
    for r in rects:
        (x0, y0), (x1, y1) = nums(r["c"]["lo"]), nums(r["c"]["hi"])
        n = 4*r["c"]["n"]
        X, Y = nums([q[0] for q in r["path"]]), nums([q[1] for q in r["path"]])
        u = rng.choice(UNITS)
        X, x0, x1 = [v*u for v in X], x0*u, x1*u
        for kw in [{"steps": n}] + ([{}] if n == 40 else []):
            add("get_square", [x0, x1, y0, y1], kw, [X, Y], [5*u, 5])
            A = [PI*y for y in Y]
            for ctr in centres:
                k = dict(kw, rmin=x0, rmax=x1, phimin=y0*PI, phimax=y1*PI)
                ctr = ctr and scaled(ctr, u)
                if ctr is not None:
                    k["center"] = ctr
                if x0 == 0 and rng.random() < .5:
                    del k["rmin"]
                if (y0, y1) == (0, 2):
                    del k["phimin"], k["phimax"]
                add("get_disc", [], k, turn(X, A, ctr), (1000 if ctr else 5)*u)
    for r in arcs:
        A = [PI*x for x in nums(r["path"])]
        a, b, n = float(fr(r["c"]["lo"])), float(fr(r["c"]["hi"])), r["c"]["n"]
        for ctr in centres:
            u = rng.choice(UNITS)
            ctr = ctr and scaled(ctr, u)
            R = rng.choice((1.0, 2.5, 0.01))*u
            kw = {"phimin": a*PI, "phimax": b*PI, "steps": n}
            if (a, b) == (0, 2):
                del kw["phimin"], kw["phimax"]
            if n == 10:
                del kw["steps"]
            if ctr is not None:
                kw["center"] = ctr
            add("get_arc", [R], kw, turn([R]*n, A, ctr), 1000*u if ctr else R)
    expect(ctx, calls, plan, 1e-12)
    # boxes
    calls, plan = [], []
    whole = {}
    for r in boxes:
        whole.setdefault(repr(r["c"]["b"]), []).append(r)
    for rs in whole.values():
        for n in ((24, 36, 120) if not ctx.thorough else (24, 36, 48, 120, 240)):
            for scale, shift in ((1.0, (0, 0, 0)), (0.125, (2.0, -1.0, 0.5)), (2.0**-40, (0, 0, 0)), (2.0**30, (0, 0, 0))):
                if scale not in (1.0, 0.125) and n != 24:
                    continue
                for r in [rs[0]] + rs[::1 if n == 120 else 5]:
                    b, v = r["c"]["b"], r["c"]["v"]
                    args = []
                    for d in range(3):
                        args += [b["lo"][d]*scale + shift[d], b["hi"][d]*scale + shift[d]]
                    kw = {} if n == 120 else {"steps": n}
                    edges = r["edges"]
                    if r is not rs[0]:
                        kw["return_nearest"] = True
                        if any(v) or shift != (0, 0, 0):
                            kw["center"] = [x*scale + s for x, s in zip(v, shift)]
                        edges = r["kept"]
                    calls.append({"fn": "pixel.get_box", "args": args, "kw": kw})
                    plan.append((edges, n // 12, scale, shift))
    for c, (edges, n, scale, shift), o in zip(calls, plan, ctx.calls(calls)):
        if "exc" in o or not same_edges(o["r"], edges, n, scale, shift):
            ctx.fail("get_box draws other edges", c, sorted(edges), o)
        else:
            ctx.seen("box", c["args"], c["kw"])
    # steps that must be refused
    calls = [{"fn": "pixel." + f, "args": a, "kw": {"steps": s}}
             for f, a in (("get_square", [0., 1., 0., 1.]), ("get_disc", []), ("get_box", [0., 1., 0., 1., 0., 1.]))
             for s in (0, -12, 6, 10, 11, 1, 13, 25) + ((8, 16, 28) if f == "get_box" else (-4,))]
    for c, o in zip(calls, ctx.calls(calls)):
        if "exc" not in o:
            ctx.fail("an unusable number of steps is accepted", c, "an error", o)
