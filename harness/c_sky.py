"""Remapping HEALPix maps: properties D03, D04, D05, E03, E04."""
import math
from core import near, near_all, isnum, shape, fold, flat
from c_view import TRIPLES
from c_box import UNITS, judge_ratio, relations, brief, scaled, table, unscaled, Shares

PI = math.pi
STEP = PI/720


def npix(n):
    return 12*n*n


def angle(k):
    return 2*PI if k == 1440 else PI if k == 720 else k*STEP


def axis(rng, span, cells, sub, start=None):
    """<<start, half a subcell, cells, subcells per cell>> within a span of steps."""
    most = span//(2*cells*sub)
    h = most if rng.random() < .4 else rng.randint(max(1, most//6), max(1, most))
    if start is None:
        start = rng.choice((0, rng.randint(0, span - 2*h*cells*sub)))
    return [start, h, cells, sub]


def centre(rng):
    r = rng.random()
    if r < .12:
        return [0, 0]
    if r < .2:
        return [rng.randint(0, 1440), rng.choice((0, 720))]
    if r < .3:
        return [rng.choice((0, 360, 720, 1080, 1440)), 360]
    return [rng.randint(0, 1440), rng.randint(0, 720)]


def fields(rng, n):
    f = [rng.randint(-40, 60) for _ in range(n)]
    w = [rng.choice((0, 1, 1, 2, 3)) for _ in range(n)]
    return f, w, [f, [a*b for a, b in zip(f, w)], w]


def case(rng, kind, fine=None, few=False, large=False):
    nside = rng.choice((1, 1, 2, 3) if fine else (1, 2, 3, 4, 5, 8))
    c = {"kind": kind, "nside": nside, "centre": centre(rng), "spin": 0 if rng.random() < .4 else rng.choice((rng.randint(1, 1440), rng.choice((360, 720, 720, 1080, 1440)), rng.randint(1, 8), 1440 - rng.randint(1, 8)))}
    rr, rc = (fine, fine) if fine else (rng.randint(1, 4), rng.randint(1, 4))
    nr, nc = rng.choice(((1, 1), (1, 2), (2, 1))) if few else (rng.randint(1, 4), rng.randint(1, 4))
    if large:
        c["nside"], nr, nc, rr, rc = rng.choice(((32, 2, 3, 2, 2), (1, 60, 2, 2, 2), (16, 3, 45, 1, 3), (2, 1, 2, 16, 12), (7, 25, 25, 1, 1)))
    if kind == "ring":
        full = rng.random() < .5 and 720 % (nr*rr) == 0
        c["rows"] = [0, 720//(nr*rr), nr, rr] if full else axis(rng, 1440, nr, rr)
        c["cols"] = axis(rng, rng.choice((360, 720) if large else (90, 200, 360, 720)) if not fine else rng.choice((200, 360, 720)[:4 - c["nside"]]), nc, rc)
    elif kind == "box":
        if rng.random() < .4:
            # a square box given by one side only
            nr, rr = nc, rc
        c["cols"] = axis(rng, rng.choice((360, 720, 1440) if not fine or c["nside"] == 1 else (200, 360)), nc, rc, 0)
        c["rows"] = axis(rng, rng.choice((360, 720) if not fine or c["nside"] == 1 else (200, 360)), nr, rr, 0)
        if nr == nc and rr == rc and c["cols"][1]*2*nc*rc <= 720:
            c["rows"] = list(c["cols"])
            c["square"] = True
        for k in ("rows", "cols"):
            c[k][0] = -c[k][1]*c[k][2]*c[k][3]
    else:
        c["spin"] = 0
        c["radius"] = rng.randint(150, 1000)
        reach = rng.choice((c["radius"]//3, c["radius"], int(c["radius"]*1.3)))
        if rng.random() < .4:
            nr, rr = nc, rc
        hx, hy = max(1, reach//(nc*rc)), max(1, rng.choice((reach, reach//2))//(nr*rr))
        if nr == nc and rr == rc and rng.random() < .5:
            hy = hx
            c["square"] = True
        c["cols"], c["rows"] = [-hx*nc*rc, hx, nc, rc], [-hy*nr*rr, hy, nr, rr]
        c["scale"] = rng.choice((1/c["radius"], 1/64, 1/1024, 1e-19, 1e12))
    c["f"], c["w"], c["fields"] = fields(rng, npix(c["nside"]))
    c["vu"], c["wu"] = rng.choice(UNITS), rng.choice(UNITS)
    if fine:
        c["fields"] = []
    return c


def setup(c, rng, mc):
    ax, ay = c["cols"], c["rows"]
    ctr = [angle(v) for v in c["centre"]]
    if c["kind"] == "ring":
        kw = {"beta_min": angle(ay[0]), "beta_max": angle(ay[0] + 2*ay[1]*ay[2]*ay[3]), "center": ctr, "beta_shift": angle(c["spin"])}
        if not mc:
            kw.update(rebin_alpha=ax[3], rebin_beta=ay[3])
        std = {"beta_min": 0., "beta_max": 2*PI, "center": [0., 0.], "beta_shift": 0., "rebin_alpha": 2, "rebin_beta": 2}
        step = {"m": "setup_polar_cap", "args": [angle(ax[0]), angle(ax[0] + 2*ax[1]*ax[2]*ax[3]), ax[2], ay[2]], "kw": kw}
    elif c["kind"] == "box":
        kw = {"center": ctr, "alpha": angle(c["spin"]), "y_length": angle(2*ay[1]*ay[2]*ay[3]), "y_grid": ay[2]}
        if not mc:
            kw.update(rebin_x=ax[3], rebin_y=ay[3])
        std = {"center": [0., 0.], "alpha": 0., "rebin_x": 2, "rebin_y": 2}
        wide = 2*ax[1]*ax[2]*ax[3]
        if c.get("square") or wide > 720 and 2*ay[1]*ay[2]*ay[3] == 720:
            std["y_length"] = kw["y_length"]
        if ay[2] == ax[2]:
            std["y_grid"] = ay[2]
        step = {"m": "setup_box", "args": [angle(wide), ax[2]], "kw": kw}
    else:
        s = c["scale"]
        kw = {"center": ctr, "y_length": 2*ay[1]*ay[2]*ay[3]*s, "y_grid": ay[2], "rebin_x": ax[3], "rebin_y": ay[3], "radius": c["radius"]*s}
        std = {"center": [0., 0.], "rebin_x": 2, "rebin_y": 2, "radius": 1.}
        if c.get("square"):
            std["y_length"] = kw["y_length"]
        if ay[2] == ax[2]:
            std["y_grid"] = ay[2]
        step = {"m": "setup_box", "args": [2*ax[1]*ax[2]*ax[3]*s, ax[2]], "kw": kw}
    for q in list(kw):
        if q in std and kw[q] == std[q] and rng.random() < .7:
            del kw[q]
    return [{"m": "setup_map", "args": [c["nside"]]}, step]


CLASS = {"ring": "Heal2Ring", "box": "Heal2Polar", "ortho": "Heal2Ortho"}


def dense(ctx, kind, count):
    rng = ctx.rng
    cs = [case(rng, kind, large=q % 15 == 4) for q in range(count)]
    tab = []
    for b in range(0, len(cs), 150):
        tab += table(ctx.tlc("SkyMap", cs[b:b + 150], workers=8), cs[b:b + 150])
    name = CLASS[kind]
    runs = []
    for c in cs:
        v = {"verbose": rng.random() < .5} if rng.random() < .5 else {}
        f, w = {"f": scaled(c["f"], c["vu"])}, {"f": scaled(c["w"], c["wu"])}
        runs.append({"cls": "densegrid." + name, "steps": setup(c, rng, False) + [
            {"m": "remap", "args": [f], "kw": v}, {"m": "remap", "args": [f], "kw": {"w": w, **v}}]})
        if kind != "ortho":
            runs[-1]["steps"].append({"m": "remap", "args": [{"f": [3.25*c["vu"]]*len(c["f"])}]})
    for c, t, run, o in zip(cs, tab, runs, ctx.drive("objects", runs)):
        nr, nc = c["rows"][2], c["cols"][2]
        told = {k: v for k, v in c.items() if k not in ("fields", "f", "w")}
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail(name + " fails", {"case": told, "steps": run["steps"][:2]}, None, o if "ok" not in o else [x for x in o["ok"] if "exc" in x][0])
            continue
        res = [x["r"] for x in o["ok"][2:]]
        if not all(shape(x) == [nr, nc] for x in res):
            ctx.fail(name + " gives arrays of a wrong shape", told, [nr, nc], [shape(x) for x in res])
            continue
        res = [unscaled(x, c["vu"]) for x in res]
        bad = None
        n = c["rows"][3]*c["cols"][3]
        err = 0. if kind == "ortho" else .6*n
        fmax, wmax = max(abs(x) for x in c["f"]), max(c["w"])
        for a in range(nr):
            for b in range(nc):
                r = t[a][b]
                if r["seen"] == 2 or kind == "ortho" and r["total"] == 0:
                    continue
                if r["seen"] == 0:
                    if not all(isinstance(x[a][b], float) and math.isnan(x[a][b]) for x in res[:2]):
                        bad = "a pixel off the sphere has a value", [a, b], "NaN", [x[a][b] for x in res]
                    continue
                if not judge_ratio(res[0][a][b], r["out"][0], [r["total"]]*2, None, err*fmax, err):
                    bad = "remap is wrong", [a, b], [r["out"][0], r["total"]], res[0][a][b]
                elif not judge_ratio(res[1][a][b], r["out"][1], r["out"][2], None, err*fmax*wmax, err*wmax):
                    bad = "the weighted remap is wrong", [a, b], r["out"][1:], res[1][a][b]
                elif kind != "ortho" and not near(res[2][a][b], 3.25):
                    bad = "a constant map changes", [a, b], 3.25, res[2][a][b]
        if bad:
            ctx.fail("%s: %s" % (name, bad[0]), {"case": told, "cell": bad[1], "steps": run["steps"][:2]}, bad[2], bad[3])
        else:
            ctx.seen(told)
    ctx.sample({"case": {k: v for k, v in cs[0].items() if k not in ("fields", "f", "w")}, "cell": tab[0][0][0]})
    ctx.notes["undecided_subcells"] = sum(r["doubt"] for t in tab for row in t for r in row)
    ctx.notes["subcells"] = sum(c["rows"][2]*c["rows"][3]*c["cols"][2]*c["cols"][3] for c in cs)
    return cs


def lookup(ctx):
    """The specification's fixed-point trigonometry and pixel lookup satisfy their theorems."""
    ctx.tlc("FixThm")
    ctx.tlc("HealLookThm")


def D03(ctx):
    lookup(ctx)
    dense(ctx, "ring", ctx.pick(150, 1500))


def D04(ctx):
    lookup(ctx)
    dense(ctx, "box", ctx.pick(150, 1500))


def direction(rng, most=13):
    c, s, h = rng.choice([t for t in TRIPLES if t[2] <= most])
    return [c*rng.choice((1, -1)), s*rng.choice((1, -1)), h]


def turn(a):
    """The angle of <<cosine, sine, denominator>>, in [0, 2 pi)."""
    return math.atan2(a[1], a[0]) % (2*PI)


def plus(a, b):
    """The sum of two directions <<cosine, sine, size>>."""
    return [a[0]*b[0] - a[1]*b[1], a[0]*b[1] + a[1]*b[0], a[2]*b[2]]


def limb(rng):
    """A place to look at, and places just before and just behind the limb."""
    axes = ([1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1])
    at = [list(rng.choice(axes)), list(rng.choice(([0, 1, 1], [0, 1, 1], [1, 0, 1], [3, 4, 5], [-3, 4, 5], [4, 3, 5])))]
    spots = []
    for _ in range(5):
        n = round(math.exp(rng.uniform(math.log(50), math.log(3000 if at[1][2] > 1 else 30000))))
        tiny = [n*n - 1, rng.choice((1, -1))*2*n, n*n + 1]
        if at[1] == [0, 1, 1] and rng.random() < .5:
            spots.append((plus(plus(at[0], rng.choice(([0, 1, 1], [0, -1, 1]))), tiny), [0, 1, 1]))
        else:
            lon, col = at[0], plus(plus(at[1], [0, 1, 1]), tiny)
            if col[1] < 0:          # past the pole: down the other side
                lon, col = [-lon[0], -lon[1], lon[2]], [col[0], -col[1], col[2]]
            spots.append((lon, col))
    return at, spots


def transform(ctx, count):
    """Heal2Ortho.transform against the exact view of OrthoView."""
    rng = ctx.rng
    cases, groups = [], []
    for _ in range(count):
        at = [direction(rng), direction(rng)]
        at[1][1] = abs(at[1][1])
        if rng.random() < .15:
            at = [[1, 0, 1], [1, 0, 1]]
        ids = []
        for n in range(rng.choice((1, 2, 6, 12))):
            lon, col = direction(rng), direction(rng)
            col[1] = abs(col[1])
            if n == 0 and rng.random() < .3:
                lon, col = at
            elif rng.random() < .15:
                col = [rng.choice((1, -1)), 0, 1]
            ids.append(len(cases))
            cases.append({"at": at, "lon": lon, "col": col})
        groups.append((at, ids))
    for _ in range(count//5):
        at, spots = limb(rng)
        ids = list(range(len(cases), len(cases) + len(spots)))
        cases += [{"at": at, "lon": lon, "col": col} for lon, col in spots]
        groups.append((at, ids))
    want = ctx.oracle("OrthoView", cases)
    runs = []
    for at, ids in groups:
        R = rng.choice((1., 1., .02, 6.5, 1e-18, 1e13))
        ctr = [turn(v) for v in at]
        kw = {} if ctr == [0., 0.] and rng.random() < .7 else {"center": ctr}
        if R != 1. or rng.random() < .3:
            kw["radius"] = R
        steps = []
        if rng.random() < .3:
            steps += [{"m": "setup_map", "args": [2]}, {"m": "setup_box", "args": [1., 3], "kw": {"center": [2., 1.], "radius": 3.}}]
        steps += [{"m": "setup_map", "args": [1]}, {"m": "setup_box", "args": [rng.choice((.5, 2., 3.))*R, rng.randint(1, 4)], "kw": kw}]
        plan = []
        pos = [[turn(cases[k]["lon"]) for k in ids], [turn(cases[k]["col"]) for k in ids]]
        pos[0] = [2*PI if x == 0. and rng.random() < .3 else x for x in pos[0]]
        ans = [(want[k]["side"], R*want[k]["at"][0]/want[k]["den"], R*want[k]["at"][1]/want[k]["den"]) for k in ids]
        if rng.random() < .8:
            shp = [len(ids)]
            steps.append({"m": "transform", "args": [{"f": fold(v, shp)} for v in pos]})
            plan.append((len(steps) - 1, ans, shp))
        for k in range(len(ids)):
            if rng.random() < .5:
                steps.append({"m": "transform", "args": [{"np": v[k]} if rng.random() < .2 else v[k] for v in pos]})
                plan.append((len(steps) - 1, [ans[k]], []))
        runs.append((steps, plan, R))
    for (steps, plan, R), o in zip(runs, ctx.drive("objects", [{"cls": "densegrid.Heal2Ortho", "steps": r[0]} for r in runs])):
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail("Heal2Ortho.transform fails", steps, None, o if "ok" not in o else [x for x in o["ok"] if "exc" in x][0])
            continue
        told = [x for x in steps if x["m"] == "setup_box"][-1]
        for k, ans, shp in plan:
            r = o["ok"][k]["r"]
            told = {"setup": told if "m" in told else told["setup"], "args": steps[k]["args"]}
            if not (isinstance(r, list) and len(r) == 2 and all(shape(v) == shp for v in r)):
                ctx.fail("transform returns another shape", told, [2] + shp, r)
                break
            for x, y, (side, u, v) in zip(flat(r[0]), flat(r[1]), ans):
                hid = near(x, None) and near(y, None)
                if side < 0 and not hid or side >= 0 and not (near(x, u, 1e-9, R) and near(y, v, 1e-9, R) or side == 0 and hid):
                    ctx.fail("transform is wrong", told, "NaN" if side < 0 else [u, v], [x, y])
                    break
            else:
                ctx.seen("transform", told)
                continue
            break


def D05(ctx):
    lookup(ctx)
    transform(ctx, ctx.pick(300, 2500))
    dense(ctx, "ortho", ctx.pick(150, 1500))


# ---------------------------------------------------------------- Monte Carlo weights

def mc(ctx, kind, count, fine):
    rng = ctx.rng
    cs = [case(rng, kind, fine) for _ in range(count)] + [case(rng, kind, 3*fine, True) for _ in range(count//2)]
    size = [3000]*count + [20000]*(count//2)
    tab = []
    for b in range(0, len(cs), 40):
        tab += table(ctx.tlc("SkyMap", cs[b:b + 40], workers=8, heap="6g"), cs[b:b + 40])
    name = "Monte Carlo " + CLASS[kind]
    runs = []
    for c, n in zip(cs, size):
        v = {"verbose": False} if rng.random() < .8 else {}
        f, w, m = {"f": scaled(c["f"], c["vu"])}, {"f": scaled(c["w"], c["wu"])}, len(c["f"])
        steps = setup(c, rng, True)
        if rng.random() < .5:
            steps.reverse()
        steps += [{"m": "get_weights", "kw": {"mc_size": n, **v}, "seed": rng.randrange(2**31), "quiet": 1},
                  {"m": "remap", "args": [f], "kw": v}, {"m": "remap", "args": [{"f": [-2.5*c["vu"]]*m}], "kw": v}, {"m": "remap", "args": [f], "kw": {"w": w, **v}}]
        for k in range(m):
            steps.append({"m": "remap", "args": [{"f": [c["vu"] if q == k else 0. for q in range(m)]}], "kw": {"verbose": False}})
        steps += [{"m": "remap", "args": [{"f": [1.]*(m + 1)}]}, {"m": "remap", "args": [f], "kw": {"w": {"f": [1.]*(m - 1)}}}]
        runs.append({"cls": "montecarlo." + CLASS[kind], "steps": steps})
    shares = Shares(ctx)
    for c, n, t, run, o in zip(cs, size, tab, runs, ctx.drive("objects", runs)):
        nr, nc, m = c["rows"][2], c["cols"][2], len(c["f"])
        told = {k: v for k, v in c.items() if k not in ("fields", "f", "w")}
        told["steps"] = run["steps"][:3]
        if "ok" not in o or any("exc" in x for x in o["ok"][:-2]):
            ctx.fail(name + " fails", told, None, o if "ok" not in o else [x for x in o["ok"] if "exc" in x][0])
            continue
        if any("exc" not in x for x in o["ok"][-2:]):
            ctx.fail(name + " accepts maps of another size", told, None, o["ok"][-2:])
        res = [x["r"] for x in o["ok"][:-2]]
        if not all(shape(x) == [nr, nc] for x in res[3:]):
            ctx.fail(name + " gives arrays of a wrong shape", told, [nr, nc], [shape(x) for x in res[3:]])
            continue
        res[3:] = [unscaled(x, c["vu"]) for x in res[3:]]
        src = list(range(m))
        for a in range(nr):
            for b in range(nc):
                hot = {k: res[6 + k][a][b] for k in src}
                cell = {"case": told, "cell": [a, b]}
                if any(not isnum(x) or not math.isfinite(x) for x in hot.values()):
                    ctx.fail(name + ": a cell has no value", cell, None, list(hot.values())[:5])
                    continue
                bad = relations(hot, src, res[3][a][b], res[4][a][b], res[5][a][b], c["f"], c["w"], -2.5)
                if bad:
                    ctx.fail(name + ": " + bad, cell, None, [res[3][a][b], res[4][a][b], res[5][a][b]])
                shares.add(name, cell, n, t[a][b], src, hot)
    shares.judge()
    ctx.sample({"case": {k: v for k, v in cs[0].items() if k not in ("fields", "f", "w")}, "cell": tab[0][0][0]})


def E03(ctx):
    lookup(ctx)
    mc(ctx, "ring", ctx.pick(16, 100), ctx.pick(10, 16))


def E04(ctx):
    lookup(ctx)
    mc(ctx, "box", ctx.pick(16, 100), ctx.pick(10, 16))
