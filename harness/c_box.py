"""Remapping boxes onto polar grids: properties D01, E01, Q02."""
import math
from fractions import Fraction
from core import fr, rat, near, near_all, isnum, shape

PI = math.pi
STEP = PI/720


UNITS = (1., 1., 2.0**-60, 2.0**-25, 2.0**10, 2.0**50)


def box_case(rng, fine=None, full=None, large=False):
    """A box and a polar grid about a centre; fine: subcells per cell for quadrature."""
    nx, ny = rng.randint(1, 5), rng.randint(1, 5)
    dx, dy = rng.randint(60, 300), rng.randint(60, 300)
    if large:
        nx, ny = rng.choice(((40, 3), (2, 60), (25, 25), (300, 2), (1, 260)))
        dx, dy = rng.randint(300//nx, 900//nx), rng.randint(300//ny, 900//ny)
    x0, y0 = rng.randint(-800, 300), rng.randint(-800, 300)
    nr, np_ = rng.randint(1, 4), rng.randint(1, 5)
    rr, rp = (fine, fine) if fine else (rng.randint(1, 4), rng.randint(1, 4))
    if large:
        nr, np_, rr, rp = rng.choice(((30, 1, 2, 3), (2, 72, 2, 2), (12, 18, 1, 2), (1, 2, 12, 10), (3, 3, 2, 20)))
    full = rng.random() < .5 if full is None else full
    if full:
        while 720 % (np_*rp):
            np_ = rng.randint(1, 6)
            rp = rp if fine else rng.randint(1, 4)
        hp, p0 = 720//(np_*rp), 0
    else:
        hp = rng.randint(1, max(1, 1440//(2*np_*rp)))
        p0 = rng.choice((0, rng.randint(0, 1440 - 2*hp*np_*rp)))
        p0 = min(p0, 1439)
    h = rng.randint(2, max(3, 240//(nr*rr)))
    r0 = rng.choice((0, rng.randint(1, 200)))
    cx = x0 + rng.randint(-dx, (nx + 1)*dx)
    cy = y0 + rng.randint(-dy, (ny + 1)*dy)
    if rng.random() < .6:
        cx, cy = x0 + nx*dx//2 + rng.randint(-40, 40), y0 + ny*dy//2 + rng.randint(-40, 40)
    if rng.random() < .15:
        # everything about the origin, as the defaults have it
        x0, y0 = x0 - cx, y0 - cy
        cx = cy = 0
    spin = 0 if rng.random() < .4 else rng.choice((rng.randint(1, 1440), rng.randint(1, 6), -rng.randint(1, 1440)))
    f = [[rng.randint(-40, 60) for _ in range(nx)] for _ in range(ny)]
    w = [[rng.choice((0, 1, 1, 2, 3)) for _ in range(nx)] for _ in range(ny)]
    if fine and spin and rng.random() < .3:
        spin = 720
    fields = [] if fine else [f, [[a*b for a, b in zip(p, q)] for p, q in zip(f, w)], w]
    return {"x": [x0, dx, nx], "y": [y0, dy, ny], "centre": [cx, cy], "spin": spin, "rows": [p0, hp, np_, rp],
            "cols": [r0, h, nr, rr], "fields": fields, "f": f, "w": w,
            "scale": rng.choice((1., .25, .013, 3.7, 1e-3, 1e-17, 1e14)),
            "vu": rng.choice(UNITS), "wu": rng.choice(UNITS)}


def box_hair(rng):
    """Boundaries a hair beside the sample points whose place is known without error."""
    c = box_case(rng)
    c["cols"][1] = h = 2*rng.randint(100, 3750//(c["cols"][2]*c["cols"][3]))
    c["cols"][0] = rng.choice((0, 2*rng.randint(0, 2500)))
    c["centre"] = [rng.randint(-2000, 2000) for _ in range(2)]
    p0, hp, np_, rp = c["rows"]
    c["spin"] = 360*rng.randint(-3, 3) + rng.choice((0, 0, 120, -120)) - p0 - (2*rng.randrange(np_*rp) + 1)*hp
    for q in range(2):
        m = c["cols"][0] + (2*rng.randrange(c["cols"][2]*c["cols"][3]) + 1)*h
        off = rng.choice((0, 0, m, -m, m//2, -m//2))
        edge = c["centre"][q] + off + rng.choice((-2, -1, 1, 2))
        k, d = c["xy"[q]][2], rng.randint(2000, 8000)
        c["xy"[q]] = [edge - d*rng.choice([j for j in range(k + 1) if d*j <= 20000]), d, k]
    return c


def box_step(c):
    s = c["scale"]
    (x0, dx, nx), (y0, dy, ny) = c["x"], c["y"]
    return {"m": "setup_box", "args": [x0*s, (x0 + nx*dx)*s, nx, y0*s, (y0 + ny*dy)*s, ny]}


def polar_step(c, rng, mc=False):
    s = c["scale"]
    p0, hp, np_, rp = c["rows"]
    r0, h, nr, rr = c["cols"]
    kw = {"pmin": p0*STEP, "pmax": (p0 + 2*hp*np_*rp)*STEP, "center": [v*s for v in c["centre"]], "phi_shift": c["spin"]*STEP}
    if p0 + 2*hp*np_*rp == 1440:
        kw["pmax"] = 2*PI
    if not mc:
        kw.update(rebin_r=rr, rebin_p=rp)
    std = {"pmin": 0., "pmax": 2*PI, "center": [0., 0.], "phi_shift": 0., "rebin_r": 2, "rebin_p": 2}
    for q in list(kw):
        if kw[q] == std[q] and rng.random() < .6:
            del kw[q]
    return {"m": "setup_polar_lin" if mc else "setup_polar", "args": [r0*s, (r0 + 2*h*nr*rr)*s, nr, np_], "kw": kw}


def table(recs, cases):
    """Records of the specification as recs[case][row][col]."""
    out = [[[None]*c["cols"][2] for _ in range(c["rows"][2])] for c in cases]
    for r in recs:
        out[r["i"] - 1][r["row"] - 1][r["col"] - 1] = r
    return out


def scaled(t, unit):
    return [scaled(x, unit) for x in t] if isinstance(t, list) else t*unit


def field(f, unit=1.):
    return {"f": scaled(f, unit)}


def unscaled(t, unit):
    """An answer in the unit of its field; units are powers of two, so nothing is lost."""
    return [[x/unit if isnum(x) else x for x in row] for row in t]


def judge(got, lo, hi, total, slack=0.):
    """got*total within [lo, hi]"""
    tol = 1e-9*max(1., abs(lo), abs(hi), abs(total)) + slack
    return isnum(got) and math.isfinite(got) and lo - tol <= got*total <= hi + tol


def judge_ratio(got, num, den, total, tol_n=0., tol_d=0.):
    """got = num/den with both known within bounds."""
    if den[0] - tol_d <= 0:
        return True
    c = [n/d for n in (num[0] - tol_n, num[1] + tol_n) for d in (den[0] - tol_d, den[1] + tol_d)]
    return isnum(got) and min(c) - 1e-9*max(1, abs(min(c))) <= got <= max(c) + 1e-9*max(1, abs(max(c)))


def brief(c):
    return {k: v for k, v in c.items() if k not in ("fields",)}


def D01(ctx):
    rng = ctx.rng
    cs = [box_case(rng, large=q % 10 == 3) for q in range(ctx.pick(160, 1500))]
    cs += [box_hair(rng) for _ in range(ctx.pick(80, 800))]
    tab = []
    for b in range(0, len(cs), 200):
        tab += table(ctx.tlc("BoxMap", cs[b:b + 200], workers=6), cs[b:b + 200])
    runs = []
    for c in cs:
        v = {"verbose": rng.random() < .5} if rng.random() < .5 else {}
        setup = [box_step(c), polar_step(c, rng)]
        if rng.random() < .5:
            setup.reverse()
        runs.append({"cls": "densegrid.Box2Ring", "steps": setup + [
            {"m": "remap", "args": [field(c["f"], c["vu"])], "kw": v},
            {"m": "remap", "args": [field(c["f"], c["vu"])], "kw": {"w": field(c["w"], c["wu"]), **v}},
            {"m": "get_mask_in_bound", "kw": {"verbose": False}}, {"get": "mask_in_bound"}, {"get": "r2d"}, {"get": "p2d"}]})
    for c, t, run, o in zip(cs, tab, runs, ctx.drive("objects", runs)):
        np_, nr = c["rows"][2], c["cols"][2]
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail("Box2Ring fails", brief(c), None, o)
            continue
        plain, weighted, mask, r2d, p2d = [o["ok"][k]["r"] for k in (2, 3, 5, 6, 7)]
        if not all(shape(x) == [np_, nr] for x in (plain, weighted, mask, r2d, p2d)):
            ctx.fail("Box2Ring gives arrays of a wrong shape", brief(c), [np_, nr], [shape(x) for x in (plain, weighted, mask)])
            continue
        plain, weighted = unscaled(plain, c["vu"]), unscaled(weighted, c["vu"])
        bad = None
        for a in range(np_):
            for b in range(nr):
                r = t[a][b]
                rmid = (c["cols"][0] + (2*b + 1)*c["cols"][1]*c["cols"][3])*c["scale"]
                pmid = (c["rows"][0] + (2*a + 1)*c["rows"][1]*c["rows"][3])*STEP
                if not (near(r2d[a][b], rmid, 1e-12, rmid) and near(p2d[a][b], pmid, 1e-12, 7.)):
                    bad = "the cell centres are wrong", [a, b], [rmid, pmid], [r2d[a][b], p2d[a][b]]
                elif not judge(plain[a][b], *r["out"][0], r["total"]):
                    bad = "remap is wrong", [a, b], [r["out"][0], r["total"]], plain[a][b]
                elif not judge_ratio(weighted[a][b], r["out"][1], r["out"][2], r["total"]):
                    bad = "the weighted remap is wrong", [a, b], [r["out"][1:], r["total"]], weighted[a][b]
                elif not judge(mask[a][b], *r["ones"], r["total"]):
                    bad = "the mask in bounds is wrong", [a, b], [r["ones"], r["total"]], mask[a][b]
        if bad:
            ctx.fail("Box2Ring: " + bad[0], {"case": brief(c), "cell": bad[1]}, bad[2], bad[3])
        else:
            ctx.seen(c["x"], c["y"], c["centre"], c["rows"], c["cols"], c["spin"])
    ctx.sample({"case": brief(cs[0]), "cell": tab[0][0][0]})
    ctx.notes["undecided_subcells"] = sum(r["doubt"] for t in tab for row in t for r in row)
    ctx.notes["subcells"] = sum(c["rows"][2]*c["rows"][3]*c["cols"][2]*c["cols"][3] for c in cs)


# ---------------------------------------------------------------- Monte Carlo weights

class Shares:
    """Collects observed weights and lets the specification judge them."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, what, case, n, rec, sources, got):
        """got[source] is the observed weight of each source pixel."""
        known = {repr(s[0]): s[1:] for s in rec["shares"]}
        lin, hin = rec["ones"]
        if rec["sure"][1] == 0:
            if not all(got[s] is None or (isinstance(got[s], float) and math.isnan(got[s])) for s in sources):
                self.ctx.fail("%s: a cell outside the source has a value" % what, case, "NaN", list(got.values()))
            return
        if lin <= 0 or n*rec["sure"][0]/rec["total"] < 100:
            return
        if not all(isnum(got[s]) and math.isfinite(got[s]) for s in sources):
            self.ctx.fail("%s: a cell that touches the source has no value" % what, case, rec["ones"], list(got.values()))
            return
        src = []
        for s in sources:
            lo, hi = known.get(repr(s), (0, 0))
            v = got[s]
            r = round(1e4*v)
            src.append([lo, hi, (1 if v > 0 else -1) if r == 0 and v != 0 else max(-20000, min(20000, r))])
        self.items.append((what, case, {"n": n, "total": rec["total"], "lin": lin, "hin": hin, "src": src}))

    def judge(self):
        out = self.ctx.oracle("Within", [c for _, _, c in self.items])
        for (what, case, c), r in zip(self.items, out):
            if not r["ok"]:
                self.ctx.fail("%s: the weights do not estimate the shares" % what, case, c, r)
            else:
                self.ctx.seen(what, case)


def relations(hot, sources, plain, const, weighted, f, w, k):
    """What must follow from the weights of one cell, whatever they are: the remap of any
    field is the mean with those weights.  Returns what is wrong, if anything."""
    sh = {s: hot[s] for s in sources}
    if any(not isnum(x) or not math.isfinite(x) for x in sh.values()):
        return None if all(isinstance(x, float) and math.isnan(x) for x in list(sh.values()) + [plain, const]) else "values and NaNs are mixed"
    if any(x < 0 for x in sh.values()):
        return "a weight is negative"
    if not near(const, k, 1e-12):
        return "a constant field changes"
    if not near(plain, sum(sh[s]*f[s] for s in sources), 1e-9, 100):
        return "remap is not the mean with the weights"
    den = sum(sh[s]*w[s] for s in sources)
    if den > 0 and not near(weighted, sum(sh[s]*w[s]*f[s] for s in sources)/den, 1e-9, 100):
        return "the weighted remap is not the weighted mean"
    return None


def columns(c):
    """The specification's grids have uniform columns; a logarithmic grid is given column by column."""
    if "edges" not in c:
        return [c]
    fine = c["cols"][3]
    return [dict(c, cols=[a, (b - a)//(2*fine), 1, fine]) for a, b in zip(c["edges"], c["edges"][1:])]


def sharp_case(rng):
    """A small box held by a quarter of a wide ring, or holding most of it."""
    c = box_case(rng, fine=60)
    nx, ny, np_ = rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2)
    h = rng.randint(4, 7)
    c.update(rows=[rng.choice((0, 200, 500)), rng.choice((2, 3)), np_, 60], cols=[rng.choice((0, 60)), h, 1, 60], sharp=True)
    mid = (c["rows"][0] + 120*c["rows"][1]*(rng.randrange(np_) + .5) + c["spin"])*STEP
    r = rng.randint(h*50, h*80)
    d = [rng.randint(40, 90) if rng.random() < .7 else rng.randint(h*30, h*60) for _ in "xy"]
    if rng.random() < .5:
        # the box holds a hundredth of the cell or less
        nx = ny = 1
        d = [max(12, round(h*rng.uniform(5, 8))) for _ in "xy"]
    c["x"] = [c["centre"][0] + round(r*math.cos(mid)) - nx*d[0]//2, d[0], nx]
    c["y"] = [c["centre"][1] + round(r*math.sin(mid)) - ny*d[1]//2, d[1], ny]
    c["w"] = [[rng.randint(1, 3) for _ in range(nx)] for _ in range(ny)]
    c["f"] = [[rng.randint(-40, 60) for _ in range(nx)] for _ in range(ny)]
    return c


def mc_cases(ctx, rng, n, fine):
    cs = [sharp_case(rng) for _ in range(n//6)]
    for _ in range(n):
        c = box_case(rng, fine=fine)
        if rng.random() < .35:
            nr, q, a = rng.randint(1, 3), rng.choice((2, 3)), 2*fine*rng.randint(1, 3)
            c["edges"] = [a*q**k for k in range(nr + 1)]
            if rng.random() < .5:
                c["edges"] = [0] + c["edges"]
            c["cols"] = [0, 0, len(c["edges"]) - 1, fine]
        cs.append(c)
    parts, own = [], []
    for k, c in enumerate(cs):
        for p in columns(c):
            parts.append(p)
            own.append(k)
    tab = table(ctx.tlc("BoxMap", parts, workers=8, heap="6g"), parts)
    rows = [[[] for _ in range(c["rows"][2])] for c in cs]
    for k, t in zip(own, tab):
        for a, r in enumerate(t):
            rows[k][a] += r
    return cs, rows


def mc_polar_step(c, rng):
    if "edges" not in c:
        return polar_step(c, rng, mc=True)
    s = c["scale"]
    st = polar_step(dict(c, cols=[0, 1, c["cols"][2], 1]), rng, mc=True)
    zero = c["edges"][0] == 0
    e = c["edges"][1:] if zero else c["edges"]
    st["m"] = "setup_polar_log"
    st["args"][:2] = [e[0]*s, e[-1]*s]
    if not zero or rng.random() < .5:
        st["kw"]["addzero"] = zero
    return st


def E01(ctx):
    rng = ctx.rng
    n = 8000
    cs, tab = mc_cases(ctx, rng, ctx.pick(40, 150), ctx.pick(10, 16))
    # a single column of a logarithmic grid with the zero edge cannot be given: it has one edge only
    keep = [k for k, c in enumerate(cs) if not ("edges" in c and c["edges"][0] == 0 and len(c["edges"]) < 3)]
    cs, tab = [cs[k] for k in keep], [tab[k] for k in keep]
    runs = []
    for c in cs:
        nx, ny = c["x"][2], c["y"][2]
        setup = [box_step(c), mc_polar_step(c, rng)]
        if rng.random() < .5:
            setup.reverse()
        v = {"verbose": False} if rng.random() < .8 else {}
        steps = setup + [{"m": "get_weights", "kw": {"mc_size": 1000000 if "sharp" in c else n, **v}, "seed": rng.randrange(2**31), "quiet": 1}]
        steps += [{"m": "remap", "args": [field(c["f"], c["vu"])], "kw": v}, {"m": "remap", "args": [field([[-2.5]*nx]*ny, c["vu"])], "kw": v},
                  {"m": "remap", "args": [field(c["f"], c["vu"])], "kw": {"w": field(c["w"], c["wu"]), **v}}]
        steps += [{"m": "get_mask_in_bound", "kw": {"verbose": False}}, {"get": "mask_in_bound"}]
        for y in range(ny):
            for x in range(nx):
                hot = [[0]*nx for _ in range(ny)]
                hot[y][x] = 1
                steps.append({"m": "remap", "args": [field(hot, c["vu"])], "kw": {"verbose": False}})
        # arrays of another shape are refused
        steps += [{"m": "remap", "args": [field([[1.]*(nx + 1)]*ny)], "kw": {"verbose": False}},
                  {"m": "remap", "args": [field(c["f"])], "kw": {"w": field([[1.]*nx]*(ny + 1)), "verbose": False}}]
        runs.append({"cls": "montecarlo.Box2Ring", "steps": steps})
    shares = Shares(ctx)
    for c, t, run, o in zip(cs, tab, runs, ctx.drive("objects", runs)):
        nx, ny, np_, nr = c["x"][2], c["y"][2], c["rows"][2], c["cols"][2]
        if "ok" not in o or any("exc" in x for x in o["ok"][:-2]):
            ctx.fail("Monte Carlo Box2Ring fails", brief(c), None, o if "ok" not in o else [x for x in o["ok"] if "exc" in x][:1])
            continue
        if any("exc" not in x for x in o["ok"][-2:]):
            ctx.fail("Monte Carlo Box2Ring accepts arrays of another shape", brief(c), None, o["ok"][-2:])
        res = [x["r"] for x in o["ok"][:-2]]
        if not all(shape(x) == [np_, nr] for x in res[3:6] + res[7:]):
            ctx.fail("Monte Carlo Box2Ring gives arrays of a wrong shape", brief(c), [np_, nr], [shape(x) for x in res[3:]])
            continue
        for q in [3, 4, 5] + list(range(8, len(res))):
            res[q] = unscaled(res[q], c["vu"])
        src = [(x + 1, y + 1) for y in range(ny) for x in range(nx)]
        f = {(x, y): c["f"][y - 1][x - 1] for x, y in src}
        w = {(x, y): c["w"][y - 1][x - 1] for x, y in src}
        for a in range(np_):
            for b in range(nr):
                hot = {s: res[8 + k][a][b] for k, s in enumerate(src)}
                cell = {"case": brief(c), "cell": [a, b]}
                bad = relations(hot, src, res[3][a][b], res[4][a][b], res[5][a][b], f, w, -2.5)
                if bad:
                    ctx.fail("Monte Carlo Box2Ring: " + bad, cell, None, [res[3][a][b], res[4][a][b], res[5][a][b], list(hot.values())])
                r = dict(t[a][b])
                r["shares"] = [[tuple(s[0])] + s[1:] for s in r["shares"]]
                size = 1000000 if "sharp" in c else n
                shares.add("Monte Carlo Box2Ring", cell, size, r, src, hot)
                m = res[7][a][b]
                if r["sure"][1] == 0 and m != 0 or size*r["sure"][0]/r["total"] > 100 and m != 1:
                    ctx.fail("Monte Carlo Box2Ring: the mask in bounds is wrong", cell, r["ones"], m)
    shares.judge()
    ctx.sample({"case": brief(cs[0]), "cell": tab[0][0][0]})


# ---------------------------------------------------------------- radial averages of the remappers

def arrays(rng, np_, nr):
    def t(lo, hi, d):
        return [[[rng.randint(lo, hi), d] for _ in range(nr)] for _ in range(np_)]
    return t(-9, 9, 2), t(0, 3, 1) if rng.random() < .6 else t(1, 4, 2), t(0, 6, 2)


def vals(t):
    return [[a/b for a, b in row] for row in t]


def rational(t):
    return [[rat(Fraction(a, b)) for a, b in row] for row in t]


def nearly(rng):
    """A fine grid, all of it in the box but the last few subcells."""
    c = box_case(rng, full=False)
    np_, nr = rng.choice(((1, 1), (1, 2), (2, 1), (3, 1)))
    c["rows"] = [rng.randint(0, 700), rng.randint(1, 3), np_, 16]
    c["cols"] = [rng.choice((0, rng.randint(500, 3000))), rng.randint(20, 60), nr, 16]
    pts = []
    for a in range(16*np_):
        y = (c["rows"][0] + (2*a + 1)*c["rows"][1] + c["spin"])*STEP
        for b in range(16*nr):
            x = c["cols"][0] + (2*b + 1)*c["cols"][1]
            pts.append((c["centre"][0] + x*math.cos(y), c["centre"][1] + x*math.sin(y)))
    box = [[math.floor(min(p[d] for p in pts)) - 9, math.ceil(max(p[d] for p in pts)) + 9] for d in (0, 1)]
    d, side = rng.randrange(2), rng.randrange(2)
    far = sorted((p[d] for p in pts), reverse=bool(side))
    far = [v for k, v in enumerate(far) if k == 0 or abs(v - far[k - 1]) > 3]
    if len(far) > 1:
        box[d][side] = round((far[0] + far[1])/2)
    for name, (lo, hi), axis in zip("xy", box, (0, 1)):
        n = rng.randint(1, 3)
        size = -(-(hi - lo)//n)
        # the end that cuts stays where it is
        c[name] = [hi - n*size if (axis, 1) == (d, side) else lo, size, n]
    return c


def Q02(ctx):
    """The oracle is Radial with the weights of the cells that are not counted set to zero;
    its variances are linear in pixel over cell area, which are put in afterwards."""
    rng = ctx.rng
    n = ctx.pick(100, 700)
    todo = []
    box = []
    for _ in range(n):
        c = box_case(rng)
        if rng.random() < .3:
            # a box large enough to hold the whole grid, whatever the rotation
            reach = c["cols"][0] + 2*c["cols"][1]*c["cols"][2]*c["cols"][3] + 60
            c["x"] = [c["centre"][0] - reach, 2*reach, 1] if rng.random() < .3 else [c["centre"][0] - reach, (2*reach)//3 + 1, 3]
            c["y"] = [c["centre"][1] - reach, reach, 2]
        box.append(c)
    box += [nearly(rng) for _ in range(n//6)]
    for c in box:
        c["fields"], c["f"], c["w"] = [], [], []
    tab = table(ctx.tlc("BoxMap", box, workers=6), box)
    # the Monte Carlo class needs the true shares, not those of the subcells
    mcbox = [dict(c, rows=[c["rows"][0], c["rows"][1]*c["rows"][3], c["rows"][2], 1],
                  cols=[c["cols"][0], c["cols"][1]*c["cols"][3], c["cols"][2], 1]) for c in box]
    fine = []
    for c in mcbox:
        p, r = 1, 1
        for d in (8, 6, 5, 4, 3, 2):
            p = d if p == 1 and c["rows"][1] % d == 0 else p
            r = d if r == 1 and c["cols"][1] % d == 0 else r
        fine.append(dict(c, rows=[c["rows"][0], c["rows"][1]//p, c["rows"][2], p], cols=[c["cols"][0], c["cols"][1]//r, c["cols"][2], r]))
    mctab = table(ctx.tlc("BoxMap", fine, workers=8), fine)
    mc_n = 2000
    for c, t, m in zip(box, tab, mctab):
        np_, nr = c["rows"][2], c["cols"][2]
        inside = [[1 if r["centres"][0] == r["total"] else 0 if r["centres"][1] < r["total"] else None for r in row] for row in t]
        touch = [[0 if r["sure"][1] == 0 else 1 if mc_n*r["sure"][0]/r["total"] > 100 else None for r in row] for row in m]
        size = 2*c["cols"][1]*c["cols"][3]
        re = [c["cols"][0] + k*size for k in range(nr + 1)]
        dphi = 2*c["rows"][1]*c["rows"][3]*STEP
        area = [(b*b - a*a)*dphi/2 for a, b in zip(re, re[1:])]
        pix = c["x"][1]*c["y"][1]
        todo.append(("densegrid.Box2Ring", c, [box_step(c), polar_step(c, rng)], inside, [pix/a for a in area]))
        todo.append(("montecarlo.Box2Ring", c, [box_step(c), polar_step(c, rng, mc=True),
                                               {"m": "get_weights", "kw": {"mc_size": mc_n, "verbose": False}, "seed": rng.randrange(2**31), "quiet": 1}],
                     touch, [pix/a for a in area]))
    for _ in range(n):
        dense = rng.random() < .5
        nr, np_ = rng.randint(1, 4), rng.randint(1, 5)
        a = sorted(rng.sample(range(0, 13), 2))
        amin, amax = [v*PI/12 for v in a]
        bmin, bmax = (0., 2*PI) if rng.random() < .5 else sorted(rng.sample([k*PI/6 for k in range(0, 12)], 2))
        nside = rng.choice((1, 2, 4, 8))
        kw = {"beta_min": bmin, "beta_max": bmax, "center": [rng.randint(0, 12)*PI/6, rng.randint(0, 6)*PI/6], "beta_shift": rng.choice((0., PI/3))}
        edges = [amin + (amax - amin)*k/nr for k in range(nr + 1)]
        area = [(bmax - bmin)/np_*(math.cos(p) - math.cos(q)) for p, q in zip(edges, edges[1:])]
        c = {"rows": [0, 0, np_, 0], "cols": [0, 0, nr, 0], "cap": [amin, amax, nr, np_, kw], "nside": nside}
        todo.append((("densegrid" if dense else "montecarlo") + ".Heal2Ring", c,
                     [{"m": "setup_map", "args": [nside]}, {"m": "setup_polar_cap", "args": [amin, amax, nr, np_], "kw": kw}],
                     [[1]*nr for _ in range(np_)], [4*PI/(12*nside**2)/x for x in area]))
    ask, runs = [], []
    for cls, c, setup, mask, _ in todo:
        np_, nr = c["rows"][2], c["cols"][2]
        f, w, s = arrays(rng, np_, nr)
        counted = [[[x[0]*(m or 0), x[1]] for x, m in zip(r, q)] for r, q in zip(w, mask)]
        ones = [[[m or 0, 1] for m in q] for q in mask]
        base = {"re": [rat(0)] + [rat(k) for k in range(1, nr + 1)], "np": np_, "dphi": rat(Fraction(2, np_)), "pix": rat(1)}
        ask.append(dict(base, f=rational(f), w=rational(counted), s=rational(s)))
        ask.append(dict(base, f=rational(f), w=rational(ones), s=rational(s)))
        # whatever stands in the cells that are not counted
        junk = rng.choice((0., math.nan, 1e30))
        vu, wu = rng.choice(UNITS), rng.choice(UNITS)
        fv = [[junk if m == 0 else x*vu for x, m in zip(r, q)] for r, q in zip(vals(f), mask)]
        sv = [[junk if m == 0 else x*vu for x, m in zip(r, q)] for r, q in zip(vals(s), mask)]
        wv = [[x*wu for x in r] for r in vals(w)]
        wrong = {"f": [[1.]*(nr + 1)]*np_}
        v = {"verbose": False} if rng.random() < .5 else {}
        calls = [{"m": "polar2radial", "args": [{"f": fv}], "kw": dict(v)}, {"m": "polar2radial", "args": [{"f": fv}], "kw": {"sigma": {"f": sv}, **v}},
                 {"m": "polar2radial", "args": [{"f": fv}], "kw": {"w": {"f": wv}, **v}},
                 {"m": "polar2radial", "args": [{"f": fv}], "kw": {"w": {"f": wv}, "sigma": {"f": sv}, **v}}]
        order = rng.sample(range(4), 4)
        runs.append({"cls": cls, "steps": setup + [calls[k] for k in order]
                     + [{"m": "polar2radial", "args": [wrong]}, {"m": "polar2radial", "args": [{"f": vals(f)}], "kw": {"sigma": wrong}}], "order": order, "vu": vu})
    want = ctx.oracle("Radial", ask)
    for k, ((cls, c, setup, mask, ratio), run, o) in enumerate(zip(todo, runs, ctx.drive("objects", runs))):
        case = {"class": cls, "case": brief(c)}
        if "ok" not in o:
            ctx.fail(cls + ".polar2radial crashes", case, None, o)
            continue
        if any("exc" not in x for x in o["ok"][-2:]):
            ctx.fail(cls + ".polar2radial accepts arrays of another shape", case, None, o["ok"][-2:])
        res = {}
        for q, x in zip(run["order"], o["ok"][-6:-2]):
            res[q] = x
        if any("exc" in x for x in o["ok"][:-2]):
            ctx.fail(cls + ".polar2radial fails", case, None, [x for x in o["ok"][:-2] if "exc" in x][:1])
            continue
        nr, np_ = c["cols"][2], c["rows"][2]
        for q in range(4):
            r = want[2*k] if q >= 2 else want[2*k + 1]
            got = res[q]["r"]
            mean, err = (unscaled([got], run["vu"])[0], None) if q in (0, 2) else unscaled(got, run["vu"])
            for b in range(nr):
                if any(row[b] is None for row in mask) or not r["out"][b]["wmean"]:
                    continue
                m = fr(r["out"][b]["wmean"])
                unit = fr(r["area"][b])
                e = math.sqrt(fr(r["out"][b]["wvar"])*unit*Fraction(ratio[b]))
                if not near(mean[b], m, 1e-9, 10) or err is not None and not near(err[b], e, 1e-9, max(1., e)):
                    ctx.fail(cls + ".polar2radial is wrong", {**case, "radius": b, "counted": mask, "weights": q >= 2, "input": run["steps"]}, [float(m), e], got)
                    break
            else:
                ctx.seen(cls, q, c["rows"], c["cols"], repr(mask))
    ctx.notes["partly_outside"] = sum(1 for t in todo if any(x == 0 for row in t[3] for x in row))
    ctx.sample({"case": ask[0], "expected": want[0]})
