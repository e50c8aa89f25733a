"""Remapping cubes onto shells: properties D02, E02."""
import math
from core import near, near_all, isnum, shape
from c_box import UNITS, judge, relations, scaled, Shares, unscaled

UNSEEN = -1.6375e30


def case(rng, split=None, thin=None, large=False):
    nside = rng.choice((1, 1, 2)) if split else rng.choice((1, 2, 4))
    c = {"nside": nside, "split": split or rng.choice([k for k in (1, 2, 4) if k*nside <= 8])}
    n = [rng.randint(1, 4) for _ in range(3)]
    d = [rng.randint(20, 120) for _ in range(3)]
    if large:
        n = rng.choice(([14, 2, 3], [1, 20, 2], [2, 3, 17], [9, 8, 7]))
        d = [rng.randint(100//k, 300//k) for k in n]
    lo = [rng.randint(-300, 100) for _ in range(3)]
    c["axes"] = [[a, b, k] for a, b, k in zip(lo, d, n)]
    c["centre"] = [a + (b*k)//2 + rng.randint(-30, 30) if rng.random() < .8 else a + rng.randint(-b, b*(k + 1)) for a, b, k in c["axes"]]
    if rng.random() < .15:
        c["axes"] = [[a - m, b, k] for (a, b, k), m in zip(c["axes"], c["centre"])]
        c["centre"] = [0, 0, 0]
    nr = rng.randint(1, 3)
    sub = thin or rng.randint(1, 3)
    if large:
        c["nside"], c["split"], nr, sub = rng.choice(((16, 1, 1, 1), (8, 1, 1, 3), (1, 2, 24, 1), (2, 1, 3, 8)))
    h = rng.randint(1, max(1, 90//(nr*sub)))
    c["cols"] = [rng.choice((0, rng.randint(0, 60))), h, nr, sub]
    c["images"] = [[0, 0] for _ in range(3)]
    if not split and rng.random() < .5:
        c["images"] = [rng.choice(([0, 0], [-1, 1], [0, 1], [-1, 0], [1, 1])) for _ in range(3)]
    f = [[[rng.randint(-30, 40) for _ in range(n[2])] for _ in range(n[0])] for _ in range(n[1])]
    w = [[[rng.choice((0, 1, 1, 2, 3)) for _ in range(n[2])] for _ in range(n[0])] for _ in range(n[1])]
    c.update(f=f, w=w, fields=[] if split else [f], scale=rng.choice((1., .25, .013, 3.7, 1e-17, 1e14)),
             vu=rng.choice(UNITS), wu=rng.choice(UNITS))
    return c


def hair(rng):
    """Boundaries a hair beside the sample points whose place is known without error."""
    c = case(rng)
    c["nside"], c["split"] = rng.choice(((1, 1), (1, 2), (2, 1), (1, 4), (2, 2), (4, 1), (1, 8), (4, 2)))
    nk = c["nside"]*c["split"]
    nr = rng.randint(1, 2)
    r = rng.randint(1000, 2800)
    c["cols"] = [0 if rng.random() < .3 else rng.randint(1, 5000), r, nr, 1]
    c["centre"] = [rng.randint(-2000, 2000) for _ in range(3)]
    shell = rng.randint(1, nr)
    m = c["cols"][0] + (2*shell - 1)*r
    for q in range(3):
        k, b = c["axes"][q][2], rng.randint(2000, 12000)
        rows = [m*z/(3*nk) for z in range(-2*nk, 2*nk + 1, 2)]
        off = rng.choice(rows if q == 2 else (0, 0, m, -m) if nk == 1 else (0,))
        edge = c["centre"][q] + rng.choice((math.floor(off), math.ceil(off)))
        if edge == c["centre"][q] + off:
            edge += rng.choice((-1, 1))
        c["axes"][q] = [edge - b*rng.choice([j for j in range(k + 1) if b*j <= 20000]), b, k]
    c["images"] = [[0, 0] for _ in range(3)]
    return c


def told(c):
    return {k: v for k, v in c.items() if k not in ("f", "w", "fields")}


def setup(c, rng, mc):
    s = c["scale"]
    args = []
    for a, b, k in c["axes"]:
        args += [a*s, (a + b*k)*s, k]
    a, h, nr, sub = c["cols"]
    kw = {"center": [v*s for v in c["centre"]]}
    if not mc:
        kw.update(rebin_shell=c["split"], rebin_r=sub)
        for q, im in zip("xyz", c["images"]):
            kw["periodic" + q] = im
    std = {"center": [0., 0., 0.], "rebin_shell": 2, "rebin_r": 2, "periodicx": [0, 0], "periodicy": [0, 0], "periodicz": [0, 0]}
    for q in list(kw):
        if kw[q] == std[q] and rng.random() < .7:
            del kw[q]
    edges = c.get("edges")
    if edges:
        zero = edges[0] == 0
        e = edges[1:] if zero else edges
        if not zero or rng.random() < .5:
            kw["addzero"] = zero
        polar = {"m": "setup_polar_log", "args": [e[0]*s, e[-1]*s, nr, c["nside"]], "kw": kw}
    else:
        polar = {"m": "setup_polar_lin" if mc else "setup_polar", "args": [a*s, (a + 2*h*nr*sub)*s, nr, c["nside"]], "kw": kw}
    return [{"m": "setup_cube", "args": args}, polar]


def tables(recs, cases):
    out = [[[None]*(12*c["nside"]**2) for _ in range(c["cols"][2])] for c in cases]
    for r in recs:
        out[r["i"] - 1][r["col"] - 1][r["row"] - 1] = r
    return out


def D02(ctx):
    rng = ctx.rng
    ctx.tlc("HealLookThm")
    cs = [case(rng, large=q % 15 == 4) for q in range(ctx.pick(60, 500))]
    cs += [hair(rng) for _ in range(ctx.pick(60, 400))]
    tab = []
    for b in range(0, len(cs), 60):
        tab += tables(ctx.tlc("CubeMap", cs[b:b + 60], workers=8, heap="6g"), cs[b:b + 60])
    runs = []
    for c in cs:
        v = {"verbose": False} if rng.random() < .7 else {}
        runs.append({"cls": "densegrid.Cube2Shell", "steps": setup(c, rng, False) + [{"m": "remap", "args": [{"f": scaled(c["f"], c["vu"])}], "kw": v}, {"get": "x3d"}, {"get": "y3d"}, {"get": "z3d"}]})
    for c, t, run, o in zip(cs, tab, runs, ctx.drive("objects", runs)):
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail("Cube2Shell fails", told(c), None, o)
            continue
        got, *mids = [x["r"] for x in o["ok"][2:]]
        if shape(got) != [c["cols"][2], 12*c["nside"]**2]:
            ctx.fail("Cube2Shell gives shells of a wrong shape", told(c), None, shape(got))
            continue
        (ax, bx, kx), (ay, by, ky), (az, bz, kz) = c["axes"]
        s = c["scale"]
        want = [[[[(ax + (x + .5)*bx)*s for z in range(kz)] for x in range(kx)] for y in range(ky)],
                [[[(ay + (y + .5)*by)*s for z in range(kz)] for x in range(kx)] for y in range(ky)],
                [[[(az + (z + .5)*bz)*s for z in range(kz)] for x in range(kx)] for y in range(ky)]]
        got = unscaled(got, c["vu"])
        if not near_all(mids, want, 1e-12, 1000*s):
            ctx.fail("Cube2Shell: x3d, y3d, z3d are not the cell centres", told(c), want, mids)
        for a, row in enumerate(t):
            for b, r in enumerate(row):
                if not judge(got[a][b], *r["out"][0], r["total"]):
                    ctx.fail("Cube2Shell: remap is wrong", {"case": told(c), "steps": run["steps"][:2], "cell": [a, b]}, [r["out"][0], r["total"]], got[a][b])
                    break
            else:
                continue
            break
        else:
            ctx.seen(told(c))
    ctx.sample({"case": told(cs[0]), "cell": tab[0][0][0]})
    ctx.notes["undecided_subcells"] = sum(r["doubt"] for t in tab for row in t for r in row)


def E02(ctx):
    rng = ctx.rng
    n = 3000
    cs = []
    for q in range(ctx.pick(10, 80)):
        c = case(rng, split=8, thin=6)
        if c["nside"] == 2:
            c["split"] = 4
        if q % 5 < 2:
            nr, a = 2 - q % 2, 12*rng.randint(1, 2)
            c["edges"] = [a*2**k for k in range(nr + 1)]
            if q % 5:
                c["edges"] = [0] + c["edges"]
            c["cols"] = [0, 0, len(c["edges"]) - 1, 6]
        cs.append(c)
    parts, own = [], []
    for k, c in enumerate(cs):
        cols = [c["cols"]] if "edges" not in c else [[a, (b - a)//12, 1, 6] for a, b in zip(c["edges"], c["edges"][1:])]
        for q in cols:
            parts.append(dict(c, cols=q))
            own.append(k)
    tab = [[] for _ in cs]
    for b in range(0, len(parts), 40):
        for k, t in zip(own[b:b + 40], tables(ctx.tlc("CubeMap", parts[b:b + 40], workers=8, heap="6g"), parts[b:b + 40])):
            tab[k] += t
    runs = []
    for c in cs:
        nx, ny, nz = [a[2] for a in c["axes"]]
        v = {"verbose": False} if rng.random() < .7 else {}
        f, w = {"f": scaled(c["f"], c["vu"])}, {"f": scaled(c["w"], c["wu"])}
        steps = setup(c, rng, True)
        if rng.random() < .5:
            steps.reverse()
        steps += [{"m": "get_weights", "kw": {"mc_size": n, **v}, "seed": rng.randrange(2**31), "quiet": 1},
                  {"m": "remap", "args": [f], "kw": v}, {"m": "remap", "args": [{"f": [[[-2.5*c["vu"]]*nz]*nx]*ny}], "kw": v}, {"m": "remap", "args": [f], "kw": {"w": w, **v}}]
        for y in range(ny):
            for x in range(nx):
                for z in range(nz):
                    hot = [[[0]*nz for _ in range(nx)] for _ in range(ny)]
                    hot[y][x][z] = c["vu"]
                    steps.append({"m": "remap", "args": [{"f": hot}], "kw": {"verbose": False}})
        runs.append({"cls": "montecarlo.Cube2Shell", "steps": steps})
    shares = Shares(ctx)
    name = "Monte Carlo Cube2Shell"
    for c, t, run, o in zip(cs, tab, runs, ctx.drive("objects", runs)):
        nx, ny, nz = [a[2] for a in c["axes"]]
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail(name + " fails", told(c), None, o if "ok" not in o else [x for x in o["ok"] if "exc" in x][0])
            continue
        res = [x["r"] for x in o["ok"]]
        dims = [c["cols"][2], 12*c["nside"]**2]
        if not all(shape(x) == dims for x in res[3:]):
            ctx.fail(name + " gives shells of a wrong shape", told(c), dims, [shape(x) for x in res[3:]])
            continue
        src = [(x + 1, y + 1, z + 1) for y in range(ny) for x in range(nx) for z in range(nz)]
        f = {(x, y, z): c["f"][y - 1][x - 1][z - 1] for x, y, z in src}
        w = {(x, y, z): c["w"][y - 1][x - 1][z - 1] for x, y, z in src}

        def val(v):
            return math.nan if isnum(v) and near(v, UNSEEN, 1e-9, 1e30) else v/c["vu"] if isnum(v) else v
        for a in range(dims[0]):
            for b in range(dims[1]):
                hot = {s: val(res[6 + k][a][b]) for k, s in enumerate(src)}
                cell = {"case": told(c), "cell": [a, b], "steps": run["steps"][:3]}
                bad = relations(hot, src, val(res[3][a][b]), val(res[4][a][b]), val(res[5][a][b]), f, w, -2.5)
                if bad:
                    ctx.fail("%s: %s" % (name, bad), cell, None, [res[3][a][b], res[4][a][b], res[5][a][b]])
                r = dict(t[a][b])
                r["shares"] = [[tuple(s[0])] + s[1:] for s in r["shares"]]
                shares.add(name, cell, n, r, src, hot)
    shares.judge()
    ctx.sample({"case": told(cs[0]), "cell": tab[0][0][0]})
