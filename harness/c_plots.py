"""Plots: property V01."""
import math
import re
from core import near, near_all, fr
from c_sky import angle, centre

PI = math.pi
S = 30000
FULL = (5, 10, 12, 15, 18, 20, 24, 30, 36, 40, 45, 60, 72, 90, 120, 180)
HALF = (10, 12, 15, 18, 20, 30, 36, 45, 60, 90)


def nums(v):
    return [float(fr(x)) for x in v]


def view(rng, kind):
    """A view: its centre (steps), radius, and half sides over the radius."""
    ctr = centre(rng)
    R = rng.choice((1., 1., 1., .05, 12.))
    if kind == "inside":
        a, b = rng.uniform(.2, .65), rng.uniform(.2, .65)
    else:
        a, b = (rng.choice((.3, .7, 1., 1.25)) for _ in "xy")
    n = rng.randint(1, 4)
    kw = {"center": [angle(v) for v in ctr], "y_length": 2*b*R, "radius": R, "y_grid": rng.randint(1, 4)}
    if R == 1. and rng.random() < .5:
        del kw["radius"]
    if ctr == [0, 0] and rng.random() < .5:
        del kw["center"]
    return {"centre": ctr, "R": R, "half": (a, b), "steps": [{"m": "setup_map", "args": [1]}, {"m": "setup_box", "args": [2*a*R, n], "kw": kw}],
            "shape": [kw["y_grid"], n]}


def units(x, R):
    return max(-32000, min(32000, round(x/R*S))) if math.isfinite(x) else 32000


def strokes(line, R):
    """The visible runs of a drawn line."""
    out, run = [], []
    for x, y in zip(*line):
        if math.isnan(x) or math.isnan(y):
            if run:
                out.append(run)
            run = []
        else:
            run.append([units(x, R), units(y, R)])
    return out + ([run] if run else [])


def case(v):
    return {"centre": v["centre"], "curves": [], "lines": [], "single": False, "bucket": 24, "places": [], "edges": []}


def grid(rng):
    v = view(rng, "any")
    dth = rng.choice(HALF)
    kw = {} if rng.random() < .1 else {"dtheta": float(dth)}
    if not kw:
        dth = 15
    dph = dth
    if rng.random() < .7:
        dph = rng.choice([d for d in FULL if d > 11])
        kw["dphi"] = float(dph)
    c = case(v)
    c["curves"] = [{"m": 1, "at": 4*k, "from": 0, "to": 720} for k in range(0, 360, dph)] + \
                  [{"m": 0, "at": 4*k, "from": 0, "to": 1440} for k in range(0, 180, dth)]
    c["single"] = True
    return v, c, [{"m": "plot_grid", "kw": kw}]


def boxes(rng):
    v = view(rng, "any")
    c = case(v)
    draw = []
    for _ in range(rng.choice((1, 1, 2))):
        p = sorted(rng.sample(range(0, 1441), 2)) if rng.random() < .8 else [0, 1440]
        if p[1] - p[0] < 30:
            p = [max(0, p[0] - 60), min(1440, p[1] + 60)]
        t = sorted(rng.sample(range(0, 721), 2))
        if t[1] - t[0] < 20:
            t = [max(0, t[0] - 40), min(720, t[1] + 40)]
        n = rng.choice((100, 60, 150))
        c["bucket"] = max(c["bucket"], int(1.5*(p[1] - p[0])/(n - 1)) + 3)
        c["curves"] += [{"m": 1, "at": a, "from": t[0], "to": t[1]} for a in p] + [{"m": 0, "at": a, "from": p[0], "to": p[1]} for a in t]
        kw = {} if n == 100 and rng.random() < .5 else {"divisions": n}
        th = [angle(a) for a in t]
        if rng.random() < .5:
            kw["lonlat"] = True
            th = [PI/2 - th[1], PI/2 - th[0]]
        draw.append({"m": "plot_polar_box", "args": [angle(a) for a in p] + th, "kw": kw})
    return v, c, draw


def labels(rng):
    v = view(rng, "any")
    c = case(v)
    dth = rng.choice(HALF)
    dph = rng.choice(FULL) if rng.random() < .6 else dth
    kw = {"dtheta": float(dth), "onsphere": True}
    if dph != dth:
        kw["dphi"] = float(dph)
    zero = [0, 360]
    if rng.random() < .5:
        zero = [rng.randint(0, 1439), rng.randint(40, 680)]
        kw["zeropoint"] = [angle(z) for z in zero]
    shift = [0, 0]
    if rng.random() < .5:
        shift = [rng.randint(0, 4*5), rng.randint(0, 4*5)]
        kw["shift"] = [s/4 for s in shift]
    if rng.random() < .4:
        kw["lonlat"] = True
    if rng.random() < .4:
        kw["decimals"] = rng.choice((0, 1, 2))
    if rng.random() < .3:
        kw["ha"], kw["va"] = rng.choice((("center", "center"), ("right", "bottom")))
    for k in range(0, 360, dph):
        c["places"].append([4*k - shift[0], zero[1], k])
    for k in range(dth, 180, dth):
        c["places"].append([zero[0], 4*k - shift[1], 90 - k if "lonlat" in kw else k])
    c["decimals"] = kw.get("decimals", 0)
    return v, c, [{"m": "plot_labels", "kw": kw}]


def ticks(rng):
    v = view(rng, "inside" if rng.random() < .7 else "any")
    c = case(v)
    dth = rng.choice([d for d in HALF if d < 40])
    dph = rng.choice([d for d in FULL if d < 70]) if rng.random() < .6 else dth
    kw = {"dtheta": float(dth)}
    if dph != dth:
        kw["dphi"] = float(dph)
    n = 100
    if rng.random() < .5:
        n = rng.choice((150, 400, 1500))
        kw["interpaxis"] = n
    a, b = v["half"]
    X, Y = round(a*S), round(b*S)
    c["edges"] = [{"lon": 1, "along": [-X, X], "off": -Y, "grid": [4*k for k in range(0, 360, dph)], "ticks": [], "h": 2*X//(n - 1) + 2},
                  {"lon": 0, "along": [-Y, Y], "off": X, "grid": [4*k for k in range(dth, 180, dth)], "ticks": [], "h": 2*Y//(n - 1) + 2}]
    return v, c, [{"m": "plot_labels", "kw": kw}]


def read_ticks(o, c, R):
    """The ticks as the judge reads them; the first one that is not a number."""
    for e, given in zip(c["edges"], o["ticks"]):
        for pos, text in given:
            m = re.fullmatch(r"\s*[-\u2212]?\d+(\.\d+)?\s*", text)
            if not m:
                return [pos, text]
            deg = float(text.replace("\u2212", "-"))
            val = round(4*deg) % 1440 if e["lon"] else 360 - round(4*deg)
            if val not in e["grid"] or not e["along"][0] - 3 <= units(pos, R) <= e["along"][1] + 3:
                return [pos, text]
            e["ticks"].append([units(pos, R), val])
    return None


def judge_labels(o, c, places, v):
    a, b = v["half"]
    must, may = [], []
    for p, (x, y, z) in zip(c["places"], places):
        x, y, z = x/S, y/S, z/S
        want = [p[2], x, y]
        if z > .002 and abs(x) < a - .002 and abs(y) < b - .002:
            must.append(want)
        elif z > -.002 and abs(x) < a + .002 and abs(y) < b + .002:
            may.append(want)
    for x, y, text in o["texts"]:
        m = re.search(r"[-\u2212]?\d+(?:\.\d+)?", text)
        if not m:
            return "a label without a number", None, text
        val, dec = float(m.group().replace("\u2212", "-")), len(m.group().partition(".")[2])
        if dec != c["decimals"]:
            return "a label with other decimals", c["decimals"], text
        for group in (must, may):
            hit = [w for w in group if abs(w[0] - val) <= .5*10**-dec + 1e-9 and math.hypot(w[1] - x/v["R"], w[2] - y/v["R"]) < .002]
            if hit:
                group.remove(hit[0])
                break
        else:
            return "a label out of place", must, [x/v["R"], y/v["R"], text]
    if must:
        return "a missing label", must, o["texts"]
    return None


def shapes(ctx):
    """plot_box, plot_circle, finalize and imshow."""
    rng = ctx.rng
    recs = ctx.tlc("Shapes")
    runs, plan = [], []

    def add(draw, lines, v=None, **more):
        r = {"draw": draw, "ax": rng.random() < .5}
        if v:
            r["view"] = v["steps"]
        runs.append(r)
        plan.append((lines, more))
    arcs = [r for r in recs if r["kind"] == "arc" and fr(r["c"]["lo"]) == 0 and fr(r["c"]["hi"]) == 2 and r["c"]["n"] > 1]

    def circle(r, R, ctr):
        t = [PI*x for x in nums(r["path"])]
        return [[ctr[0] + R*math.cos(x) for x in t], [ctr[1] + R*math.sin(x) for x in t]]
    for r in recs:
        if r["kind"] == "rect":
            (x0, y0), (x1, y1) = nums(r["c"]["lo"]), nums(r["c"]["hi"])
            s = rng.choice((1., 1., 40., .01))
            kw = {"divisions": r["c"]["n"]}
            if rng.random() < .3:
                kw["color"] = "r"
            add([{"fn": "plots.shapes.plot_box", "args": [x0*s, x1*s, y0*s, y1*s], "kw": kw}],
                [[[float(fr(q[0]))*s for q in r["path"]], [float(fr(q[1]))*s for q in r["path"]]]])
    for r in arcs:
        for _ in range(4):
            R = rng.choice((1., .3, 20.))
            kw = {"length": r["c"]["n"]}
            ctr = [0., 0.]
            if R != 1. or rng.random() < .5:
                kw["radius"] = R
            if rng.random() < .6:
                ctr = [rng.uniform(-3, 3), rng.uniform(-3, 3)]
                kw["center"] = ctr
            add([{"fn": "plots.shapes.plot_circle", "kw": kw}], [circle(r, R, ctr)])
    for _ in range(ctx.pick(30, 150)):
        v = view(rng, "any")
        kw, lines = {}, []
        if rng.random() < .3:
            kw["outeredge"] = False
        else:
            r = rng.choice(arcs)
            kw["edgelength"] = r["c"]["n"]
            ctr = [0., 0.]
            if rng.random() < .3:
                ctr = [rng.uniform(-1, 1), rng.uniform(-1, 1)]
                kw["edgecenter"] = ctr
            lines = [circle(r, v["R"], ctr)]
        lim = [[-v["half"][0]*v["R"], v["half"][0]*v["R"]], [-v["half"][1]*v["R"], v["half"][1]*v["R"]]]
        extent = lim[0] + lim[1]
        draw, more = [{"m": "finalize", "kw": kw}], {}
        if rng.random() < .5:
            kw["insphere"] = rng.random() < .5
        if rng.random() < .6:
            data = [[rng.choice((float("nan"), 0., 1.5, -3., 7.)) if rng.random() < .9 else float(rng.randint(-50, 50)) for _ in range(v["shape"][1])] for _ in range(v["shape"][0])]
            back = rng.random() < .5
            draw.insert(0, {"m": "imshow", "args": [{"f": [["nan" if x != x else x for x in row] for row in data]}], "kw": {"returncb": True} if back else {}})
            more = {"image": {"extent": extent, "data": data}, "ret": back}
        more["lim"] = [lim[0] if kw.get("insphere") is False else lim[0][::-1], lim[1]]
        add(draw, lines, v, **more)
    for run, (lines, more), o in zip(runs, plan, ctx.drive("plots", runs)):
        if "ok" not in o:
            ctx.fail("the drawing fails", run, None, o)
            continue
        o = o["ok"]
        size = max([1e-3] + [abs(x) for g in lines for h in g for x in h])
        if not near_all(o["lines"], lines, 1e-9, size):
            ctx.fail("the outline is drawn elsewhere", run, lines, o["lines"])
        elif "lim" in more and not near_all(o["lim"], more["lim"], 1e-9, 20.):
            ctx.fail("the plot spans another range", run, more["lim"], o["lim"])
        elif "image" in more and not (len(o["images"]) == 1 and near_all(o["images"][0]["extent"], more["image"]["extent"], 1e-9, 20.)
                                      and all(near_all(p, [None if x != x else x for x in q]) for p, q in zip(o["images"][0]["data"], more["image"]["data"]))
                                      and len(o["images"][0]["data"]) == len(more["image"]["data"]) and o["images"][0]["origin"] == "lower"):
            ctx.fail("the image is shown elsewhere", run, more["image"], o["images"])
        elif "image" in more and (o["ret"][0] != "NoneType") != more["ret"]:
            ctx.fail("imshow returns another thing", run, more["ret"], o["ret"])
        elif o["figures"] != 1 or o["axes"] != 1:
            ctx.fail("other axes appear", run, 1, [o["figures"], o["axes"]])
        else:
            ctx.seen(run)


def V01(ctx):
    ctx.tlc("FixThm")
    shapes(ctx)
    rng = ctx.rng
    cs = []
    for make, count in ((grid, ctx.pick(40, 300)), (boxes, ctx.pick(60, 500)), (labels, ctx.pick(60, 500)), (ticks, ctx.pick(80, 600))):
        cs += [make(rng) + (make.__name__,) for _ in range(count)]
    runs = [{"view": v["steps"], "draw": d, "ax": rng.random() < .6} for v, c, d, k in cs]
    for run in runs:
        if run["draw"][0]["m"] == "plot_labels" and not run["ax"] and rng.random() < .3:
            run["draw"][0]["kw"]["fontsize"] = 7
    kept = []
    for (v, c, d, kind), run, o in zip(cs, runs, ctx.drive("plots", runs)):
        if "ok" not in o:
            ctx.fail("the drawing fails", run, None, o)
            continue
        o = o["ok"]
        if kind in ("grid", "boxes"):
            c["lines"] = [s for g in o["lines"] for s in strokes(g, v["R"])]
        elif o["lines"]:
            ctx.fail("labels draw lines", run, [], o["lines"])
        if kind == "ticks":
            bad = read_ticks(o, c, v["R"])
            if bad:
                ctx.fail("a tick that marks no grid line on the edge", run, None, bad)
                continue
        kept.append((v, c, run, o, kind))
    cases = [dict({k: x for k, x in c.items() if k != "decimals"}, places=[p[:2] for p in c["places"]]) for v, c, run, o, kind in kept]
    verdicts = ctx.oracle("OrthoLines", cases, chunk=500, workers=8, heap="6g")
    for (v, c, run, o, kind), w in zip(kept, verdicts):
        if w["verdict"]:
            what, a, b = w["verdict"]
            seen = c["lines"][a - 1] if what in ("off every curve", "a jump") else c["edges"][a - 1] if "tick" in what else c["curves"][a - 1]
            ctx.fail("%s: %s" % (kind, what), run, w["verdict"], seen)
            continue
        bad = judge_labels(o, c, w["places"], v) if kind == "labels" else None
        if bad:
            ctx.fail("labels: " + bad[0], run, bad[1], bad[2])
        else:
            ctx.seen(run)
    ctx.notes["stretches_drawn"] = sum(w["met"] for w in verdicts)
    ctx.notes["ticks_read"] = sum(len(e["ticks"]) for v, c, run, o, kind in kept for e in c["edges"])
    ctx.notes["labels_read"] = sum(len(o["texts"]) for v, c, run, o, kind in kept)
    ctx.sample({"case": {k: v for k, v in cases[0].items() if k != "lines"}, "verdict": verdicts[0]})
