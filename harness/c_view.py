"""Perspective views: property D06."""
import math
from core import near, near_all

TRIPLES = ((1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (20, 21, 29))


def angle(rng, most):
    c, s, h = rng.choice([t for t in TRIPLES if t[2] <= most])
    return [c*rng.choice((1, -1)), s*rng.choice((1, -1)), h]


def look(rng):
    """A direction whose longitude and colatitude have rational sines."""
    lon = angle(rng, 13)
    col = angle(rng, 13 if lon[2] < 13 else 5)
    col[1] = abs(col[1])
    k = rng.randint(1, 3)
    v = [col[1]*lon[0], col[1]*lon[1], col[0]*lon[2]]
    g = math.gcd(*v)
    return [x//g*k for x in v], lon[2]*col[2]


def D06(ctx):
    rng = ctx.rng
    cases, groups = [], []
    for q in range(ctx.pick(400, 4000)):
        v, size = look(rng)
        spin = [1, 0, 1] if rng.random() < .3 else angle(rng, 17 if size < 30 else 5)
        cam = [0, 0, 0] if rng.random() < .15 else [rng.randint(-9, 9) for _ in range(3)]
        base = {"camera": cam, "point": [a + b for a, b in zip(cam, v)], "spin": spin}
        ids = []
        for n in range(rng.randint(1, 6)):
            x = list(base["point"]) if n == 0 and rng.random() < .2 else [a + rng.randint(-12, 12) for a in cam]
            if rng.random() < .15:
                x = [cam[0], cam[1], x[2]]
            if x == cam:
                continue
            ids.append(len(cases))
            cases.append(dict(base, x=x))
        if ids:
            groups.append((base, ids))
    want = ctx.oracle("PointOfView", cases)
    runs = []
    for base, ids in groups:
        s = rng.choice((1., 1., .01, 37.5, 1e-19, 1e13))
        disp = rng.choice((1., .5, 2.25, 10., 1e-17, 1e14))
        c, sn, h = base["spin"]
        al = math.atan2(sn, c) % (2*math.pi)
        kw = {} if al == 0. and rng.random() < .7 else {"spin": al}
        steps = []
        if rng.random() < .3:
            steps.append({"m": "setup", "args": [[1., 2., 3.], [0., 5., -1.], 3., 1.]})
            if rng.random() < .5:
                steps.append({"m": "clean"})
        steps.append({"m": "setup", "args": [[a*s for a in base["camera"]], [a*s for a in base["point"]], disp], "kw": kw})
        ids = [k for k in ids if want[k]["frame"][0]**2*2500 > want[k]["den"]**2*want[k]["dist2"]]
        front = [k for k in ids if want[k]["frame"][0] > 0]
        plan = []
        for m, use in (("transform", ids), ("reverse", front)):
            ask, ans = [], []
            for k in use:
                x = [a*s for a in cases[k]["x"]]
                f = want[k]["frame"]
                b = [disp*f[1]/f[0], disp*f[2]/f[0], s*math.sqrt(want[k]["dist2"])]
                ask.append(x if m == "transform" else b)
                ans.append(b if m == "transform" else x)
            if ask and rng.random() < .7:
                steps.append({"m": m, "args": [{"f": list(z)} for z in zip(*ask)]})
                plan.append((m, len(steps) - 1, [list(z) for z in zip(*ans)], use))
            for a, b, k in zip(ask, ans, use):
                if rng.random() < .4:
                    steps.append({"m": m, "args": a})
                    plan.append((m, len(steps) - 1, b, [k]))
        runs.append((steps, plan, s, disp))
    for (steps, plan, s, disp), (base, ids), o in zip(runs, groups, ctx.drive("objects", [{"cls": "densegrid.PointOfView", "steps": r[0]} for r in runs])):
        if "ok" not in o:
            ctx.fail("PointOfView crashes", base, None, o)
            continue
        bad = [x for k, x in enumerate(o["ok"]) if "exc" in x and not any(k == q[1] for q in plan)]
        if bad:
            ctx.fail("PointOfView.setup fails", base, None, bad[0])
            continue
        for m, k, exp, use in plan:
            x = o["ok"][k]
            # each coordinate in its own unit
            if "exc" in x or not (isinstance(x["r"], list) and len(x["r"]) == 3 and all(
                    near_all(a, b, 1e-9, max([abs(v) for v in (b if isinstance(b, list) else [b])] + [u]))
                    for a, b, u in zip(x["r"], exp, [disp*2, disp*2, s*20] if m == "transform" else [s*20]*3))):
                ctx.fail("PointOfView.%s is wrong" % m, {"setup": steps[:k][-1] if len(steps) < 3 else [t for t in steps if t["m"] == "setup"][-1], "args": steps[k]["args"]}, exp, x)
                break
        else:
            ctx.seen(base)
    ctx.sample({"case": cases[0], "expected": want[0]})
