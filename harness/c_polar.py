"""Radial profiles: properties Q01, Q03."""
import math
from fractions import Fraction as F
from core import fr, rat, near, near_all

PI = math.pi


UNITS = (1, 1, 2.0**-60, 2.0**-23, 2.0**7, 2.0**50)


def cases(ctx):
    rng = ctx.rng
    out = []
    for q in range(ctx.pick(120, 1000)):
        nr, np_ = rng.randint(1, 5), rng.randint(1, 5)
        den = rng.choice((1, 2, 3, 4))
        if q % 20 == 7:     # many cells
            nr, np_ = rng.choice(((120, 3), (40, 40), (2, 700)))
        top = max(12, nr + 1)
        if q % 20 == 13:    # thin rings far out
            den, top = 16, 100
        re = sorted(rng.sample(range(0, top), nr + 1))
        if q % 20 == 13:
            re[-1] = re[-2] + 1
        if rng.random() < .4:
            re = [re[0] + k for k in range(nr + 1)]
        if rng.random() < .4:
            re = [x - re[0] for x in re]

        def table(lo, hi, d):
            return [[rat(F(rng.randint(lo, hi), d)) for _ in range(nr)] for _ in range(np_)]
        out.append({"re": [rat(F(x, den)) for x in re], "np": np_, "dphi": rat(F(2, np_) if rng.random() < .6 else F(rng.randint(1, 5), 8)),
                    "pix": rat(F(rng.randint(1, 6), 4)), "f": table(-9, 9, 2), "w": table(0, 3, 1) if rng.random() < .6 else table(0, 1, 1), "s": table(0, 6, 2),
                    # units of length, of the values and of the weights
                    "u": rng.choice(UNITS), "v": rng.choice(UNITS), "o": rng.choice(UNITS)})
    return out, ctx.oracle("Radial", [{k: c[k] for k in c if k not in "uvo"} for c in out])


def vals(t, unit):
    return [[float(fr(x))*unit for x in row] for row in t]


def close(o, e):
    """Each number to many digits of the largest of its list."""
    if isinstance(e, list) and e and isinstance(e[0], list):
        return isinstance(o, list) and len(o) == len(e) and all(map(close, o, e))
    top = max(map(abs, e)) if isinstance(e, list) else abs(e)
    return near_all(o, e, 2e-12, max(top, 1e-300))


def run(ctx, calls, plan):
    for c, want, o in zip(calls, plan, ctx.calls(calls)):
        if "exc" in o or not close(o["r"], want):
            ctx.fail("%s is wrong" % c["fn"], c, want, o)
        else:
            ctx.seen(c["fn"], c["args"], c.get("kw"))


def Q01(ctx):
    cs, rs = cases(ctx)
    ctx.sample({"case": cs[0], "expected": rs[0]})
    calls, plan = [], []

    def add(fn, args, kw, want):
        calls.append({"fn": "polar." + fn, "args": args, "kw": kw})
        plan.append(want)
    for c, r in zip(cs, rs):
        n = c["np"]
        u, v, w1 = c["u"], c["v"], c["o"]
        a0 = ctx.rng.choice((0., 0., .7))
        dphi = PI*float(fr(c["dphi"]))
        area = [[PI*float(fr(x))*u*u for x in r["area"]]]*n
        pix = PI*float(fr(c["pix"]))*u*u
        add("get_polar_area2d", [{"f": [float(fr(x))*u for x in c["re"]]}, {"f": [a0 + k*dphi for k in range(n + 1)]}], {}, area)
        f, w, s = vals(c["f"], v), vals(c["w"], w1), vals(c["s"], v)
        base = [{"f": f}, {"f": area}, pix]
        m = [float(fr(x["mean"]))*v for x in r["out"]]
        e = [math.sqrt(fr(x["var"]))*v for x in r["out"]]
        add("polar2radial", base, {}, m)
        add("polar2radial", base, {"sigma": {"f": s}}, [m, e])
        if all(x["wmean"] for x in r["out"]):
            m = [float(fr(x["wmean"]))*v for x in r["out"]]
            e = [math.sqrt(fr(x["wvar"]))*v for x in r["out"]]
            add("polar2radial", base, {"w": {"f": w}}, m)
            add("polar2radial", base, {"w": {"f": w}, "sigma": {"f": s}}, [m, e])
        dx, dy = ctx.rng.randint(1, 9)/4*u, ctx.rng.randint(1, 9)/8*u
        x0 = ctx.rng.randint(-3, 3)*u
        add("get_pixarea", [{"f": [x0 + dx*k for k in range(3)]}, {"f": [dy*k - x0 for k in range(5)]}], {}, dx*dy)
    run(ctx, calls, plan)


def Q03(ctx):
    cs, rs = cases(ctx)
    ctx.sample({"case": cs[0], "expected": rs[0]})
    calls, plan = [], []
    for c, r in zip(cs, rs):
        u, v = c["u"], c["v"]
        args = [{"f": [float(fr(x))*u for x in c["re"]]}, {"f": vals(c["f"], v)[0]}]
        cum = [PI*float(fr(x))*v*u*u for x in r["cum"]]
        err = [PI*math.sqrt(fr(x))*v*u*u for x in r["cvar"]]
        calls.append({"fn": "polar.cumulative_radial", "args": args})
        plan.append(cum)
        calls.append({"fn": "polar.cumulative_radial", "args": args, "kw": {"sigma": {"f": vals(c["s"], v)[0]}}})
        plan.append([cum, err])
    run(ctx, calls, plan)
