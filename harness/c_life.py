"""The lives of remapper objects: properties H01, H02."""
import math
import random
from core import near, shape

PI = math.pi


def values(n, k):
    return [((7*j*j + 3*j*(k + 1) + 11*k) % 23) - 5. + .25*k for j in range(n)]


def weights(n, k):
    return [((5*j + k) % 4) + .5 for j in range(n)]


def grid(v, dims):
    if len(dims) == 1:
        return v
    step = math.prod(dims[1:])
    return [grid(v[j*step:(j + 1)*step], dims[1:]) for j in range(dims[0])]


class Kind:
    """One class: its setups and questions.  dims(s) is the shape of its source arrays, out(t) of its target's."""

    def __init__(self, cls, src, tgt, bad, ops, dims, out, grid=(), mc=False, ordered=False, masked=False, rotate=.7):
        self.cls, self.src, self.tgt, self.bad, self.ops = cls, src, tgt, bad, ops
        self.dims, self.out, self.grid = dims, out, list(grid)
        self.mc, self.ordered, self.masked, self.rotate = mc, ordered, masked, rotate

    def case(self, depth, ready, objects):
        return {"ops": self.ops, "srcs": len(self.src), "tgts": len(self.tgt), "bad": len(self.bad), "mc": self.mc,
                "ordered": self.ordered, "masked": self.masked, "ready": ready, "objects": objects, "depth": depth, "stored": self.mc and not ready}

    def ask(self, op, s, t, k=0):
        """Question op, with the k-th of two sets of arrays."""
        v = {"verbose": False}
        if op in ("remap", "remapw"):
            d = self.dims(s)
            n = math.prod(d)
            kw = dict(v)
            if op == "remapw":
                kw["w"] = {"f": grid(weights(n, 1 + k), d)}
            return [{"m": "remap", "args": [{"f": grid(values(n, 1 + 6*k), d)}], "kw": kw, "spoil": 1}]
        if op == "mask":
            return [{"m": "get_mask_in_bound", "kw": v}, {"get": "mask_in_bound"}]
        if op in ("radial", "radials"):
            d = self.out(t)
            n = math.prod(d)
            kw = {}
            if op == "radials":
                kw = {"sigma": {"f": grid([abs(x) for x in values(n, 3 + k)], d)}, "w": {"f": grid(weights(n, 2 + k), d)}}
            return [{"m": "polar2radial", "args": [{"f": grid(values(n, 2 + 6*k), d)}], "kw": kw, "spoil": 1}]
        if op == "rotate":
            d = self.out(t)
            return [{"m": "rotate_polar", "args": [{"f": grid(values(math.prod(d), 4 + k), d)}, self.rotate + 2*k], "spoil": 1}]
        if op == "grid":
            return [{"gets": self.grid}]
        if op == "there":
            return [dict(self.out(t)[0], spoil=1)]
        return [dict(self.out(t)[1], spoil=1)]

    def weigh(self, k):      # few and many points, so that they do not find the same cells
        return {"m": "get_weights", "kw": {"mc_size": (4, 150)[k - 1], "verbose": False}, "seed": 1000 + k, "quiet": 1}


def m(name, *args, **kw):
    return {"m": name, "args": list(args), "kw": kw}


def kinds(rng, alike):
    """Every class with two source and two target setups, of the same sizes if alike."""
    n = (lambda a, b: a) if alike else (lambda a, b: b)
    out = []

    def box(k):
        return {1: m("setup_box", -1., 1., 3, 0., 2., 2), 2: m("setup_box", -.5, 2.5, n(3, 2), -1., 1.4, n(2, 3))}[k]

    def box_dims(k):
        return {1: [2, 3], 2: [n(2, 3), n(3, 2)]}[k]
    bads = [m("setup_box", 0., 1., 0, 0., 1., 2), m("setup_polar", 2., 1., 2, 3)]
    bgrid = ["xedges", "yedges", "x2d", "y2d", "redges", "pedges", "r2d", "p2d"]
    bops = ["remap", "remapw", "mask", "radial", "radials", "rotate", "grid"]
    ring = {1: m("setup_polar", 0., .9, 2, 3, center=[.1, 1.]), 2: m("setup_polar", .2, 1.6, n(2, 3), n(3, 2), center=[-.3, .4], rebin_r=1, rebin_p=3, phi_shift=.4)}
    out.append(Kind("densegrid.Box2Ring", [box(1), box(2)], [ring[1], ring[2]], bads, bops, box_dims,
                    lambda k: [3, 2] if k == 1 else [n(3, 2), n(2, 3)], bgrid, masked=True))
    mring = {1: m("setup_polar_log", .7, 1.9, 2, 3, center=[-.05, .95], phi_shift=.4), 2: m("setup_polar_lin", 0., .9, n(2, 3), n(3, 2), center=[.1, 1.])}
    out.append(Kind("montecarlo.Box2Ring", [box(1), box(2)], [mring[1], mring[2]],
                    [bads[0], m("setup_polar_lin", 0., 1., 2, 0), m("get_weights", mc_size=1)], bops, box_dims,
                    lambda k: [3, 2] if k == 1 else [n(3, 2), n(2, 3)], bgrid, mc=True, masked=True))
    cube = [m("setup_cube", -1., 1., 2, -1., 1., 3, -.8, 1., 1), m("setup_cube", -2., .5, n(2, 1), -1., 2., n(3, 2), -1.5, .7, n(1, 2))]

    def cube_dims(k):
        return [3, 2, 1] if k == 1 else [n(3, 2), n(2, 1), n(1, 2)]
    cgrid = ["x3d", "y3d", "z3d", "redges", "rmid", "nside"]
    out.append(Kind("densegrid.Cube2Shell", cube, [m("setup_polar", 0., .9, 1, 1, center=[.1, 0., 0.]),
                    m("setup_polar", .3, 1.5, n(1, 2), 1, center=[-.4, .2, .1], rebin_shell=1, rebin_r=3, periodicx=[-1, 1], periodicz=[0, 1])],
                    [m("setup_cube", 0., 1., 0, 0., 1., 1, 0., 1., 1), m("setup_polar", 1., 1., 2, 1)], ["remap", "grid"], cube_dims, None, cgrid, ordered=True))
    out.append(Kind("montecarlo.Cube2Shell", cube, [m("setup_polar_lin", 0., .9, 1, 1, center=[.1, 0., 0.]),
                    m("setup_polar_log", .3, 1.5, n(1, 2), 1, center=[-.4, .2, .1], addzero=True)],
                    [m("setup_cube", 0., 1., 0, 0., 1., 1, 0., 1., 1), m("setup_polar_log", 0., 1., 2, 1)], ["remap", "remapw", "grid"], cube_dims, None, cgrid, mc=True))
    maps = [m("setup_map", 1), m("setup_map", 2)]

    def map_dims(k):
        return [12*k*k]
    bad_map = m("setup_map", 0)
    cap = [m("setup_polar_cap", 0., 1.2, 2, 3, center=[1., .6]), m("setup_polar_cap", .2, 2., n(2, 3), n(3, 2), center=[4., 2.], beta_shift=1.)]
    cap[1]["kw"].update(rebin_alpha=1, rebin_beta=2)      # as many sample points as the small map has pixels
    hgrid = ["alpha_edges", "beta_edges", "alpha2d", "beta2d", "nside"]
    hops = ["remap", "remapw", "radial", "radials", "rotate", "grid"]

    def cap_out(k):
        return [3, 2] if k == 1 else [n(3, 2), n(2, 3)]
    out.append(Kind("densegrid.Heal2Ring", maps, cap, [bad_map, m("setup_polar_cap", 1., 1., 2, 2)], hops, map_dims, cap_out, hgrid, ordered=True))
    mcap = [cap[0], m("setup_polar_cap", .2, 2., n(2, 3), n(3, 2), center=[4., 2.], beta_shift=1.)]
    out.append(Kind("montecarlo.Heal2Ring", maps, mcap, [bad_map, m("setup_polar_cap", 0., 1., 0, 2)], hops, map_dims, cap_out, hgrid, mc=True))
    xgrid = ["xedges", "yedges", "x2d", "y2d", "nside"]
    hbox = [m("setup_box", 1., 2, center=[1., 1.]), m("setup_box", 1.6, n(2, 3), center=[3., 2.], alpha=.5, y_length=1.1, y_grid=2)]
    dbox = [hbox[0], m("setup_box", 1.6, n(2, 3), center=[3., 2.], alpha=.5, y_length=1.1, y_grid=2, rebin_x=1, rebin_y=3)]
    out.append(Kind("densegrid.Heal2Polar", maps, dbox, [bad_map, m("setup_box", 7., 2)], ["remap", "remapw", "grid"], map_dims, None, xgrid, ordered=True))
    out.append(Kind("montecarlo.Heal2Polar", maps, hbox, [bad_map, m("setup_box", 1., 0)], ["remap", "remapw", "grid"], map_dims, None, xgrid, mc=True))
    obox = [m("setup_box", 2., 2, center=[1., 1.]), m("setup_box", 1.6, n(2, 3), center=[3., 2.], y_length=1.1, y_grid=2, rebin_x=1, rebin_y=2, radius=.9)]
    ask = m("transform", {"f": [.3, 2., 4., 5.5]}, {"f": [.4, 1., 2., 2.8]})
    out.append(Kind("densegrid.Heal2Ortho", maps, obox, [bad_map, m("setup_box", 1., 0)], ["remap", "remapw", "grid", "there"], map_dims,
                    lambda k: [ask], xgrid + ["onsphere"], ordered=True))
    view = [m("setup", [0., 1., 2.], [3., 1., 1.], 1.5, .4), m("setup", [1., -2., 0.], [1., 1., 4.], 2.)]
    out.append(Kind("densegrid.PointOfView", view, [], [], ["there", "back"], None,
                    lambda k: [m("transform", {"f": [5., 6., 7.]}, {"f": [1., 2., 0.5]}, {"f": [7., 8., 6.]}), m("reverse", {"f": [.1, -.2]}, {"f": [.3, .1]}, {"f": [2., 3.]})]))
    return out


def script(kd, hist, ready, objects):
    """The calls of a history, and for each of them what to compare with: (position, key)."""
    steps, plan = [], []
    now = {n: [0, 0] for n in range(1, objects + 1)}
    if ready:
        for n in now:
            now[n] = [1, 1 if kd.tgt else 0]
            steps.append(dict(kd.src[0], obj=n))
            if kd.tgt:
                steps.append(dict(kd.tgt[0], obj=n))
            if kd.mc:
                steps.append(dict(kd.weigh(1), obj=n))
    for k in range(len(steps)):
        plan.append((k, ("fine",)))
    for turn, (n, what, k, says) in enumerate(hist):
        at = len(steps)
        if what == "src":
            steps.append(dict(kd.src[k - 1], obj=n))
            now[n][0] = k
        elif what == "tgt":
            steps.append(dict(kd.tgt[k - 1], obj=n))
            now[n][1] = k
        elif what == "clean":
            steps += [{"m": "clean", "obj": n}, {"dict": 1, "obj": n}]
            plan.append((at + 1, ("new",)))
            now[n] = [0, 0]
        elif what == "weigh":
            steps.append(dict(kd.weigh(k), obj=n))
        elif what == "save":
            steps.append({"save": "ind_", "obj": n})
        elif what == "put":
            steps.append({"put": 1, "obj": n})
        elif what == "bad":
            steps.append(dict(kd.bad[k - 1], obj=n))
        else:
            steps += [dict(x, obj=n) for x in kd.ask(what, *now[n], turn % 2)]
        if what == "bad" or says[0] == "refused":
            plan.append((at, ("refused",)))
            continue
        plan.append((at, ("fine",)))
        if says[0] == "says":
            plan.append((len(steps) - 1, (what, *says[1:], turn % 2)))
    return steps, plan


def equal(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return (math.isnan(a) and math.isnan(b)) or near(b, a, 1e-11)
    return a == b


def questions(kds):
    """What to ask new objects: every class, setup, question and set of weights."""
    for kd in kds:
        yield (kd, ("new",)), [{"dict": 1}]
        for op in kd.ops:
            for s in range(1, len(kd.src) + 1):
                for t in range(1, len(kd.tgt) + 1) if kd.tgt else [0]:
                    weighs = kd.mc and (op in ("remap", "remapw", "mask") or (kd.masked and op in ("radial", "radials")))
                    for k in (1, 2) if weighs else (0,):
                        for j in (0, 1):
                            yield ((kd, (op, s, t, k, j)),
                                   [kd.src[s - 1]] + ([kd.tgt[t - 1]] if t else []) + ([kd.weigh(k)] if k else []) + kd.ask(op, s, t, j))


def lives(ctx, kds, depth, ready, objects, most=None):
    """Histories of these classes: all of a depth, or a number of random ones per class."""
    extra = ("-simulate", "num=%d" % (len(kds)*most*2), "-depth", str(depth + 2), "-seed", str(ctx.seed)) if most else ()
    recs = ctx.tlc("Life", [kd.case(depth, ready, objects) for kd in kds], workers=1 if most else 8, heap="8g", extra=extra)
    if most:      # TLC shows every last call of each life
        recs.sort(key=repr)
        random.Random(ctx.seed).shuffle(recs)
        seen, keep = {}, {}
        for r in recs:
            if seen.get(r["i"], 0) < most and keep.setdefault(repr((r["i"], r["hist"][:-1])), r) is r:
                seen[r["i"]] = seen.get(r["i"], 0) + 1
        recs = list(keep.values())
    elif not ctx.thorough:      # a part of the classes with very many
        recs.sort(key=repr)
        per = {}
        for r in recs:
            per.setdefault(r["i"], []).append(r)
        recs = [r for i in sorted(per) for r in (per[i] if len(per[i]) <= 9000 else random.Random(ctx.seed).sample(per[i], 9000))]
    return [(kds[r["i"] - 1], r["hist"], *script(kds[r["i"] - 1], r["hist"], ready, objects)) for r in recs]


def check(ctx, mc):
    rng = ctx.rng
    alike, other = [[k for k in kinds(rng, same) if k.mc == mc] for same in (True, False)]
    todo = lives(ctx, alike, ctx.pick(4, 5), True, 1) + lives(ctx, other, ctx.pick(3, 4), True, 1)
    # long lives of two objects, from the start
    todo += lives(ctx, alike, 16, False, 2, ctx.pick(200, 1500)) + lives(ctx, other, 16, False, 2, ctx.pick(200, 1500))
    asked = list(questions(alike + other))
    outs = ctx.drive("objects", [{"cls": k[0].cls, "steps": r} for k, r in asked], jobs=4, env={"WORKER_FORK": "1"})
    outs += ctx.drive("objects", [{"cls": t[0].cls, "steps": t[2]} for t in todo], jobs=8)
    ref = {}
    for ((kd, key), steps), o in zip(asked, outs):
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail("a new %s does not answer" % kd.cls, {"question": key, "steps": steps}, None, o)
            ref[kd] = None
        elif ref.setdefault(kd, {}) is not None:
            ref[kd][key] = o["ok"][-1]["r"]
    told = {}
    for (kd, hist, steps, plan), o in zip(todo, outs[len(asked):]):
        if not ref[kd]:
            continue
        if "ok" not in o:
            ctx.fail("%s crashes" % kd.cls, [h[:3] for h in hist], None, o)
            continue
        bad = None
        for at, key in plan:
            x = o["ok"][at]
            if key == ("refused",):
                if "exc" not in x:
                    bad = ("is not refused", steps[at], key, x)
            elif "exc" in x:
                bad = ("fails", steps[at], key, x)
            elif key != ("fine",) and not equal(ref[kd][key], x["r"]):
                bad = ("answers unlike a new object with the latest setups", steps[at], [key, ref[kd][key]], x)
            if bad:
                break
        if bad:
            told[kd.cls] = told.get(kd.cls, 0) + 1
            if told[kd.cls] <= 3:
                ctx.fail("%s: a call %s" % (kd.cls, bad[0]), {"history": [h[:3] for h in hist], "at": bad[1]}, bad[2], bad[3])
        else:
            ctx.seen(kd.cls, hist)
    n = {}
    for t in todo:
        n[t[0].cls] = n.get(t[0].cls, 0) + 1
    ctx.notes["histories"] = n
    ctx.notes["distinct_answers"] = {kd.cls: [len({repr(v) for v in r.values()}), len(r)] for kd, r in ref.items() if r}
    ctx.sample({"class": todo[0][0].cls, "history": todo[0][1]})
    ctx.sample({"class": todo[-1][0].cls, "history": todo[-1][1]})


def H01(ctx):
    check(ctx, False)


def H02(ctx):
    check(ctx, True)
