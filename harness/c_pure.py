"""Calls without memory and without side effects: property N01."""
import concurrent.futures
import importlib
import json
import math
import shutil
import core
import registry
from c_life import equal, kinds
from core import near

PI = math.pi
LAYOUTS = ("plain", "frozen", "strided", "reversed", "fortran")


def F(*v):
    return {"f": list(v)}


def I(*v):
    return {"i": list(v)}


def c(fn, *args, **kw):
    seed = kw.pop("seed", None)
    d = {"fn": fn, "args": list(args), "kw": kw}
    if seed is not None:
        d["seed"] = seed
    return d


def catalogue():
    """Groups of questions: the same function with different arguments, mostly one function a group."""
    x, y, z = F(.5, -1.25, 2., 0.), F(1., .75, -.5, 2.), F(-.5, .25, 1., 3.)
    phi, theta = F(.3, 2., 4.5, 6.), F(.4, 1., 2., 2.9)
    f2 = {"f": [[1., 2., 0.], [4., -1., .5], [3., 2., 2.]]}
    f3 = {"f": [[[1., 2.], [3., 4.]], [[0., 1.], [-1., 5.]]]}
    g = []
    g.append([c("coords.cart2polar", x, y), c("coords.cart2polar", f2, f2, center=[.3, -1.]), c("coords.polar2cart", F(1., 2., .5), F(.2, 3., 5.)),
              c("coords.polar2cart", f2, f2, center=[1., 2.])])
    g.append([c("coords.cart2sphere", x, y, z), c("coords.cart2sphere", f3, f3, f3, center=[.3, -1., 2.]), c("coords.sphere2cart", F(1., 2.), F(.2, 3.), F(.4, 2.)),
              c("coords.sphere2cart", F(1., 2.), F(.2, 3.), F(.4, 2.), center=[1., 0., .5])])
    g.append([c("coords.ortho2cart", F(.5, 0., 1.5), F(.1, .2, .3)), c("coords.ortho2cart", f2, f2, r=2., fill_value=-1.)])
    g.append([c("coords.healpix_ang2xy", phi, theta), c("coords.healpix_ang2xy", 1., 2.), c("coords.healpix_xy2ang", F(.5, 2., 4.), F(.1, 1., -.9))])
    g.append([c("coords.sphere2lonlat", theta), c("coords.lonlat2sphere", F(.2, -1.)), c("coords.usphere_area", .1, 2., .3, 1.)])
    g.append([c("coords.rotate_polar", phi, 1.5), c("coords.rotate_polar", phi, 5.)])
    e = [k*PI/3 for k in range(7)]
    pol = {"f": [[1., 2.], [3., 0.], [4., 5.], [-1., 2.], [0., 0.], [2., 7.]]}
    g.append([c("coords.rotate_polar_grid", F(*e), pol, .4), c("coords.rotate_polar_grid", F(*e), pol, 3.)])
    g.append([c("coords.usphere_rotate", phi, theta, 1., 2.), c("coords.usphere_rotate", phi, theta, 4., .5, phi_start=.3, theta_start=.2)])
    g.append([c("coords.usphere_phi_shift", phi, 1.), c("coords.usphere_phi_shift", phi, -4.), c("coords.usphere_phi_shift", phi, 0.)])
    g.append([c("coords.usphere_shift", phi, theta, .3, .4, 1., 2.), c("coords.usphere_shift", phi, theta, 5., 2., 1., 0.), c("coords.usphere_shift", phi, theta, 0., 0., 0., 0.)])
    g.append([c("coords.usphere_spin", phi, theta, .3, .4, 1.), c("coords.usphere_spin", phi, theta, 5., 2., 4.), c("coords.usphere_spin", phi, theta, 5., 2., 0.)])
    g.append([c("grids.get_xedges", 2., 4), c("grids.xedges2mid", F(0., 1., 3., 4.)), c("grids.xmid2edges", F(.5, 1.5, 2.5)), c("grids.grid1d", 3., 4, return_edges=True)])
    g.append([c("grids.grid2d", 2., 3), c("grids.grid2d", [2., 3.], [2, 3], mins=[1., -1.]), c("grids.grid2d", [2., 3.], 2, return1d=True)])
    g.append([c("grids.grid3d", 2., 3), c("grids.grid3d", [2., 3., 1.], [2, 3, 1], mins=[1., -1., 0.]), c("grids.grid3d", [2., 3., 1.], 2, return1d=True)])
    g.append([c("grids.polargrid", 2, 3), c("grids.polargrid", 2, 3, rmin=.5, rmax=2., return1d=True), c("grids.polarEA_grid", 3), c("grids.polarEA_grid", 2, rmax=3., base_nphi=3)])
    be, nb = F(0., 1., 2., 3., 4.), F(.5, 1.25, 3.5)
    d, s, w = F(1., 3., -2., 5.), F(.5, .25, 1., 2.), F(1., 2., .5, 1.)
    g.append([c("one_d.rebin_1d", be, d, nb), c("one_d.rebin_1d", be, d, nb, w=w), c("one_d.rebin_1d", be, d, nb, sigma=s), c("one_d.rebin_1d", be, d, nb, w=w, sigma=s)])
    g.append([c("pixel.get_square", 0., 1., 2., 3., steps=8), c("pixel.get_arc", 2., center=[1., 0.], steps=5), c("pixel.get_disc", .5, 1., 0., 2., steps=12),
              c("pixel.get_disc", center=[1., 2.], steps=8)])
    g.append([c("pixel.get_box", 0., 1., 0., 2., 0., 3., steps=24), c("pixel.get_box", 0., 1., 0., 2., 0., 3., steps=24, return_nearest=True, center=[-3., -3., -2.])])
    g.append([c("pixel.healpix_boundary", 5, 2, steps=8), c("pixel.healpix_boundary_top", 30, 2, steps=8), c("pixel.healpix_boundary_bot", 30, 2, steps=8, reverse=True)])
    p = I(0, 5, 17, 30, 47)
    g.append([c("pixel.healpix_pix2ij", p, 2), c("pixel.healpix_ij2pix", I(1, 2, 4, 7), I(1, 3, 8, 2), 2), c("pixel.healpix_pix2xy", p, 2), c("pixel.healpix_ij2xy", I(1, 2, 4, 7), I(1, 3, 8, 2), 2)])
    g.append([c("pixel.healpix_i2id", I(1, 2, 4, 7), 2), c("pixel.healpix_j2jd", I(1, 2, 4, 7), I(1, 3, 8, 2), 2), c("pixel.healpix_ijd2ijs", I(3, 2), I(2, 5), 2),
              c("pixel.healpix_ijs_neighbours", 1, 1, 2)])
    r, pe = F(0., 1., 2.5), F(*[k*PI/2 for k in range(5)])
    q, sg, ww = ({"f": [[a + .5*b for b in range(2)] for a in range(4)]}, {"f": [[.1*a + .2*b for b in range(2)] for a in range(4)]}, {"f": [[1. + (a + b) % 2 for b in range(2)] for a in range(4)]})
    ar = {"f": [[.5, 2.], [.5, 2.], [.5, 2.], [.5, 2.]]}
    g.append([c("polar.get_polar_area2d", r, pe), c("polar.get_pixarea", F(0., 1., 2.), F(0., .5, 1.)), c("polar.polar2radial", q, ar, .5), c("polar.polar2radial", q, ar, .5, w=ww)])
    g.append([c("polar.polar2radial", q, ar, .5, sigma=sg), c("polar.polar2radial", q, ar, .5, sigma=sg, w=ww), c("polar.cumulative_radial", r, F(1., 2.)), c("polar.cumulative_radial", r, F(1., 2.), sigma=F(.1, .3))])
    for sd in (3,):
        g.append([c("randoms.randoms_1d", 4, seed=sd), c("randoms.randoms_2d", 4, mins=[1., 2.], maxs=[2., 4.], seed=sd), c("randoms.randoms_2d", 3, seed=sd), c("randoms.randoms_3d", 3, seed=sd)])
        g.append([c("randoms.pdf2cdf", F(.5, 1.5, 2.5, 3.5), F(1., 3., 2., 1.)), c("randoms.randoms_pdf", F(.5, 1.5, 2.5, 3.5), F(1., 3., 2., 1.), 4, seed=sd),
                  c("randoms.randoms_cdf", F(0., 1., 2., 3., 4.), F(0., .25, .5, .75, 1.), 4, seed=sd), c("randoms.randoms_cdf", F(0., 1., 2.), F(0., .25, 1.), 4, kind="linear", seed=sd)])
        g.append([c("randoms.randoms_polar", 3, seed=sd), c("randoms.randoms_sphere_r", 3, r_min=.5, seed=sd), c("randoms.randoms_sphere", 3, seed=sd), c("randoms.randoms_usphere", 3, seed=sd)])
        g.append([c("randoms.randoms_healpix_pixel", 4, 0, 2, seed=sd), c("randoms.randoms_healpix_pixel", 4, 20, 2, seed=sd)])
        sam, pr = F(5., 1., 4., 2., 9.), F(.2, .9, 0., 1., .5)
        g.append([c("randoms.shuffle", sam, seed=sd), c("randoms.random_draw", sam, 3, seed=sd), c("randoms.random_prob_draw", sam, pr, seed=sd),
                  c("randoms.random_prob_draw", sam, F(.2, .9, .1, 1., .5), size=3, seed=sd)])
        g.append([c("randoms.stochastic_integer_weights", F(.5, 1.25, 2., 0., 3.75), seed=sd), c("randoms.stochastic_binary_weights", F(.5, 1.25, 2., 0., .75), seed=sd)])
    g.append([c("remap.grid2grid1D", F(1., 2., 3., 4.), 2., 3), c("remap.grid2grid1D", F(1., 2., 3., 4.), 2., 3, origin=.5, originout=-.25, boxsizeout=2.5)])
    n2 = {"f": [[1., 2., 0., 1.], [4., -1., .5, 3.], [3., 2., 2., 7.]]}
    g.append([c("remap.grid2grid2D", f2, 2., 2), c("remap.grid2grid2D", n2, [2., 3.], [2, 3], origin=[.5, 0.], originout=[0., -.25], boxsizeout=[2.5, 2.])])
    n3 = {"f": [[[1. + a*b + k for k in range(4)] for b in range(3)] for a in range(2)]}
    g.append([c("remap.grid2grid3D", f3, 2., 2), c("remap.grid2grid3D", n3, [2., 3., 1.], [2, 3, 2], origin=[.5, 0., 0.], originout=[0., -.25, .1], boxsizeout=[2.5, 2., 1.])])
    g.append([c("pixel.healpix_ijs2ijd", I(1, 2), I(3, 2), 2), c("one_d.rebin_1d_single_bin_weights", be, .5, 2.25), c("one_d.rebin_1d_single_bin_weights", be, 1., 7.)])
    g.append([c("utils.is_pos_monotonic", F(1., 2., 3.)), c("utils.is_pos_monotonic", F(1., 3., 2.))])
    return g


def blame(o, ref):
    if "exc" in o:
        return "fails"
    if o.get("mut"):
        return "changes its arguments"
    if o.get("std"):
        return "changes its default arguments"
    if not equal(ref, o["r"]):
        return "gives another answer"
    return None


ECHO = ["C01", "C02", "C03", "C04", "C05", "C06", "G01", "G02", "G03", "M01", "M02", "M03", "P01", "P02", "P03", "P05", "Q01", "Q02", "Q03", "D06", "U01"]
ECHO_MORE = ["D01", "D03", "D04", "D05", "E01"]


def N01(ctx):
    groups = catalogue()
    depth = ctx.pick(2, 3)
    recs = ctx.tlc("Pure", [{"calls": len(g), "layouts": len(LAYOUTS), "depth": depth} for g in groups], workers=8)
    ref = ctx.calls([dict(q) for g in groups for q in g])
    it = iter(ref)
    ref = [[next(it) for _ in g] for g in groups]
    for g, a in zip(groups, ref):
        for q, o in zip(g, a):
            b = blame(o, o.get("r"))
            if b:
                ctx.fail("%s %s" % (q["fn"], b), q, None, o)
                o["r"] = None
    cases = []
    for r in recs:
        g = groups[r["i"] - 1]
        cases.append([dict(g[k - 1], layout=LAYOUTS[l - 1], spoil=1) for k, l, _ in r["hist"]])
    told = set()
    for r, q, o in zip(recs, cases, ctx.drive("calls", [{"calls": q} for q in cases], jobs=8)):
        if "ok" not in o:
            ctx.fail("crash", q, None, o)
            continue
        for (k, l, _), call, x in zip(r["hist"], q, o["ok"]):
            want = ref[r["i"] - 1][k - 1]
            b = blame(x, want["r"]) if want["r"] is not None else None
            if b:
                if (call["fn"], b) not in told:
                    told.add((call["fn"], b))
                    ctx.fail("%s %s" % (call["fn"], b), q, want, x)
                break
        else:
            ctx.seen(r["i"], r["hist"])
    ctx.sample({"history": recs[0]["hist"], "calls": cases[0]})
    objects(ctx)
    echo(ctx)


class Echo(core.Ctx):
    """Another property's check, run for the calls it makes: these keep, its verdicts do not count."""
    def __init__(self, pid, parent):
        super().__init__(pid)
        self.tier, self.thorough, self.target, self.heard, self.findings = "quick", False, parent.target, [], []

    def drive(self, driver, cases, **kw):
        out = super().drive(driver, cases, **kw)
        if driver in ("calls", "objects") and not kw.get("env"):
            self.heard += [(driver, q, o["ok"]) for q, o in zip(cases, out) if "ok" in o]
        return out

    def fail(self, *args, **kw):
        pass


def listen(ctx, pids):
    """The calls and scripts of these checks, with what came out."""
    def one(pid):
        e = Echo(pid, ctx)
        try:
            mod, fn = registry.CHECKS[pid]
            getattr(importlib.import_module(mod), fn)(e)
        except core.BuildBroken:
            raise
        except Exception:      # the other check's own matter, what it asked so far counts
            pass
        finally:
            shutil.rmtree(e.tmp, ignore_errors=True)
        return e
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        es = list(pool.map(one, pids))
    for e in es:
        ctx.states += e.states
        ctx.transitions += e.transitions
        ctx.runs += [dict(r, of=e.pid) for r in e.runs]
        ctx.validated += e.validated
    return [h for e in es for h in e.heard]


def size(x):
    return len(json.dumps(x))


def echo(ctx):
    """The questions the other specifications put to the code: arguments and defaults untouched, and the
    same answer in another order and however the arrays lie in memory."""
    heard = listen(ctx, ECHO + (ECHO_MORE if ctx.thorough else []))
    told = set()

    def tell(what, b, case, want, got):
        if (what, b) not in told:
            told.add((what, b))
            ctx.fail("%s %s" % (what, b), case, want, got)
    byfn, scripts = {}, {}
    for driver, q, out in heard:
        if driver == "calls":
            for call, o in zip(q["calls"], out):
                if o.get("mut") or o.get("std"):
                    tell(call["fn"], blame(o, o.get("r")), call, None, o)
                elif "exc" not in o and "layout" not in call:
                    byfn.setdefault(call["fn"], {}).setdefault(json.dumps(call), (call, o))
        else:
            fine = True
            for st, o in zip(q["steps"], out):
                if o.get("mut") or o.get("std"):
                    tell("%s.%s" % (q["cls"], st.get("m", st.get("fn"))), blame(o, o.get("r")), q, None, o)
                fine = fine and "exc" not in o and "layout" not in st
            if fine:
                scripts.setdefault(q["cls"], {}).setdefault(json.dumps(q), (q, out))
    most = ctx.pick(60, 400)
    groups = []
    for fn in sorted(byfn):
        g = [v for k, v in sorted(byfn[fn].items()) if len(k) < 20000]
        # the forms of a question: how many arguments, of which kinds, which names
        forms = {}
        for v in g:
            forms.setdefault(repr([form(a) for a in v[0].get("args", [])]) + repr(sorted(v[0].get("kw", {}))), []).append(v)
        per = max(4, most//max(1, len(forms)))
        groups.append([v for k in sorted(forms) for v in (forms[k] if len(forms[k]) <= per else ctx.rng.sample(forms[k], per))])
    recs = ctx.tlc("Pure", [{"calls": len(g), "layouts": len(LAYOUTS), "depth": 1} for g in groups], workers=8)
    asked = [(r["i"] - 1, *r["hist"][0][:2]) for r in recs]
    ctx.rng.shuffle(asked)
    back = ctx.calls([dict(groups[g][k - 1][0], layout=LAYOUTS[l - 1], spoil=1) for g, k, l in asked], batch=100, jobs=8)
    for (g, k, l), o in zip(asked, back):
        call, was = groups[g][k - 1]
        b = blame(o, was["r"])
        if b:
            tell(call["fn"], b, dict(call, layout=LAYOUTS[l - 1]), was, o)
        else:
            ctx.seen("echo", call["fn"], k, l)
    runs = []
    for cls in sorted(scripts):
        g = [v for k, v in sorted(scripts[cls].items()) if len(k) < 60000]
        g = g if len(g) <= most//2 else ctx.rng.sample(g, most//2)
        for q, out in g:
            lay = ctx.rng.choice(LAYOUTS[1:])
            runs.append(({"cls": cls, "steps": [dict(s, layout=lay if n % 2 else ctx.rng.choice(LAYOUTS[1:])) for n, s in enumerate(q["steps"])]}, out))
    for (q, out), o in zip(runs, ctx.drive("objects", [r[0] for r in runs], jobs=8)):
        if "ok" not in o:
            tell(q["cls"], "crashes", q, None, o)
            continue
        for st, was, now in zip(q["steps"], out, o["ok"]):
            b = blame(now, was["r"])
            if b:
                tell("%s.%s" % (q["cls"], st.get("m", st.get("fn", "attributes"))), b, q, was, now)
                break
        else:
            ctx.seen("echo", q["cls"], size(q))
    ctx.notes["echoed"] = {"functions": len(groups), "calls": len(asked), "classes": len(scripts), "scripts": len(runs)}


def form(a):
    if isinstance(a, dict):
        for k in a:
            if k in "fivF":
                return k + str(a.get("as", "")) + (str(min(3, len(core.shape(a[k])))) + ("s" if 1 in core.shape(a[k]) else ""))
        return "d"
    return type(a).__name__


def objects(ctx):
    """The same for the methods of the remappers."""
    todo, keys = [], []
    kds = kinds(ctx.rng, False)
    recs = ctx.tlc("Pure", [{"calls": len(kd.ops), "layouts": len(LAYOUTS), "depth": 2} for kd in kds], workers=8)
    for kd in kds:
        for s, t in ((1, 1), (2, 2)):
            setup = [kd.src[s - 1]] + ([kd.tgt[t - 1]] if kd.tgt else []) + ([kd.weigh(1)] if kd.mc else [])
            for op in kd.ops:
                todo.append({"cls": kd.cls, "steps": setup + kd.ask(op, s, t)})
                keys.append((kd, s, op))
    n = len(todo)
    plans = []
    for r in recs:
        kd = kds[r["i"] - 1]
        s = 1 + (r["hist"][0][1] + r["hist"][1][1]) % 2
        steps = [kd.src[s - 1]] + ([kd.tgt[s - 1]] if kd.tgt else []) + ([kd.weigh(1)] if kd.mc else [])
        plan = []
        for k, l, _ in r["hist"]:
            steps = steps + [dict(x, layout=LAYOUTS[l - 1]) for x in kd.ask(kd.ops[k - 1], s, s)]
            plan.append((len(steps) - 1, (kd, s, kd.ops[k - 1])))
        plans.append(plan)
        todo.append({"cls": kd.cls, "steps": steps})
    outs = ctx.drive("objects", todo, jobs=8)
    ref = {}
    for k, o, q in zip(keys, outs[:n], todo):
        if "ok" not in o or any("exc" in x for x in o["ok"]):
            ctx.fail("%s does not answer" % k[0].cls, q, None, o)
        else:
            ref[k] = o["ok"][-1]["r"]
    told = set()
    for plan, o, q in zip(plans, outs[n:], todo[n:]):
        if "ok" not in o:
            ctx.fail("crash", q, None, o)
            continue
        found = []
        for st, x in zip(q["steps"], o["ok"]):
            b = blame(x, x.get("r"))
            if b:
                found.append((st.get("m"), b, st, x))
        for at, key in plan:
            if not found and key in ref and blame(o["ok"][at], ref[key]):
                found.append((key[2], "gives another answer", q["steps"][at], o["ok"][at]))
        for what, b, st, x in found:
            if (q["cls"], what, b) not in told:
                told.add((q["cls"], what, b))
                ctx.fail("%s.%s %s" % (q["cls"], what, b), q, None, x)
        if not found:
            ctx.seen(q["cls"], plan[0][1][1:], plan[1][1][1:])


def whole():
    """Questions whose arguments are whole numbers: A(...) arrays, N(...) scalars that need not be integers by nature."""
    def A(*v):
        return {"v": list(v)}

    def N(v):
        return {"v": v}
    turn = [k*PI/2 for k in range(5)]
    x, y, z, ph, th = A(3, -1, 0, 2), A(4, 2, 1, -2), A(1, 2, -5, 3), A(0, 1, 5, 6), A(1, 2, 3, 1)
    f2, f3 = A([1, 2], [3, 4]), A([[1, 2], [3, 4]], [[0, -1], [5, 2]])
    q = [c("coords.cart2polar", x, y), c("coords.cart2polar", N(3), N(4)), c("coords.cart2polar", x, y, center=[N(1), N(1)]), c("coords.polar2cart", A(1, 2, 3), A(0, 1, 5)),
         c("coords.polar2cart", N(2), N(1), center=[N(1), N(0)]), c("coords.cart2sphere", x, y, z), c("coords.cart2sphere", N(1), N(2), N(3), center=[N(2), N(0), N(1)]),
         c("coords.sphere2cart", A(1, 2), A(0, 4), A(1, 3)), c("coords.sphere2cart", N(2), N(1), N(1)), c("coords.ortho2cart", A(0, 1, 2), A(1, 0, 2), r=N(3)),
         c("coords.ortho2cart", N(1), N(1), r=N(2)), c("coords.healpix_ang2xy", ph, th), c("coords.healpix_ang2xy", N(5), N(1)), c("coords.healpix_xy2ang", A(1, 2, 4), A(0, 1, -1)),
         c("coords.healpix_xy2ang", N(1), N(1)), c("coords.sphere2lonlat", th), c("coords.lonlat2sphere", A(1, -1)), c("coords.sphere2lonlat", N(1)), c("coords.usphere_area", N(0), N(1), N(1), N(2)),
         c("coords.rotate_polar", ph, N(2)), c("coords.rotate_polar", N(5), N(2)), c("coords.rotate_polar_grid", F(*turn), A([1, 2], [3, 0], [5, 6], [-1, 2]), N(1)),
         c("coords.usphere_rotate", ph, th, N(1), N(2)), c("coords.usphere_rotate", N(1), N(2), N(3), N(1), phi_start=N(2), theta_start=N(1)),
         c("coords.usphere_phi_shift", ph, N(2)), c("coords.usphere_phi_shift", ph, N(-2)), c("coords.usphere_phi_shift", N(1), N(-2)), c("coords.usphere_phi_shift", N(6), N(3)),
         c("coords.usphere_shift", ph, th, N(1), N(2), N(3), N(1)), c("coords.usphere_shift", N(1), N(2), N(1), N(2), N(3), N(1)),
         c("coords.usphere_spin", ph, th, N(1), N(2), N(3)), c("coords.usphere_spin", N(1), N(1), N(1), N(2), N(3)),
         c("grids.get_xedges", N(3), 2, xmin=N(1)), c("grids.xedges2mid", A(0, 1, 3, 4)), c("grids.xmid2edges", A(1, 4, 7)), c("grids.grid1d", N(3), 2), c("grids.grid2d", [N(3), N(2)], [2, 1], mins=[N(1), N(2)]),
         c("grids.grid2d", N(3), 2), c("grids.grid3d", [N(3), N(2), N(1)], [2, 1, 2], mins=[N(1), N(2), N(0)]), c("grids.polargrid", 2, 3, rmin=N(1), rmax=N(2), phimin=N(1), phimax=N(4)),
         c("grids.polarEA_grid", 2, rmax=N(3)), c("grids.polarEA_area", 2, rmax=N(3)),
         c("one_d.rebin_1d", A(0, 1, 2, 4), A(3, 1, 2), A(0, 3, 5)), c("one_d.rebin_1d", A(0, 1, 2, 4), A(3, 1, 2), A(0, 3, 5), w=A(1, 2, 1), sigma=A(1, 1, 3)),
         c("pixel.get_square", N(0), N(1), N(2), N(3), steps=8), c("pixel.get_arc", N(2), phimin=N(1), phimax=N(3), center=[N(1), N(2)]), c("pixel.get_disc", N(1), N(2), N(0), N(3), center=[N(1), N(2)], steps=8),
         c("pixel.get_box", 0, 1, 0, N(2), 0, N(3), steps=24, return_nearest=True, center=[N(-3), N(-2), N(-1)]),
         c("polar.get_polar_area2d", A(0, 1, 3), A(0, 2, 6)), c("polar.get_pixarea", A(0, 1, 2), A(0, 3, 6)),
         c("polar.polar2radial", A([1, 2], [4, 5], [0, 2]), A([2, 3], [2, 3], [2, 3]), N(2)), c("polar.polar2radial", A([1, 2], [4, 5], [0, 2]), F([2., 3.], [2., 3.], [2., 3.]), 2., sigma=A([1, 2], [3, 5], [0, 2]), w=A([1, 2], [3, 1], [2, 2])),
         c("polar.cumulative_radial", A(0, 1, 3), A(2, 5)), c("polar.cumulative_radial", A(0, 1, 3), A(2, 5), sigma=A(1, 2)),
         c("randoms.pdf2cdf", A(1, 3, 5, 7), A(1, 3, 0, 2)), c("randoms.randoms_1d", 4, xmin=N(1), xmax=N(3), seed=1), c("randoms.randoms_2d", 4, mins=[N(1), N(2)], maxs=[N(2), N(5)], seed=1),
         c("randoms.randoms_3d", 4, mins=[N(1), 2, 0], maxs=[2, N(5), N(1)], seed=1), c("randoms.randoms_polar", 4, r_min=N(1), r_max=N(2), phi_min=N(1), phi_max=N(3), seed=1),
         c("randoms.randoms_sphere_r", 4, r_min=N(1), r_max=N(2), seed=1), c("randoms.randoms_sphere", 4, r_min=N(1), r_max=N(2), theta_min=N(1), theta_max=N(2), seed=1),
         c("randoms.randoms_usphere", 4, phi_min=N(1), phi_max=N(2), theta_min=N(1), theta_max=N(2), seed=1), c("randoms.randoms_pdf", A(1, 3, 5, 7), A(1, 3, 1, 2), 5, seed=1),
         c("randoms.randoms_cdf", A(0, 1, 2), F(0., .5, 1.), 5, kind="linear", seed=1), c("randoms.shuffle", A(1, 2, 3, 4), seed=1), c("randoms.random_draw", A(1, 2, 3, 4), 2, seed=1),
         c("randoms.random_prob_draw", A(1, 2, 3, 4), A(1, 0, 1, 1), seed=1), c("randoms.random_prob_draw", A(1, 2, 3, 4), A(1, 2, 3, 1), size=2, seed=1),
         c("randoms.stochastic_integer_weights", A(1, 2, 0), seed=1), c("randoms.stochastic_binary_weights", A(1, 2, 0), seed=1), c("randoms.stochastic_integer_weights", N(2), seed=1),
         c("remap.grid2grid1D", A(1, 2, 3, 4), N(2), 3, origin=N(1), originout=N(0), boxsizeout=N(4)), c("remap.grid2grid2D", f2, N(2), 3, origin=N(1), originout=N(0), boxsizeout=N(4)),
         c("remap.grid2grid2D", f2, [N(2), N(3)], [3, 1]), c("remap.grid2grid3D", f3, N(2), 3, origin=N(1), boxsizeout=N(4)), c("utils.is_pos_monotonic", A(1, 2, 3)), c("utils.is_pos_monotonic", A(1, 3, 2))]
    p = A(0, 5, 30)
    return q, [c("pixel.healpix_pix2ij", p, 2), c("pixel.healpix_pix2xy", p, 2), c("pixel.healpix_ij2pix", A(1, 3, 5), A(2, 1, 7), 2), c("pixel.healpix_ij2xy", A(1, 3, 5), A(2, 1, 7), 2),
               c("pixel.healpix_i2id", A(1, 3, 5), 2), c("pixel.healpix_j2jd", A(1, 3, 5), A(2, 1, 7), 2), c("pixel.healpix_ijd2ijs", A(3, 2), A(2, 5), 2), c("pixel.healpix_ijs2ijd", A(3, 2), A(2, 5), 2),
               c("pixel.healpix_ijs_neighbours", N(1), N(1), N(2)), c("pixel.healpix_boundary", N(5), N(2), steps=8), c("pixel.healpix_pix2ij", N(30), N(2)), c("pixel.healpix_pix2xy", N(30), N(2))]


def slots(x, found):
    """The numbers of a question whose type is free."""
    if isinstance(x, dict):
        if "v" in x:
            found.append(x)
        else:
            for k in sorted(x):
                slots(x[k], found)
    elif isinstance(x, list):
        for y in x:
            slots(y, found)
    return found


def typed(q, as_):
    q = json.loads(json.dumps(q))
    for x, t in zip(slots([q.get("args"), q.get("kw")], []), as_):
        if t == "int":
            x["plain"] = x.pop("v")
        else:
            x["as"] = t

    def strip(x):
        if isinstance(x, dict):
            return x["plain"] if "plain" in x else {k: strip(v) for k, v in x.items()}
        return [strip(v) for v in x] if isinstance(x, list) else x
    return strip(q)


def lives():
    """Setups and questions of the remappers in whole numbers."""
    def N(v):
        return {"v": v}

    def M(name, *a, **kw):
        return {"m": name, "args": list(a), "kw": kw}

    def field(n, k=0):
        return {"v": [[((7*a + 3*b + k) % 5) + 1 for b in range(n[1])] for a in range(n[0])] if len(n) > 1 else [((7*a + k) % 5) + 1 for a in range(n[0])]}
    cube = {"v": [[[(5*a + 3*b + 2*d) % 7 for d in range(2)] for b in range(2)] for a in range(2)]}
    quiet = {"verbose": False}
    box, polar, cap = M("setup_box", N(-1), N(2), 3, N(0), N(2), 2), [N(0), N(1), 2, 4], [N(0), N(1), 2, 4]
    rings = [[M("remap", field([2, 3]), **quiet)], [M("remap", field([2, 3]), w=field([2, 3], 2), **quiet)], [M("polar2radial", field([4, 2]))],
             [M("polar2radial", field([4, 2]), sigma=field([4, 2], 1), w=field([4, 2], 3))], [M("rotate_polar", field([4, 2]), N(2))]]
    maps = [[M("remap", field([48]), **quiet)], [M("remap", field([48]), w=field([48], 2), **quiet)]]
    caps = maps + rings[2:]
    weigh = {"m": "get_weights", "kw": dict(quiet, mc_size=50), "seed": 5, "quiet": 1}
    out = []
    for cls, setup, asks in (
            ("densegrid.Box2Ring", [box, M("setup_polar", *polar, center=[N(1), N(1)], phi_shift=N(1))], rings),
            ("montecarlo.Box2Ring", [box, M("setup_polar_lin", *polar, center=[N(1), N(1)], phi_shift=N(1)), weigh], rings),
            ("montecarlo.Box2Ring", [box, M("setup_polar_log", N(1), N(2), 2, 4, center=[N(1), N(1)]), weigh], rings[:1]),
            ("densegrid.Cube2Shell", [M("setup_cube", N(-1), N(1), 2, N(-1), N(2), 2, N(0), N(1), 2), M("setup_polar", N(0), N(1), 2, 1, center=[N(0), N(1), N(0)])], [[M("remap", cube, **quiet)]]),
            ("montecarlo.Cube2Shell", [M("setup_cube", N(-1), N(1), 2, N(-1), N(2), 2, N(0), N(1), 2), M("setup_polar_lin", N(0), N(1), 2, 1, center=[N(0), N(1), N(0)]), weigh],
             [[M("remap", cube, **quiet)], [M("remap", cube, w=cube, **quiet)]]),
            ("densegrid.Heal2Ring", [M("setup_map", 2), M("setup_polar_cap", *cap, center=[N(1), N(1)], beta_shift=N(1))], caps),
            ("montecarlo.Heal2Ring", [M("setup_map", 2), M("setup_polar_cap", *cap, center=[N(1), N(1)], beta_shift=N(1)), weigh], caps),
            ("densegrid.Heal2Polar", [M("setup_map", 2), M("setup_box", N(2), 3, center=[N(1), N(1)], alpha=N(1), y_length=N(1), y_grid=2)], maps),
            ("montecarlo.Heal2Polar", [M("setup_map", 2), M("setup_box", N(2), 3, center=[N(1), N(1)], alpha=N(1), y_length=N(1), y_grid=2), weigh], maps),
            ("densegrid.Heal2Ortho", [M("setup_map", 2), M("setup_box", N(2), 3, center=[N(1), N(1)], y_length=N(1), y_grid=2, radius=N(1))], maps + [[M("transform", {"v": [1, 2, 5]}, {"v": [1, 2, 1]})]]),
            ("densegrid.PointOfView", [M("setup", {"v": [1, 0, 2]}, {"v": [3, 1, 1]}, N(2), N(1))], [[M("transform", {"v": [5, 6]}, {"v": [1, 2]}, {"v": [7, 8]})], [M("reverse", {"v": [1, -2]}, {"v": [3, 1]}, {"v": [2, 5]})],
             [M("transform", N(5), N(1), N(7))]])):
        out += [{"cls": cls, "steps": setup + a} for a in asks]
    return out


def N02(ctx):
    rng = ctx.rng
    arrays = [{"type": t, "bits": b} for t, b in (("float64", 53), ("int64", 53), ("int32", 53), ("float32", 24))]
    scalars = [{"type": t, "bits": b} for t, b in (("int", 53), ("float64", 53), ("int64", 53), ("float32", 24))]
    integers = [{"type": t, "bits": 53} for t in ("int64", "int32", "int")]
    numbers, indices = whole()
    todo, cases = [], []
    for q in numbers + indices:
        found = slots([q.get("args"), q.get("kw")], [])
        kinds_ = [(integers[:2] if isinstance(x["v"], list) else [integers[0], integers[2]]) if q in indices else arrays if isinstance(x["v"], list) else scalars for x in found]
        if len(found) > 4:      # too many to combine: the later ones keep two types
            for k in range(2, len(found)):
                kinds_[k] = rng.sample(kinds_[k], 2) if k < 6 else [rng.choice(kinds_[k])]
        todo.append(q)
        cases.append(kinds_)
    objs = lives()
    for q in objs:
        found = slots(q["steps"], [])
        kinds_ = [arrays if isinstance(x["v"], list) else [rng.choice(scalars)] for x in found]
        for k in rng.sample(range(len(found)), min(3, len(found))):
            kinds_[k] = arrays if isinstance(found[k]["v"], list) else scalars
        cases.append(kinds_)
    recs = ctx.tlc("Types", cases, workers=8)
    n = len(todo)
    most = ctx.pick(120, 1500)
    per = {}
    for r in recs:
        per.setdefault(r["i"], []).append(r)
    recs = [r for i in sorted(per) for r in (per[i] if len(per[i]) <= most else rng.sample(sorted(per[i], key=repr), most))]

    def plain(q, slots_):
        return ["float64"]*len(slots_)
    calls = [typed(q, plain(q, slots([q.get("args"), q.get("kw")], [])) if q in numbers else ["int64"]*9) for q in todo]
    ref = ctx.calls(calls)
    one = [r for r in recs if r["i"] <= n]
    outs = ctx.calls([typed(todo[r["i"] - 1], r["as"]) for r in one])
    told = set()

    def judge(what, q, r, want, got):
        tol = 1e-11 if r["bits"] > 24 else 2e-4
        if "exc" in want or "exc" in got or not alike(want["r"], got["r"], tol):
            if what not in told:
                told.add(what)
                ctx.fail("%s depends on the types of its numbers" % what, q, want, got)
        else:
            ctx.seen(r["i"], r["as"])
    for r, o in zip(one, outs):
        judge(todo[r["i"] - 1]["fn"], typed(todo[r["i"] - 1], r["as"]), r, ref[r["i"] - 1], o)

    def play(q, as_):
        as_ = list(as_)
        steps = []
        for s in q["steps"]:
            k = len(slots([s.get("args", []), s.get("kw", {})], []))
            steps.append(dict(s, **{x: y for x, y in typed({"args": s.get("args", []), "kw": s.get("kw", {})}, as_[:k]).items()}))
            as_ = as_[k:]
        return {"cls": q["cls"], "steps": steps}
    two = [r for r in recs if r["i"] > n]
    base = [play(q, ["float64"]*99) for q in objs]
    runs = [play(objs[r["i"] - 1 - n], r["as"]) for r in two]
    outs = ctx.drive("objects", base + runs, jobs=8)
    for r, q, o in zip(two, runs, outs[len(base):]):
        w = outs[r["i"] - 1 - n]
        bad = [x for x in (o.get("ok", [o])) + (w.get("ok", [w])) if "exc" in x]
        judge("%s.%s" % (q["cls"], q["steps"][-1]["m"]), q, r, bad[0] if bad else w["ok"][-1], bad[0] if bad else o["ok"][-1])
    ctx.sample({"question": runs[0], "types": two[0]["as"]})


def alike(a, b, tol):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)):
        return a == b
    return isinstance(b, (int, float)) and ((math.isnan(a) and math.isnan(b)) or near(b, a, tol))
