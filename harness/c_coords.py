"""Coordinates: properties C01..C06."""
import math
from core import fr, near, near_all, flat, shape, isnum

PI, TAU = math.pi, 2*math.pi


def ang(a):
    """The angle in [0, 2pi) of an exact direction <<cos, sin>>."""
    v = math.atan2(fr(a[1]), fr(a[0]))
    return v + TAU if v < 0 else v


def is_angle(o, a, tol=1e-9):
    """o is an angle in [0, 2pi] pointing in the direction a."""
    return isnum(o) and 0 <= o <= TAU and abs(math.cos(o) - fr(a[0])) < tol \
        and abs(math.sin(o) - fr(a[1])) < tol


def is_colat(o, a):
    return isnum(o) and 0 <= o <= PI and abs(math.cos(o) - fr(a[0])) < 1e-9 \
        and abs(math.sin(o) - fr(a[1])) < 1e-7


def bad(o):
    return o.get("exc") and "%s: %s" % (o["exc"], o["msg"])


def cols(out, n):
    """The n columns a call returned, flattened, with the shape of each."""
    if bad(out) or not isinstance(out["r"], list) or len(out["r"]) != n:
        return None, None
    return [list(flat(c)) for c in out["r"]], [shape(c) for c in out["r"]]


def layouts(n):
    """Shapes in which the same n points are handed over."""
    for s in ([n], [n // 2, 2], [n // 4, 2, 2]):
        yield s


def fold(v, s):
    if len(s) == 1:
        return v[:s[0]]
    step = 1
    for k in s[1:]:
        step *= k
    return [fold(v[i*step:(i+1)*step], s[1:]) for i in range(s[0])]


def size(s):
    return math.prod(s)


def conv(ctx, dim):
    recs = [r for r in ctx.tlc("Conv") if r["dim"] == dim]
    ctx.sample(recs[0])
    to, back = ("coords.cart2polar", "coords.polar2cart") if dim == 2 else ("coords.cart2sphere", "coords.sphere2cart")
    groups = {}
    for r in recs:
        groups.setdefault(repr(r["ctr"]), []).append(r)
    calls, plan = [], []

    def add(fn, args, rs, s, scale, centre, form="list"):
        kw = {}
        if centre is not None:
            kw = {"center": centre if form == "list" else {"f": centre} if form == "array" else {"t": centre}}
        calls.append({"fn": fn, "args": args, "kw": kw})
        plan.append((fn, rs, s, scale))

    for g in groups.values():
        ctx.rng.shuffle(g)
        # lengths come in any unit, and as many as you like at a time
        for k, scale in enumerate((1.0, 2.0**-20, 2.0**15, 2.0**-70, 2.0**60)):
            centre = [float(fr(c))*scale for c in g[0]["ctr"]]
            use = None if not any(centre) and k == 0 else centre
            if k == 0 or ctx.thorough:
                many = g*(5200//len(g) + 1)
                ctx.rng.shuffle(many)
                C = [[float(fr(r["cart"][d]))*scale for r in many] for d in range(dim)]
                A = [[float(fr(r["r"]))*scale for r in many], [ang(r["phi"]) for r in many]]
                if dim == 3:
                    A.append([math.atan2(fr(r["theta"][1]), fr(r["theta"][0])) for r in many])
                add(to, [{"f": c} for c in C], many, [len(many)], scale, centre)
                add(back, [{"f": c} for c in A], many, [len(many)], scale, centre)
            C = [[float(fr(r["cart"][d]))*scale for r in g] for d in range(dim)]
            A = [[float(fr(r["r"]))*scale for r in g], [ang(r["phi"]) for r in g]]
            if dim == 3:
                A.append([math.atan2(fr(r["theta"][1]), fr(r["theta"][0])) for r in g])
            for s in layouts(len(g)):
                n = size(s)
                form = ("list", "array", "tuple")[len(s) - 1]
                add(to, [{"f": fold(c, s)} for c in C], g[:n], s, scale, use, form)
                add(back, [{"f": fold(c, s)} for c in A], g[:n], s, scale, use, form)
            for i in range(k % 3, len(g), 1 if ctx.thorough else 3 if k < 3 else 11):
                w = (lambda v: v) if i % 2 else (lambda v: {"np": v})
                add(to, [w(c[i]) for c in C], [g[i]], None, scale, use)
                add(back, [w(c[i]) for c in A], [g[i]], None, scale, use)
        # whole-number coordinates as an int array
        ints = [r for r in g if all(c[1] == 1 for c in r["cart"])]
        if ints:
            add(to, [{"i": [r["cart"][d][0] for r in ints]} for d in range(dim)], ints, [len(ints)], 1.0,
                [float(fr(c)) for c in g[0]["ctr"]])
    outs = ctx.calls(calls)
    for c, (fn, rs, s, scale), o in zip(calls, plan, outs):
        brief = {"fn": fn, "center": c["kw"].get("center"), "shape": s}
        v, shp = cols(o, dim)
        if v is None:
            ctx.fail("%s fails or returns something else" % fn, brief, None, o)
            continue
        if s is not None and any(h != s for h in shp) or s is None and any(h != [] for h in shp):
            ctx.fail("%s changes the shape of its input" % fn, brief, s, shp)
            continue
        for i, r in enumerate(rs):
            L = scale*(float(fr(r["r"])) + max(abs(float(fr(x))) for x in r["ctr"]))
            L = L or scale
            got = [w[i] for w in v]
            if fn == to:
                ok = near(got[0], fr(r["r"])*scale if scale >= 1 else float(fr(r["r"]))*scale, 1e-9, L)
                # at the centre itself any longitude stands for the same point
                ok = ok and (is_angle(got[1], r["phi"]) if fr(r["r"]) != 0 else isnum(got[1]) and 0 <= got[1] <= TAU)
                if dim == 3:
                    ok = ok and is_colat(got[2], r["theta"])
                want = [fr(r["r"])*1.0*scale, r["phi"], r["theta"]]
            else:
                want = [float(fr(x))*scale for x in r["cart"]]
                ok = near_all(got, want, 1e-9, L)
            if not ok:
                ctx.fail("%s of a single point is wrong" % fn, dict(brief, point=r), want, got)
            elif fr(r["r"]) != 0:
                ctx.seen(fn, r["phi"], r["theta"], r["ctr"], s and len(s))
    return recs


def hairs(ctx, dim):
    """Points a hair's breadth off the axes, and off the poles."""
    recs = ctx.tlc("Hair")
    recs.sort(key=repr)
    ctx.rng.shuffle(recs)
    to, back = ("coords.cart2polar", "coords.polar2cart") if dim == 2 else ("coords.cart2sphere", "coords.sphere2cart")
    rows = {False: [], True: []}
    for j, r in enumerate(recs):
        h = 2.0**-r["e"]
        x, y = r["x"][0] + r["x"][1]*h, r["y"][0] + r["y"][1]*h
        phi = r["at"][0]*PI/2 + r["at"][1]*math.atan(h)
        t = 1.0 if dim == 2 else (1.0, 0.75, 2.0**-30, 2.0**-10, 1.25)[j % 5]
        z = 0.0 if t == 1.0 else (1.0, -1.0)[j % 2]
        row = ([x*t, y*t, z][:dim], [math.hypot(x*t, y*t, z), phi, math.atan2(math.hypot(x*t, y*t), z)][:dim], r)
        rows[False].append(row)
        if r["e"] <= 50 and t == 1.0:
            rows[True].append(row)
    calls, plan = [], []
    for off, rs in rows.items():
        ctr = [1.0, -2.0, 4.0][:dim] if off else [0.0]*dim
        kw = {"center": ctr} if off else {}
        for fn, side in ((to, 0), (back, 1)):
            def col(part):
                return [{"f": [q[side][d] + (ctr[d] if fn == to else 0) for q in part]} for d in range(dim)]
            for b in range(0, len(rs), 60):
                calls.append({"fn": fn, "args": col(rs[b:b + 60]), "kw": kw})
                plan.append((rs[b:b + 60], ctr, True))
            calls.append({"fn": fn, "args": col(rs*(5200//len(rs) + 1)), "kw": kw})
            plan.append((rs*(5200//len(rs) + 1), ctr, True))
            for q in rs[::1 if ctx.thorough else 2]:
                calls.append({"fn": fn, "args": [c["f"][0] for c in col([q])], "kw": kw})
                plan.append(([q], ctr, False))
    for c, (rs, ctr, arr), o in zip(calls, plan, ctx.calls(calls)):
        v, shp = cols(o, dim)
        if v is None or shp != ([[len(rs)]]*dim if arr else [[]]*dim):
            ctx.fail("%s fails or returns something else" % c["fn"], c["kw"], None, o)
            continue
        for k, (cart, pol, r) in enumerate(rs):
            got = [w[k] for w in v]
            if c["fn"] == to:
                want = pol
                ok = near(got[0], pol[0], 4e-15) and isnum(got[1]) and 0 <= got[1] <= TAU \
                    and abs(math.remainder(got[1] - pol[1], TAU)) < 4e-15
                if dim == 3:
                    ok = ok and isnum(got[2]) and 0 <= got[2] <= PI and abs(got[2] - pol[2]) < 1e-7
            else:
                want = [a + b for a, b in zip(cart, ctr)]
                ok = near_all(got, want, 1e-14)
            if not ok:
                ctx.fail("%s of a point just off an axis is wrong" % c["fn"], {"point": r, "centre": ctr, "array": arr}, want, got)
            else:
                ctx.seen("hair", c["fn"], r["x"], r["y"], r["e"])


def C01(ctx):
    conv(ctx, 2)
    hairs(ctx, 2)


def C02(ctx):
    recs = conv(ctx, 3)
    hairs(ctx, 3)
    # the orthographic lift: sphere points about the origin, seen along z
    pts = {}
    for r in recs:
        if all(fr(c) == 0 for c in r["ctr"]) and fr(r["theta"][0]) >= 0 and fr(r["r"]) != 0:
            pts[repr(r["cart"]), repr(r["r"])] = r
    calls, plan = [], []
    byr = {}
    for r in pts.values():
        byr.setdefault(tuple(r["r"]), []).append(r)
    for unit, (rad, rs) in [(u, q) for u in (1.0, 2.0**-40, 2.0**40) for q in byr.items()]:
        R = float(fr(list(rad)))*unit
        rows = []
        for r in rs:
            x, y, z = (fr(c)*(unit if unit >= 1 else 1/fr(int(1/unit))) for c in r["cart"])
            if z > 0:
                rows.append((float(x), float(y), float(z)))
                rows.append((float(4*x + 9*R), float(y), None))
                rows.append((float(x), float(y) - 3*R, None))
            elif x == 0 or y == 0:      # exactly on the limb
                rows.append((float(x), float(y), None))
            else:                       # beyond it
                rows.append((float(x)*1.001, float(y)*1.001, None))
        if unit == 1.0:
            rows += rows*(5200//len(rows))
        for fill in (None, -7.0):
            kw = {} if R == 1.0 and fill is None else {"r": R}
            if fill is not None:
                kw["fill_value"] = fill
            for s in layouts(len(rows)):
                n = size(s)
                calls.append({"fn": "coords.ortho2cart", "args": [{"f": fold([q[k] for q in rows], s)} for k in (0, 1)], "kw": kw})
                plan.append((rows[:n], s, fill, R))
            for q in rows[:200]:
                calls.append({"fn": "coords.ortho2cart", "args": [q[0], q[1]], "kw": kw})
                plan.append(([q], None, fill, R))
    for c, (rows, s, fill, R), o in zip(calls, plan, ctx.calls(calls)):
        got = None if bad(o) else list(flat(o["r"])) if s else [o["r"]]
        want = [fill if q[2] is None else q[2] for q in rows]
        if got is None or (s and shape(o["r"]) != s) or len(got) != len(want):
            ctx.fail("ortho2cart fails", c["kw"], want[:5], o)
            continue
        for q, g, w in zip(rows, got, want):
            if not near(g, w, 1e-9, R):
                ctx.fail("ortho2cart is wrong", {"x": q[0], "y": q[1], "kw": c["kw"]}, w, g)
            else:
                ctx.seen("ortho", q)
    # colatitude and latitude
    ts = sorted({math.atan2(fr(r["theta"][1]), fr(r["theta"][0])) for r in recs})
    lat = [math.asin(float(fr(r["theta"][0]))) for r in recs]
    for fn, xs in (("coords.sphere2lonlat", ts), ("coords.lonlat2sphere", sorted(set(lat)))):
        os = ctx.calls([{"fn": fn, "args": [{"f": xs}]}] + [{"fn": fn, "args": [x]} for x in xs])
        got = os[0].get("r")
        if not near_all(got, [PI/2 - x for x in xs], 1e-12) or \
                any(not near(o.get("r"), PI/2 - x, 1e-12) for o, x in zip(os[1:], xs)):
            ctx.fail("%s is wrong" % fn, xs, [PI/2 - x for x in xs], got)


# ------------------------------------------------------------------ C03
def vec(phi, theta):
    return (math.cos(phi)*math.sin(theta), math.sin(phi)*math.sin(theta), math.cos(theta))


def colat(c):
    return math.atan2(fr(c[1]), fr(c[0]))


def place_ok(phi, theta, want, tol=2e-7):
    return isnum(phi) and isnum(theta) and -1e-9 <= phi <= TAU + 1e-9 and -1e-12 <= theta <= PI + 1e-12 \
        and all(abs(o - float(fr(w))) < tol for o, w in zip(vec(phi, theta), want))


def there(phi, theta, p, t, more=0.):
    # near a pole the colatitude is known to the square root of the rounding error only
    tol = (3e-9 if 1e-2 < t < PI - 1e-2 else 1e-7) + more
    return isnum(phi) and isnum(theta) and -1e-9 <= phi <= TAU + 1e-9 and -1e-12 <= theta <= PI + 1e-12 \
        and math.dist(vec(phi, theta), vec(p, t)) < tol


def arcs(ctx):
    """Rotations by small, large and arbitrary angles, along great circles."""
    rng, full = ctx.rng, 2**30
    n = ctx.pick(2, 8)
    given = {"ls": [rng.randrange(full) for _ in range(n)], "starts": [rng.randrange(full//2) for _ in range(n)],
             "steps": [int(math.exp(rng.uniform(math.log(30), math.log(full/2 - 30)))) for _ in range(2*n)]}
    recs = ctx.tlc("Arcs", [given])
    recs.sort(key=repr)
    rng.shuffle(recs)
    u = TAU/full
    calls, plan = [], []
    for k, r in enumerate(recs[:ctx.pick(900, 8000)]):
        pts = [p for p in r["pts"] + r["across"]]
        img = [p for p in r["img"] + r["across"]]
        (p0, t0), (p1, t1) = [[x*u for x in q] for q in (r["start"], r["end"])]
        fn, move = "usphere_" + r["op"], 0.
        # the axis of a tiny (or nearly half) turn is known to the rounding error over its sine only
        more = 2e-15/max(abs(math.sin(r["d"]*u)), 1e-9) if r["op"] != "spin" else 0.
        if r["op"] == "rotate":
            if r["start"] == r["end"]:
                continue
            rest, kw = [p1, t1], {"phi_start": p0, "theta_start": t0}
        elif r["op"] == "shift":
            # a longitude shift beforehand moves everything that is asked for back by as much
            move = rng.choice((0, 2, 3200, full//3, -4500000))
            a = (r["start"][0] + move) % full
            move = a - r["start"][0]
            rest, kw = [a*u, t0, r["start"][0]*u, t1], {}
        elif r["equator"]:
            south = rng.random() < .5
            rest, kw = [rng.random()*TAU, PI if south else 0., TAU - r["d"]*u if south else r["d"]*u], {}
        else:
            rest, kw = [r["across"][1][0]*u, PI/2, r["d"]*u], {}
        P, T = [((p[0] + move) % full)*u for p in pts], [p[1]*u for p in pts]
        if k % 3:
            reps = (500 if k % 100 == 1 else 40) if k % 10 == 1 else 1          # long arrays now and then
            calls.append({"fn": "coords." + fn, "args": [{"f": P*reps}, {"f": T*reps}] + rest, "kw": kw})
            plan.append((img*reps, more))
        else:
            j = rng.randrange(len(pts))
            calls.append({"fn": "coords." + fn, "args": [P[j], T[j]] + rest, "kw": kw})
            plan.append((img[j], more))
    for c, (want, more), o in zip(calls, plan, ctx.calls(calls, jobs=6)):
        one = not isinstance(want[0], list)
        want = [want] if one else want
        v = o.get("r")
        fine = isinstance(v, list) and len(v) == 2
        if fine:
            P, T = [[x] for x in v] if one else v
            fine = isinstance(P, list) and isinstance(T, list) and len(P) == len(T) == len(want)
            fine = fine and all(there(p, t, w[0]*u, w[1]*u, more) for p, t, w in zip(P, T, want))
        if not fine:
            ctx.fail("%s does not turn along the great circle" % c["fn"], c, [[w[0]*u, w[1]*u] for w in want[:12]], o)
        else:
            ctx.seen(c["fn"], c["args"][2:], c["kw"])


def C03(ctx):
    recs = ctx.tlc("Sphere", workers=6)
    marks = [r["marks"] for r in recs if "marks" in r][0]
    recs = [r for r in recs if "op" in r]
    recs.sort(key=repr)
    ctx.rng.shuffle(recs)
    ctx.sample(recs[0])
    mv = [[float(fr(c)) for c in m] for m in marks]
    mphi = [math.atan2(m[1], m[0]) % TAU for m in mv]
    mth = [math.acos(m[2]) for m in mv]
    calls, plan = [], []
    for k, r in enumerate(recs):
        A = [ang(r["a"][0]), colat(r["a"][1])]
        B = [ang(r["b"][0]), colat(r["b"][1])]
        # a longitude of zero may be written as a full turn
        if k % 3 == 1 and A[0] == 0 and (A[1] != B[1] or B[0] != 0):
            A[0] = TAU
        if k % 5 == 2 and B[0] == 0 and r["op"] in ("rotate", "shift") and A[0] != TAU and A != [0, B[1]]:
            B[0] = TAU
        al = TAU if len(r["alpha"]) == 3 else ang(r["alpha"])
        ph = [TAU if p == 0 and k % 4 == 0 else p for p in mphi]
        fn = {"rotate": "usphere_rotate", "shift": "usphere_shift", "spin": "usphere_spin",
              "turn": "usphere_phi_shift"}[r["op"]]

        def args(p, t):
            if r["op"] == "rotate":
                kw = {"phi_start": A[0], "theta_start": A[1]}
                if k % 2 and A[0] == 0:
                    del kw["phi_start"]
                if k % 2 and A[1] == 0:
                    del kw["theta_start"]
                return [p, t] + B, kw
            if r["op"] == "shift":
                return [p, t] + A + B, {}
            if r["op"] == "spin":
                return [p, t] + A + [al], {}
            return [p, al if k % 2 else al - TAU], {}
        ar, kw = args({"f": ph}, {"f": mth})
        calls.append({"fn": "coords." + fn, "args": ar, "kw": kw})
        plan.append((r, range(len(marks)), True))
        if k % 7 == 0 or r["op"] in ("turn",):
            for j in range(len(marks)):
                ar, kw = args(ph[j] if k % 2 else {"np": ph[j]}, mth[j] if k % 2 else {"np": mth[j]})
                calls.append({"fn": "coords." + fn, "args": ar, "kw": kw})
                plan.append((r, [j], False))
    for c, (r, js, arr), o in zip(calls, plan, ctx.calls(calls, jobs=6)):
        if bad(o):
            ctx.fail("%s fails" % c["fn"], c, None, bad(o))
            continue
        v = o["r"]
        try:
            P, T = (v, [mth[j] for j in js] if arr else mth[js[0]]) if r["op"] == "turn" else v
            if not arr:
                P, T = [P], [T]
            got = [(P[i], T[i]) for i in range(len(js))]
            assert len(P) == len(T) == len(js)
        except Exception:
            ctx.fail("%s returns something else than the positions" % c["fn"], c, None, v)
            continue
        if r["op"] == "rotate" and r["anti"]:
            # the shortest arc is not unique: any half turn reaching the end will do
            want = None
            W = [vec(*g) if isnum(g[0]) and isnum(g[1]) else (math.nan,)*3 for g in got]
            dot = lambda a, b: sum(x*y for x, y in zip(a, b))
            fine = all(abs(dot(W[i], W[m]) - dot(mv[js[i]], mv[js[m]])) < 1e-6 for i in range(len(js)) for m in range(i + 1))
            if len(js) == 5:
                x, y, z = W[0], W[1], W[2]
                cr = (x[1]*y[2]-x[2]*y[1], x[2]*y[0]-x[0]*y[2], x[0]*y[1]-x[1]*y[0])
                fine = fine and abs(dot(cr, z) + 1) < 1e-6
                S = [vec(ang(r["a"][0]), colat(r["a"][1]))][0]
                img = tuple(S[0]*x[i] + S[1]*y[i] - S[2]*z[i] for i in range(3))
                fine = fine and all(abs(a + b) < 1e-6 for a, b in zip(img, S))
        else:
            want = [r["img"][j] for j in js]
            fine = all(place_ok(g[0], g[1], w) for g, w in zip(got, want))
        if not fine:
            ctx.fail("%s puts a point elsewhere" % c["fn"], c, want and [[float(fr(x)) for x in w] for w in want], v)
        else:
            ctx.seen(r["op"], r["a"], r["b"], r["alpha"])
    # longitudes added modulo a full turn, over the whole ranges
    calls, plan = [], []
    grid = [k*PI/12 for k in range(0, 25)] + [0.013, 6.27]
    grid += [1e-5, 1e-8, TAU - 1e-5, TAU - 1e-8]
    grid += grid*180
    shifts = [k*PI/12 for k in range(-24, 25)] + [-0.001, 0.001, -6.2831, 6.2831]
    shifts += [s*q for q in (1e-5, 1e-7, 1e-9, 1e-11) for s in (-1, 1)]
    for d in shifts:
        calls.append({"fn": "coords.usphere_phi_shift", "args": [{"f": grid}, d]})
        plan.append((grid, d, True))
        p = ctx.rng.choice(grid)
        calls.append({"fn": "coords.usphere_phi_shift", "args": [p, d]})
        plan.append(([p], d, False))
    for c, (ps, d, arr), o in zip(calls, plan, ctx.calls(calls)):
        v = o.get("r")
        v = v if arr else [v]
        if not isinstance(v, list) or len(v) != len(ps) or \
                not all(isnum(x) and -1e-12 <= x <= TAU + 1e-12 and abs(math.remainder(x - p - d, TAU)) < 1e-9
                        for x, p in zip(v, ps)):
            ctx.fail("usphere_phi_shift is wrong", c, None, o)
    # what has to be rejected: one argument beyond its range, or the same point twice
    good = {"usphere_rotate": [1.0, 1.0, 2.0, 2.0, 0.5, 0.5], "usphere_shift": [1.0, 1.0, 0.5, 0.5, 2.0, 2.0],
            "usphere_spin": [1.0, 1.0, 2.0, 2.0, 1.0], "usphere_phi_shift": [1.0, 1.0]}
    span = {"usphere_rotate": [None, None, TAU, PI, TAU, PI], "usphere_shift": [None, None, TAU, PI, TAU, PI],
            "usphere_spin": [None, None, TAU, PI, TAU], "usphere_phi_shift": [None, TAU]}
    calls, plan = [], []
    for fn, g in good.items():
        for j, hi in enumerate(span[fn]):
            if hi is None:
                continue
            lo = -TAU if fn == "usphere_phi_shift" else 0.0
            for v, ok in ((lo - 1e-6, 0), (lo - 3, 0), (hi + 1e-6, 0), (hi + 3, 0), (lo, 1), (hi, 1), ((lo + hi)/3, 1)):
                for arr in (0, 1):
                    a = list(g)
                    a[j] = v
                    if arr:
                        a[0] = {"f": [1.0, 2.0]}
                        if fn != "usphere_phi_shift":
                            a[1] = {"f": [1.0, 2.0]}
                    calls.append({"fn": "coords." + fn, "args": a})
                    plan.append(ok)
    for p in ((0.5, 0.5), (0.0, 1.0), (TAU, PI), (1.0, 0.0)):
        calls.append({"fn": "coords.usphere_rotate", "args": [1.0, 1.0, p[0], p[1], p[0], p[1]]})
        plan.append(0)
    for c, ok, o in zip(calls, plan, ctx.calls(calls)):
        if ok and bad(o):
            ctx.fail("an allowed argument is rejected", c, None, bad(o))
        if not ok and not bad(o):
            ctx.fail("an argument out of range (or the same point twice) is accepted", c, None, o)
    arcs(ctx)


# ------------------------------------------------------------------ C04
def C04(ctx):
    recs = ctx.tlc("HealProj")
    ctx.rng.shuffle(recs)
    ctx.sample(recs[0])
    pts = []
    for r in recs:
        v = float(fr(r["v"]))
        if r["belt"]:
            th, t = math.acos(v), 1.
        else:               # |z| = 1 - t^2/3 = 1 - 2 sin^2(theta/2)
            th, t = 2*math.asin(v/math.sqrt(6)), max(v, 5e-8)
            th = th if r["s"] > 0 else PI - th
        pts.append((float(fr(r["lon"]))*PI, th, float(fr(r["x"]))*PI, float(fr(r["y"]))*PI, r, t))
    fw = [p for p in pts if not p[4]["seam"] and not p[4]["pole"]]
    calls, plan = [], []

    def ask(fn, ps, arr):
        a, b = (0, 1) if fn.endswith("ang2xy") else (2, 3)
        if arr:
            calls.append({"fn": fn, "args": [{"f": [p[a] for p in ps]}, {"f": [p[b] for p in ps]}]})
        else:
            calls.append({"fn": fn, "args": [ps[0][a], ps[0][b]]})
        plan.append((ps, arr))
    poles = [p for p in pts if p[4]["pole"]]
    for fn, ps in (("coords.healpix_ang2xy", fw), ("coords.healpix_xy2ang", pts)):
        for b in range(0, len(ps), 37):
            ask(fn, ps[b:b+37], True)
        ask(fn, ps, True)
        ask(fn, ps*(5200//len(ps) + 1), True)
        ask(fn, [p for p in ps if p[4]["belt"]][:5], True)
        ask(fn, [p for p in ps if not p[4]["belt"] and not p[4]["pole"]][:7], True)
        for p in ps[::1 if ctx.thorough else 2]:
            ask(fn, [p], False)
    ask("coords.healpix_xy2ang", poles, True)
    ask("coords.healpix_xy2ang", poles[:1], True)
    for p in poles:
        ask("coords.healpix_ang2xy", [p], False)
    ask("coords.healpix_ang2xy", poles, True)
    for c, (ps, arr), o in zip(calls, plan, ctx.calls(calls)):
        v = o.get("r")
        if bad(o) or not isinstance(v, list) or len(v) != 2 or arr and any(shape(w) != [len(ps)] for w in v):
            ctx.fail("%s fails" % c["fn"], c if len(ps) < 40 else c["fn"], None, o if bad(o) else v)
            continue
        A, B = v if arr else ([v[0]], [v[1]])
        for p, a, b in zip(ps, A, B):
            if c["fn"].endswith("ang2xy"):
                # near a pole x is a root of 1-cos(theta): rounding is magnified there
                want = [p[2], p[3]]
                tol = 1e-11 + 3e-15/p[5]
                ok = near(b, p[3], tol) and (p[4]["pole"] or near(a, p[2], tol))
            else:
                want = [p[0], p[1]]
                ok = near(b, p[1], 1e-11 + 1e-15/p[5]) and 0 <= b <= PI
                if not p[4]["pole"]:
                    ok = ok and isnum(a) and abs(math.remainder(a - p[0], TAU)) < 1e-9 + 1e-14/p[5] and -1e-9 <= a <= TAU + 1e-9
            if not ok:
                ctx.fail("%s is wrong" % c["fn"], {"point": p[4], "array": arr}, want, [a, b])
            else:
                ctx.seen(c["fn"], p[4]["lon"], p[4]["s"], p[4]["v"])


# ------------------------------------------------------------------ C05
def C05(ctx):
    recs = ctx.tlc("SkyArea")
    ctx.sample(recs[0])
    calls = [{"fn": "coords.usphere_area",
              "args": [float(fr(r["p1"]))*PI, float(fr(r["p2"]))*PI, math.acos(fr(r["c1"])), math.acos(fr(r["c2"]))]}
             for r in recs]
    for r, c, o in zip(recs, calls, ctx.calls(calls)):
        if bad(o) or not near(o["r"], float(fr(r["area"]))*PI, 2e-14):
            ctx.fail("the area is wrong", c, float(fr(r["area"]))*PI, o)
        else:
            ctx.seen(r["p1"], r["p2"], r["c1"], r["c2"])
    calls = []
    good = [0.5, 1.5, 0.5, 1.5]
    for j, hi in ((0, TAU), (1, TAU), (2, PI), (3, PI)):
        for v in (-1e-6, -2.0, hi + 1e-6, hi + 2.0):
            a = list(good)
            a[j] = v
            calls.append({"fn": "coords.usphere_area", "args": a})
    for v in ([0.0, 0.0, 0.5, 1.0], [2.0, 2.0, 0.5, 1.0], [TAU, TAU, 0.5, 1.0], [0.5, 1.0, 0.0, 0.0],
              [0.5, 1.0, PI, PI], [0.5, 1.0, 1.25, 1.25]):
        calls.append({"fn": "coords.usphere_area", "args": v})
    for c, o in zip(calls, ctx.calls(calls)):
        if not bad(o):
            ctx.fail("an impossible rectangle is accepted", c, None, o)


# ------------------------------------------------------------------ C06
ROTORS = {"densegrid.Box2Ring": lambda n, m: [{"m": "setup_box", "args": [-1, 1, 4, -1, 1, 4]},
                                              {"m": "setup_polar", "args": [0.0, 1.0, m, n]}],
          "densegrid.Heal2Ring": lambda n, m: [{"m": "setup_map", "args": [4]},
                                               {"m": "setup_polar_cap", "args": [0.0, 1.0, m, n]}],
          "montecarlo.Box2Ring": lambda n, m: [{"m": "setup_box", "args": [-1, 1, 4, -1, 1, 4]},
                                               {"m": "setup_polar_lin", "args": [0.0, 1.0, m, n]}],
          "montecarlo.Heal2Ring": lambda n, m: [{"m": "setup_map", "args": [4]},
                                                {"m": "setup_polar_cap", "args": [0.0, 1.0, m, n]}]}


def C06(ctx):
    recs = ctx.tlc("PolarRot")
    recs.sort(key=repr)
    ctx.rng.shuffle(recs)
    ctx.sample(recs[0])
    num = lambda g, u=1.: [[float(fr(x))*u for x in row] for row in g]
    # sequences of turns, the second applied to what the code returned for the first
    cases, plan = [], []
    names = sorted(ROTORS)
    whole = {(repr(r["first"]), repr(r["path"])): r for r in recs}
    for k, r in enumerate(recs):
        n, m = len(r["f"]), len(r["f"][0])
        cls = names[k % 4]
        steps = ROTORS[cls](n, m)
        edges = {"f": [TAU*i/n for i in range(n)] + [TAU]}
        shifts = [float(fr(s))*TAU/n for s in r["path"]]
        unit = (1., 2.**-60, 1., 2.**50, 1.)[k % 5]     # values come in any unit
        want = [num(r["f"], unit)]
        if len(shifts) == 2:
            want.insert(0, num(whole[repr(r["first"]), repr(r["path"][:1])]["f"], unit))
        p0 = len(steps)
        last = {"f": num(r["first"], unit)}
        for s in shifts:
            steps.append({"fn": "coords.rotate_polar_grid", "args": [edges, last, s]})
            last = {"prev": len(steps) - 1}
        p1 = len(steps)
        last = {"f": num(r["first"], unit)}
        for s in shifts:
            steps.append({"m": "rotate_polar", "args": [last, s]})
            last = {"prev": len(steps) - 1}
        cases.append({"cls": cls, "steps": steps})
        plan.append((r, want, p0, p1, 10*unit))
    for c, (r, want, p0, p1, most), o in zip(cases, plan, ctx.drive("objects", cases)):
        if "ok" not in o:
            ctx.fail("the turn crashes", c, None, o)
            continue
        for base, name in ((p0, "rotate_polar_grid"), (p1, c["cls"] + ".rotate_polar")):
            got = [x.get("r") for x in o["ok"][base:base + len(want)]]
            if not near_all(got, want, 1e-11, most):
                ctx.fail("%s is wrong" % name, {"first": num(r["first"]), "shifts in cells": r["path"]}, want,
                         o["ok"][base:base + len(want)])
            else:
                ctx.seen(name, r["path"], r["first"])
    # arrays of another shape, and turns out of range
    cases = []
    for cls in names:
        steps = ROTORS[cls](6, 3)
        for bad_shape in ([3, 6], [6, 2], [5, 3], [6, 4], [18]):
            steps.append({"m": "rotate_polar", "args": [{"f": fold([1.0]*100, bad_shape)}, 1.0]})
        for s in (0.0, -1.0, TAU, 7.0):
            steps.append({"m": "rotate_polar", "args": [{"f": fold([1.0]*18, [6, 3])}, s]})
            steps.append({"fn": "coords.rotate_polar_grid",
                          "args": [{"f": [TAU*i/6 for i in range(7)]}, {"f": fold([1.0]*18, [6, 3])}, s]})
        cases.append({"cls": cls, "steps": steps})
    for c, o in zip(cases, ctx.drive("objects", cases)):
        for s, x in list(zip(c["steps"], o.get("ok", [])))[2:]:
            if "exc" not in x:
                ctx.fail("%s.rotate_polar accepts a wrong array or angle" % c["cls"], s, None, x)
    # the rotation of angles themselves
    calls, plan = [], []
    phis = [k*PI/7 for k in range(14)] + [TAU, 0.001]
    wide = [-0.001, -1.0, -TAU, -40.0, 7.0, 6*TAU + 1, 1e-9, TAU - 1e-9]*650
    for k in range(1, 48):
        d = k*TAU/48 + 1e-3
        calls.append({"fn": "coords.rotate_polar", "args": [{"f": phis}, d]})
        plan.append((phis, d, True))
        calls.append({"fn": "coords.rotate_polar", "args": [phis[k % 16], d]})
        plan.append(([phis[k % 16]], d, False))
        if k % 6 == 1:
            calls.append({"fn": "coords.rotate_polar", "args": [{"f": wide}, d]})
            plan.append((wide, d, True))
            calls.append({"fn": "coords.rotate_polar", "args": [wide[k % 8], d]})
            plan.append(([wide[k % 8]], d, False))
        calls.append({"fn": "coords.rotate_polar", "args": [{"f": fold(phis, [4, 4])}, d]})
        plan.append((phis, d, 2))
    for c, (ps, d, arr), o in zip(calls, plan, ctx.calls(calls)):
        v = o.get("r")
        if arr == 2 and shape(v) != [4, 4]:
            v = None
        v = None if v is None else list(flat(v)) if arr else [v]
        if v is None or len(v) != len(ps) or not all(
                isnum(x) and 0 <= x <= TAU and abs(math.remainder(x - p - d, TAU)) < 1e-9 for x, p in zip(v, ps)):
            ctx.fail("rotate_polar is wrong", c, None, o)
    calls = [{"fn": "coords.rotate_polar", "args": [a, d]} for a in (1.0, {"f": [1.0, 2.0]}) for d in (0.0, -0.5, TAU, 9.0)]
    for c, o in zip(calls, ctx.calls(calls)):
        if not bad(o):
            ctx.fail("a rotation angle out of range is accepted", c, None, o)
