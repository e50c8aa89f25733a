"""Progress bar and monotonicity: property U01."""
import math
import re
from core import fold


def squeeze(s):
    return re.sub(r"\s+", "", s)


def U01(ctx):
    recs = ctx.tlc("Progress")
    rng = ctx.rng
    words = [r for r in recs if r["mode"] == "word"]
    loops = [r for r in recs if r["mode"] == "loop"]
    ctx.sample(loops[0])
    calls, plan = [], []
    for r in words:
        w = r["word"]
        for arg in (w, {"i": w}, {"f": [0.5 - 2.0**-k if k else -7.25 for k in w]}, {"f": [1e-9*k + 3 for k in w]},
                    {"t": [k*1000 - 1500 for k in w]}):
            calls.append({"fn": "utils.is_pos_monotonic", "args": [arg]})
            plan.append(r["mono"])
    for c, want, o in zip(calls, plan, ctx.calls(calls)):
        if "exc" in o or not isinstance(o["r"], (bool, int)) or bool(o["r"]) is not want:
            ctx.fail("is_pos_monotonic is wrong", c, want, o)
        else:
            ctx.seen("word", c["args"])
    looks = [{}, {"explanation": "Working", "indexing": True}, {"marker_done": "=", "marker_undone": ".", "bar_edges": "!"},
             {"bar_edge_left": "<", "bar_edge_right": ">", "indexing": True, "marker_undone": "-"},
             {"explanation": "Step", "bar_edges": "[", "bar_edge_right": "]"}]
    cases, plan = [], []
    for k, r in enumerate(loops):
        for look in [looks[k % len(looks)]] + ([looks[(k + 2) % len(looks)]] if r["len"] < 30 else []):
            kw = dict(look)
            if r["refresh"] != 50 or rng.random() < .5:
                kw["num_refresh"] = r["refresh"]
            if r["bar"] != 50 or rng.random() < .5:
                kw["bar_length"] = r["bar"]
            cases.append({"fn": "utils.progress_bar", "length": r["len"], "kw": kw})
            plan.append(r)
    for c, r, o in zip(cases, plan, ctx.drive("screen", cases)):
        if "exc" in o:
            ctx.fail("progress_bar fails", c, None, o)
            continue
        kw, want = c["kw"], {q["at"]: q for q in r["lines"]}
        left = kw.get("bar_edge_left", kw.get("bar_edges", "|"))
        right = kw.get("bar_edge_right", kw.get("bar_edges", "|"))
        for idx, text in enumerate(o["ok"]):
            q = want.get(idx)
            if q is None:
                if text:
                    ctx.fail("progress_bar draws between two refreshes", dict(c, index=idx), "", text)
                continue
            bar = left + kw.get("marker_done", "#")*q["done"] + kw.get("marker_undone", "_")*(r["bar"] - q["done"]) + right
            line = kw["explanation"] + " : " + bar if "explanation" in kw else bar
            tail = "%d%%" % q["pct"] + ("[%d/%d]" % (idx + 1, r["len"]) if kw.get("indexing") else "")
            # every line goes over the previous one, so only its last state counts
            ok = text.startswith("\r") and text.endswith("\n") == q["end"] and text.count("\n") == int(q["end"])
            for shown in text.rstrip("\n").split("\r")[1:]:
                ok = ok and shown.startswith(line) and squeeze(shown[len(line):]) == tail
            if not ok:
                ctx.fail("progress_bar draws something else", dict(c, index=idx), [line, tail, q["end"]], text)
            else:
                ctx.seen("bar", r["len"], r["refresh"], r["bar"], idx)


def talkers():
    """Objects with calls that take verbose: the setups, and per call its step, whether it
    talks by default, and its bars."""
    def M(name, *a, **kw):
        return {"m": name, "args": list(a), "kw": kw}

    def field(*n, k=0):
        v = [((7*j + k) % 5) + 1. for j in range(math.prod(n))]
        return {"f": fold(v, n)}
    box, box2 = M("setup_box", -1., 2., 3, 0., 2., 2), M("setup_cube", -1., 1., 2, -1., 2., 2, 0., 1., 2)
    m, w = M("setup_map", 2), dict(M("get_weights", mc_size=30), seed=3, quiet=1)

    def mc(first, ask, get=None):
        look = [{"gets": ["ind_ws"]}]
        return [(w, True, 1, look), (first, True, 1, None), (ask, True, 1, None)]
    mask = (M("get_mask_in_bound"), True)
    return [
        ("densegrid.Box2Ring", [box, M("setup_polar", 0., 1.5, 2, 3, center=[1., 1.])],
         [(M("remap", field(2, 3)), True, 0, None), (*mask, None, [{"gets": ["mask_in_bound"]}]), (M("polar2radial", field(3, 2)), False, None, None)]),
        ("montecarlo.Box2Ring", [box, M("setup_polar_lin", 0., 1.5, 2, 3, center=[1., 1.]), w],
         mc(M("remap", field(2, 3)), M("remap", field(2, 3, k=1), w=field(2, 3, k=2))) + [(*mask, None, [{"gets": ["mask_in_bound"]}]), (M("polar2radial", field(3, 2)), False, None, None)]),
        ("densegrid.Cube2Shell", [box2, M("setup_polar", 0., 1.5, 2, 1)], [(M("remap", field(2, 2, 2)), True, 1, None)]),
        ("montecarlo.Cube2Shell", [box2, M("setup_polar_lin", 0., 1.5, 3, 1), w], mc(M("remap", field(2, 2, 2)), M("remap", field(2, 2, 2, k=1), w=field(2, 2, 2, k=2)))),
        ("densegrid.Heal2Ring", [m, M("setup_polar_cap", 0., 1., 2, 3)], [(M("remap", field(48)), True, 0, None), (M("polar2radial", field(3, 2)), False, None, None)]),
        ("montecarlo.Heal2Ring", [m, M("setup_polar_cap", 0., 1., 2, 3), w], mc(M("remap", field(48)), M("remap", field(48, k=1), w=field(48, k=2)))),
        ("densegrid.Heal2Polar", [m, M("setup_box", 2., 3)], [(M("remap", field(48)), True, 0, None), (M("remap", field(48), w=field(48, k=2)), True, 0, None)]),
        ("montecarlo.Heal2Polar", [m, M("setup_box", 2., 3), w], mc(M("remap", field(48)), M("remap", field(48, k=1), w=field(48, k=2)))),
        # a single row, column or shell: the only step of a bar is its last
        ("montecarlo.Box2Ring", [M("setup_box", 0., 1., 1, 0., 2., 1), M("setup_polar_lin", 0., 1.5, 1, 1, center=[.5, 1.]), w], mc(M("remap", field(1, 1)), M("remap", field(1, 1, k=1), w=field(1, 1, k=2)))),
        ("densegrid.Cube2Shell", [box2, M("setup_polar", 0., 1.5, 1, 1)], [(M("remap", field(2, 2, 2)), True, 1, None)]),
        ("montecarlo.Cube2Shell", [M("setup_cube", 0., 1., 1, 0., 1., 1, 0., 1., 1), M("setup_polar_lin", 0., 1., 1, 1, center=[.5, .5, .5]), w],
         mc(M("remap", field(1, 1, 1)), M("remap", field(1, 1, 1, k=1), w=field(1, 1, 1, k=2)))),
        ("montecarlo.Heal2Ring", [m, M("setup_polar_cap", 0., 1., 1, 1), w], mc(M("remap", field(48)), M("remap", field(48, k=1), w=field(48, k=2)))),
        ("montecarlo.Heal2Polar", [m, M("setup_box", 2., 1), w], mc(M("remap", field(48)), M("remap", field(48, k=1), w=field(48, k=2)))),
        ("densegrid.Heal2Ortho", [m, M("setup_box", 2., 3)], [(M("remap", field(48)), True, 0, None), (M("remap", field(48), w=field(48, k=2)), True, 0, None)])]


def bars(text):
    """The shares shown by each bar, and whether every line is closed and every bar full and growing."""
    shown, sound = [], text == "" or text.endswith("\n")
    for line in text.split("\n"):
        pct = [int(x) for x in re.findall(r"(\d+)%", line)]
        if pct:
            shown.append(pct)
            sound = sound and pct == sorted(pct) and pct[-1] == 100
    return shown, sound


def U02(ctx):
    kinds = talkers()
    recs = ctx.tlc("Talk", [[{"talks": t, "rows": [4]*(n or 0)} for _, t, n, _ in k[2]] for k in kinds])
    recs.sort(key=repr)
    ctx.sample(recs[0])
    cases, plan = [], []
    for r in recs:
        cls, setup, asks = kinds[r["i"] - 1]
        steps, at = list(setup), []
        for h in r["hist"]:
            call, talks, n, look = asks[h["k"] - 1]
            kw = dict(call.get("kw", {}))
            if h["how"] != "default":
                kw["verbose"] = h["how"] == "loud"
            at.append(len(steps))
            steps += [dict(call, kw=kw, hear=1)] + (look or [])
        cases.append({"cls": cls, "steps": steps})
        plan.append((r, at))
    first = {}
    for c, (r, at), o in zip(cases, plan, ctx.drive("objects", cases, jobs=8)):
        if "ok" not in o:
            ctx.fail("%s crashes" % c["cls"], c, None, o)
            continue
        for h, k in zip(r["hist"], at):
            call, talks, n, look = kinds[r["i"] - 1][2][h["k"] - 1]
            a = o["ok"][k]
            brief = {"class": c["cls"], "call": c["steps"][k], "how": h["how"]}
            if "exc" in a:
                ctx.fail("a call fails", brief, None, a)
                break
            shown, sound = bars(a["said"])
            if h["silent"] and a["said"]:
                ctx.fail("a quiet call writes to the terminal", brief, "", a["said"])
            elif not sound or (n is not None and not h["silent"] and len(shown) < h["bars"]):
                ctx.fail("the progress shown does not run to the end", brief, h, a["said"])
            else:
                ctx.seen(brief)
            answer = repr(a["r"]) + (repr(o["ok"][k + 1]) if look else "")
            if first.setdefault((r["i"], h["k"]), answer) != answer:
                ctx.fail("an answer depends on whether the call talks", brief, first[r["i"], h["k"]], answer)
                break
