"""Draws one picture and writes down what is on it.

A case is {"view": [steps for a Heal2Ortho object] or nothing, "draw": [{"m": PlotOrtho method or
"fn": function, "args", "kw"}], "ax": whether the axes are passed on or pyplot's own are used}."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import calls
import worker


def points(v):
    return [float(x) for x in np.ma.filled(np.ma.asarray(v, dtype=float), np.nan).ravel()]


def run(case):
    plt.close("all")
    fig, ax = plt.subplots()
    try:
        view = pen = None
        if "view" in case:
            view = calls.find("densegrid.Heal2Ortho")()
            for s in case["view"]:
                getattr(view, s["m"])(*[calls.dec(a) for a in s.get("args", [])], **{k: calls.dec(v) for k, v in s.get("kw", {}).items()})
            pen = calls.find("plots.ortho.PlotOrtho")(view)
        base = [ax.get_xlim(), ax.get_ylim()]
        ret = []
        for s in case["draw"]:
            f = getattr(pen, s["m"]) if "m" in s else calls.find(s["fn"])
            kw = {k: calls.dec(v) for k, v in s.get("kw", {}).items()}
            if case["ax"]:
                kw["ax"] = ax
            r = f(*[calls.dec(a) for a in s.get("args", [])], **kw)
            ret.append(type(r).__name__)
        ticks = [[[float(t), str(l.get_text())] for t, l in zip(g.get_ticklocs(), g.get_ticklabels())] for g in (ax.xaxis, ax.yaxis)]
        return {"figures": len(plt.get_fignums()), "axes": len(fig.axes), "ret": ret,
                "lines": [[points(l.get_xdata()), points(l.get_ydata())] for l in ax.lines],
                "look": [[str(l.get_color()), str(l.get_linestyle()), float(l.get_linewidth())] for l in ax.lines],
                "texts": [[float(t.get_position()[0]), float(t.get_position()[1]), str(t.get_text())] for t in ax.texts],
                "images": [{"extent": [float(v) for v in m.get_extent()], "origin": m.origin, "data": worker.enc(np.ma.filled(np.ma.asarray(m.get_array(), dtype=float), np.nan))} for m in ax.images],
                "lim": [list(ax.get_xlim()), list(ax.get_ylim())], "base": base, "on": bool(ax.axison), "ticks": ticks}
    finally:
        plt.close("all")
