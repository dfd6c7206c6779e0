"""C19: truths are drawn at their values, on the right axis, in every plot."""
import functools

import numpy as np
import pandas as pd

from core import caught, q
from figproj import hexa, ls, project

MARKERS = ["o", "s", "*", "D", "x", "+", "v", "^", "P", "X", "d"]
FILLED = ["o", "s", "*", "D", "v", "^", "P", "X", "d"]


@functools.cache
def shapes():
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    out = {}
    for m in MARKERS:
        out[str(np.asarray(ax.scatter(0, 0, marker=m).get_paths()[0].vertices).round(6).tolist())] = m
    plt.close(fig)
    return out


def panels(fig):
    out = []
    for a in project(fig, draw=False)["axes"]:
        items = []
        for ln in a["lines"]:
            if ln["kind"] == "data":
                continue
            v, span = ("x", "y") if ln["kind"] == "v" else ("y", "x")
            at, ext = ln[v], sorted(ln[span])
            ok = len(at) == 2 and at[0] == at[1] and ext == [0.0, 1.0] and ln["marker"] in ("None", "", " ")
            it = {"k": ln["kind"] if ok else "odd", "x": "", "y": "", "color": ln["color"], "alpha": q(ln["alpha"]), "z": q(ln["z"]), "ls": ls(ln["ls"]), "lw": q(ln["lw"]), "marker": "", "size": "",
                  "edge": "", "elw": ""}
            it[v] = q(at[0])
            items.append(it)
        for s in [x for x in a["scatters"] if len(x["xy"]) == 1]:  # more points are samples
            mk = shapes().get(str(s["path"]), "?")
            for x, y in s["xy"]:
                items.append({"k": "m", "x": q(x), "y": q(y), "color": s["color"], "alpha": q(s["alpha"] if s["alpha"] is not None else s["rgba_alpha"]), "z": q(s["z"]), "ls": "", "lw": "", "marker": mk,
                              "size": q(s["size"]), "edge": s["edge"], "elw": q(s["lw"]) if mk in FILLED else ""})
        out.append({"r": a["row"] + 1, "c": a["col"] + 1, "items": items})
    return out


def truth(t):
    from chainconsumer import Truth

    loc = {p: v for p, v in t["loc"]}
    kinds = {"float": float, "int": int, "np": np.float64}
    loc = {p: kinds[t["as"]](v) for p, v in loc.items()}
    kw = dict(t["style"])
    if t["shape"] == "series":
        return Truth(location=pd.Series(loc, dtype=float), **kw)
    return Truth(location=loc, **kw)


def spec(t):
    """The truth as the specification knows it: the documented defaults where nothing is said."""
    s = {"color": "black", "edge_color": None, "line_width": 1.0, "line_style": "--", "alpha": 1.0, "zorder": 100, "marker": None, "marker_size": 150.0, "marker_edge_width": 1.0} | t["style"]
    return {"loc": [[p, q(float(v))] for p, v in t["loc"]], "color": hexa(s["color"]), "edge": hexa(s["edge_color"]) if s["edge_color"] is not None else "", "lw": q(s["line_width"]), "ls": ls(s["line_style"]),
            "alpha": q(s["alpha"]), "z": q(s["zorder"]), "marker": s["marker"] or "", "size": q(s["marker_size"]), "filled": s["marker"] in FILLED, "elw": q(s["marker_edge_width"])}


def run(case):
    import matplotlib.pyplot as plt

    from chainconsumer import Chain, ChainConsumer, PlotConfig

    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    cols = case["cols"]
    kind = case["kind"]
    for i in range(case["nchains"]):
        df = pd.DataFrame({p: np.exp(0.5 * rng.normal(size=40)) if p in case["log"] else rng.normal(size=40) for p in cols})
        if case["weights"]:
            df["weight"] = rng.random(40) + 0.5
        if case["posterior"]:
            df["log_posterior"] = -rng.random(40)
        cons.add_chain(Chain(samples=df, name=f"n{i}", smooth=0, bins=6, sigmas=[0, 1]))
    for t in case["truths"]:
        cons.add_truth(truth(t))
    cons.set_plot_config(PlotConfig(plot_hists=kind != "lower", flip=kind == "flipped", log_scales=case["log"], summarise=case["summarise"], blind=case["blind"]))
    wrap, lead = 4, 0
    pl = cons.plotter
    arg = {"columns": cols} if case["say"] else {}
    if case["pick"]:
        arg["chains"] = ["n0"]
    if kind in ("triangle", "flipped", "lower"):
        k, f = "triangle", lambda: pl.plot(**arg)
    elif kind == "distributions":
        wrap = case["wrap"]
        k, f = kind, lambda: pl.plot_distributions(col_wrap=wrap, **arg)
    elif kind in ("summary", "errorbar"):
        lead = 1
        k, f = "summary", lambda: pl.plot_summary(errorbar=kind == "errorbar", **arg)
    else:
        lead = case["pw"] + (case["pp"] and case["posterior"])
        k, f = "walks", lambda: pl.plot_walks(plot_weights=case["pw"], plot_posterior=case["pp"], convolve=case["convolve"], **arg)
    r = caught(f)
    o = {"ok": r["ok"], "panels": panels(r["v"]) if r["ok"] else []}
    if not r["ok"]:
        o["err"] = r
    plt.close("all")
    return [{"op": "figure", "in": {"kind": k, "d": {"cols": cols, "hists": kind != "lower", "flip": kind == "flipped"}, "wrap": wrap, "lead": int(lead), "truths": [spec(t) for t in case["truths"]]}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("NothingUngiven", "GivenIsShown", "MarkersNeedTwo", "EveryParameterHasAPanel"))
    m = []
    for n, p in ((1, 3), (2, 2), (ck.pick(1, 2), 3)):
        m += ck.model("MCTruths", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS TRUTHS = {n}\n PARAMS = {p}\n").out
    rng.shuffle(m)
    fast = [x for x in m if x["kind"] not in ("triangle", "lower", "flipped")]
    tri = [x for x in m if x["kind"] in ("triangle", "lower", "flipped")]
    cases = []
    for d in tri[: ck.pick(260, 5000)] + fast[: ck.pick(360, 6000)]:
        names = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1"], len(d["truths"][0]["has"]))
        cols = names if d["kind"] != "flipped" else names[:2]
        if d["kind"] == "lower" and len(cols) < 2:
            continue
        log = [p for p in cols if rng.random() < 0.2]
        truths = []
        for t in d["truths"]:
            style = {}
            for k, vs in (("color", ["#ff0000", "#123456", "green", "C1", [0.0, 0.4, 1.0]]), ("line_width", [0.5, 2.0, 3.0]), ("line_style", ["-", ":", "-.", "--", "dotted", "solid"]), ("alpha", [0.5, 0.25, 1.0]),
                          ("zorder", [0, 3, 7, 200, -1]), ("name", ["T", "$x$", None]), ("marker_size", [20.0, 100.0])):
                if rng.random() < 0.5:
                    style[k] = rng.choice(vs)
            if t["marker"]:
                style["marker"] = rng.choice(MARKERS)
                if style["marker"] in FILLED and rng.random() < 0.4:
                    style["edge_color"] = rng.choice(["#00ff00", "red"])
                if style["marker"] in FILLED and rng.random() < 0.4:
                    style["marker_edge_width"] = rng.choice([0.5, 2.0, 4.0])
            as_ = rng.choice(["float", "float", "int", "np"])
            loc = []
            for p, h in zip(names, t["has"]):
                if h:
                    v = rng.choice([0.5, 1.0, 2.25, 7.0]) if p in log else rng.choice([0.0, 0.0, 0.3, -1.25, 1.0, -40.0, 1e-9])
                    loc.append([p, int(v) or (1 if p in log else 0) if as_ == "int" else v])
            if rng.random() < 0.3:
                loc.append(["other", 0.5 if as_ != "int" else 1])
            rng.shuffle(loc)
            truths.append({"loc": loc, "style": style, "as": as_, "shape": rng.choice(["dict", "dict", "series"])})
        if rng.random() < 0.1:
            truths.append(truths[0])
        kind = d["kind"]
        cases.append({"kind": kind, "cols": cols, "truths": truths, "log": log, "seed": rng.randrange(10**6), "nchains": rng.choice([1, 1, 2, 3]) if kind not in ("triangle", "lower") else rng.choice([1, 1, 2]),
                      "weights": rng.random() < 0.4, "posterior": rng.random() < 0.4, "summarise": rng.random() < 0.3, "blind": rng.choice([False, False, False, True, cols[:1]]), "say": rng.random() < 0.5,
                      "pick": rng.random() < 0.2, "wrap": rng.choice([1, 2, 3, 4]), "pw": rng.random() < 0.5, "pp": rng.random() < 0.5, "convolve": rng.choice([None, None, 5])})
    ck.run("JTruths", cases, run)


RUN = {"JTruths": run}
