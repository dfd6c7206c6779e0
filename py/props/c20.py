"""C20: marginal curves are the density and the shading is the summary."""
import numpy as np
import pandas as pd

from core import caught, q, qs
from figproj import project
from props.c08 import column, values

COLOURS = ["#d62728", "#1f77b4", "#2ca02c"]


def blank():
    return {"found": 0, "form": "-", "from": "0", "to": "0", "least": "0", "area": "0", "top": "0", "pts": [], "edges": [], "heights": [], "spans": [], "tops": [], "base": "0", "title": ""}


def look(a, colour, flip, ok=True):
    """The marginal of one colour in a panel, in (parameter, density) coordinates."""
    P, D = ("y", "x") if flip else ("x", "y")
    p, d = (1, 0) if flip else (0, 1)
    o = blank() | {"ok": ok, "title": a["title"]}
    lines = [ln for ln in a["lines"] if ln["kind"] == "data" and ln["color"] == colour]
    steps = [s for s in a["steps"] if s["color"] == colour]
    o["found"] = len(lines) + len(steps)
    if o["found"] != 1:
        return o
    if lines:
        xs, ys = lines[0][P], lines[0][D]
        o["form"] = "line"
        k = sorted({int(t * (len(xs) - 1)) for t in np.linspace(0.01, 0.99, 13)} | {int(np.argmax(ys))})
        o["pts"] = [[q(xs[i]), q(ys[i])] for i in k]
        o["area"] = q(float(np.sum(0.5 * (ys[1:] + ys[:-1]) * np.diff(xs))))
        cx, cy = xs, ys
    else:
        xy = steps[0]["xy"]
        if len(xy) > 3 and (xy[0] == xy[-1]).all():
            xy = xy[: len(xy) // 2 + 1] if len(xy) % 2 else xy[:-1]
        ex = xy[0::2][:, p]
        hs = xy[1::2][:, d][: len(ex) - 1]
        o["form"] = "step"
        o["edges"], o["heights"] = qs(ex), qs(hs)
        xs, ys = ex, hs
        cx, cy = np.repeat(ex, 2)[1:-1], np.repeat(hs, 2)
    o["from"], o["to"], o["least"], o["top"] = q(np.min(xs)), q(np.max(xs)), q(np.min(ys)), q(np.max(ys))
    fills = [f for f in a["fills"] if f["color"] == colour]
    o["spans"] = sorted(([q(f[P][0]), q(f[P][1])] for f in fills), key=lambda s: float(eval(s[0])))
    o["base"] = q(min([0.0] + [f[D][0] for f in fills]))
    near = 2e-3 * (cx.max() - cx.min())
    for f in fills:
        v = f["verts"]
        v = v[(v[:, p] > f[P][0] + near) & (v[:, p] < f[P][1] - near)]
        v = v[v[:, d] > 0]
        for i in np.linspace(0, len(v) - 1, 6).astype(int) if len(v) else []:
            x, y = v[i, p], v[i, d]
            m = (cx >= x - near) & (cx <= x + near)
            at = [float(np.interp(x, cx, cy)), float(np.interp(x - near, cx, cy)), float(np.interp(x + near, cx, cy)), *cy[m]]
            o["tops"].append([q(min(at)), q(y), q(max(at))])
    return o


def steps_of(a):
    return [s["xy"] for s in a["steps"]]


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from chainconsumer.plotting import plot_dist
    from chainconsumer.statistics import SummaryStatistic

    cons = ChainConsumer()
    kind = case["kind"]
    ev, chains = [], []
    rng = np.random.default_rng(case["seed"])
    for i, c in enumerate(case["chains"]):
        x, w, _ = values({**c, "power": 1.0})
        s = c["set"]
        df = {"x": x}
        if case["second"]:
            df["other"] = rng.normal(size=len(x))
        if c["keepw"]:
            df["weight"] = w
        else:
            w = np.ones(len(x))
        kw = {} if s["shade"] is None else {"shade": s["shade"]}
        kw |= {} if s["bar"] is None else {"bar_shade": s["bar"]}
        ch = Chain(samples=pd.DataFrame(df), name=f"c{i}", statistics=SummaryStatistic(s["stat"]), summary_area=s["area"], smooth=s["smooth"], bins=s["bins"], kde=s["kde"], grid=c["kind"] == "grid",
                   power=s["power"], histogram_relative_height=s["rel"], color=COLOURS[i], multimodal=s["multi"], plot_contour=s["contour"], plot_cloud=not s["contour"], **kw)
        cons.add_chain(ch)
        chains.append(ch)
        grid = c["kind"] == "grid"
        smooth = s["smooth"] if s["smooth"] is not None else (0 if grid else 3)
        kde = "none" if s["kde"] is False else q(float(s["kde"]))
        pad = bool(smooth) or kde != "none"
        ev.append({"op": "curve", "in": {"xs": qs(x), "ws": qs(w), "ps": qs(x), "cols": len(df), "grid": grid, "smooth": smooth, "bins": "none" if s["bins"] is None else str(s["bins"]), "kde": kde, "pad": pad,
                                         "power": q(s["power"]), "rel": q(s["rel"])}})
    lab = case["label"]
    cfg = PlotConfig(summarise=case["summarise"], blind=["x"] if case["blind"] else False, flip=kind == "flipped", labels={"x": lab} if lab else {})
    cons.set_plot_config(cfg)
    cols = ["other", "x"] if case["second"] and (case["order"] or kind == "flipped") else ["x", "other"] if case["second"] else ["x"]
    if kind in ("triangle", "flipped"):
        f = lambda: cons.plotter.plot(columns=cols)  # noqa: E731
    elif kind == "distributions":
        f = lambda: cons.plotter.plot_distributions(columns=cols)  # noqa: E731
    elif kind == "summary":
        f = lambda: cons.plotter.plot_summary(columns=cols)  # noqa: E731
    else:

        def f():
            fig, ax = plt.subplots()
            plot_dist(ax, chains[0], "x", config=cfg, summary=case["summarise"])
            return fig

    r = caught(f)
    pr = project(r["v"], draw=False) if r["ok"] else None
    k = cols.index("x")
    shown = len([c for c in case["chains"] if c["set"]["contour"]])
    out = []
    for i, e in enumerate(ev):
        ch = chains[i]
        s = case["chains"][i]["set"]
        if kind == "plot_dist" and i or not (s["contour"] or kind == "plot_dist"):
            continue
        one = kind == "plot_dist"
        b = cons.analysis.get_parameter_summary(ch, "x") if one else cons.analysis.get_summary(chains=[ch], columns=["x"])[ch.name]["x"]
        bb = b if isinstance(b, list) else [b]
        e["in"]["b"] = [[q(z.lower), q(z.upper)] for z in bb if z.lower is not None and z.upper is not None]
        e["in"]["alone"] = one
        on = (ch.shade and ch.shade_alpha > 0) if one else ch.bar_shade
        text = caught(lambda: cons.analysis.get_parameter_text(b, wrap=True, label=(lab or "x").strip("$")))
        e["in"]["title"] = f"$x = {cons.analysis.get_parameter_text(b, wrap=False)}$" if one else text["v"] if text["ok"] else "-"
        e["in"]["else"] = (lab or "x") if kind == "summary" and i == 0 else ""
        e["in"]["shaded"] = bool(on)
        e["in"]["scene"] = {"summarise": case["summarise"] and kind != "summary", "on": bool(on) or one, "blind": case["blind"] and not one, "chains": shown if not one else 1}
        if pr is None:
            e["out"] = blank() | {"ok": False, "err": r}
        else:
            if kind in ("triangle", "flipped"):
                row, col = k, k
            elif kind == "summary":
                row, col = i, k + 1
            else:
                row, col = 0, 0 if one else k
            a = next(z for z in pr["axes"] if z["row"] == row and z["col"] == col)
            e["out"] = look(a, COLOURS[i], kind == "flipped")
        out.append(e)
    plt.close("all")
    return out


def chain_case(rng, counts, kind):
    k = "shape" if counts else rng.choice(["normal", "gauss", "skew", "edge", "two", "t", "grid"])
    c = column(rng, k, counts)
    c["power"] = 1.0
    s = c["set"]
    c["keepw"] = k == "grid" or rng.random() < 0.85
    s.update(power=1.0, rel=rng.choice([1.0, 1.0, 0.5, 2.0]), bar=rng.choice([None, True, True, False]), shade=rng.choice([None, True, False]), multi=False, contour=True)
    if rng.random() < 0.25 and s["smooth"] != 0:
        s["smooth"] = 0
        s["kde"] = False
    if k == "grid":
        s["smooth"] = rng.choice([None, None, 0, 1, 2, 3])
    if k == "grid":
        c["power"] = 1.0
    plain = s["smooth"] == 0 and s["kde"] is False
    if plain and k != "grid" and rng.random() < 0.3:
        s["bins"] = rng.choice([3, 5, 8])
    if k == "normal" and s["smooth"] != 0 or plain:
        s["power"] = rng.choice([1.0, 2.0, 0.5, 1.5])
    if k == "grid" and s["smooth"] == 0:
        s["power"] = rng.choice([1.0, 2.0])
    if k == "two" and kind != "plot_dist" and s["smooth"] != 0 and rng.random() < 0.6:
        s["multi"] = True
        s["stat"] = "hdi"
    elif k in ("shape", "two") and rng.random() < 0.3:
        s["stat"] = "max"
    return c


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("UnitArea", "NotNegative", "SameOrder", "PowersPowered", "NoTitleOfSeveral"))
    m = ck.model("MCCurve", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS CELLS = {ck.pick(5, 6)} TOP = 3\n").out
    shapes = [x["c"] for x in m if x["t"] == "shape"]
    scenes = [x for x in m if x["t"] == "scene"]
    rng.shuffle(shapes)
    rng.shuffle(scenes)
    cases = []
    for i in range(ck.pick(300, 5000)):
        d = scenes[i % len(scenes)]
        kind = d["kind"]
        n = d["chains"] if kind != "plot_dist" else 1
        chains = [chain_case(rng, shapes.pop() if shapes and rng.random() < 0.35 else None, kind) for _ in range(n)]
        second = kind == "flipped" or rng.random() < 0.15
        for c in chains:
            s = c["set"]
            s["bar"] = d["on"] if not d["on"] or rng.random() < 0.7 else None
            s["shade"] = d["on"] if kind == "plot_dist" or rng.random() < 0.5 else None
            if second:  # keep the joint panel cheap
                s["kde"] = False
                s["smooth"] = min(s["smooth"] if s["smooth"] is not None else 3, 2) if c["kind"] != "grid" else 0
                if s["smooth"]:
                    s["bins"] = min(s["bins"] or 30, 40)
                if c["kind"] == "grid":
                    c["kind"], c["keepw"], s["power"] = "gauss", True, 1.0
                if s["smooth"] and c["kind"] != "normal":
                    s["power"] = 1.0
        if kind == "triangle" and n == 2 and rng.random() < 0.4:
            chains[1]["set"]["contour"] = False
        if kind == "triangle" and not second:
            for c in chains[1:]:
                c["set"]["contour"] = c["set"]["contour"]
        cases.append({"kind": kind, "chains": chains, "second": second, "order": rng.random() < 0.5, "summarise": d["summarise"], "blind": d["blind"] and kind != "plot_dist",
                      "label": rng.choice([None, None, "$\\Omega$", "mass"]), "seed": rng.randrange(10**6)})
    ck.run("JCurve", cases, run, limit=200)


RUN = {"JCurve": run}
