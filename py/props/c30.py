"""C30: the distribution plot and the summary plot show the right marginal in each cell."""
import numpy as np
import pandas as pd

from core import caught, q, qs
from figproj import project

COLORS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd"]


def rgb(h):
    return [int(h[k : k + 2], 16) for k in (1, 3, 5)]


def curve(v, d, hist):
    o = {"rgb": rgb(v["color"]), "form": "line", "edges": [], "heights": [], "pts": [], "area": "0", "top": "0"}
    if hist:
        xy = v["xy"]
        if len(xy) > 3 and (xy[0] == xy[-1]).all():
            xy = xy[: len(xy) // 2 + 1] if len(xy) % 2 else xy[:-1]
        ex = xy[0::2][:, 0]
        hs = xy[1::2][:, 1][: len(ex) - 1]
        return o | {"form": "step", "edges": qs(ex), "heights": qs(hs), "top": q(max(hs))}
    xs, ys = v["x"], v["y"]
    cum = np.concatenate([[0.0], np.cumsum(0.5 * (ys[1:] + ys[:-1]) * np.diff(xs))])
    k = [int(t * (len(xs) - 1)) for t in (0.2, 0.35, 0.5, 0.65, 0.8)]
    return o | {"pts": [[q(float(xs[j])), q(float(cum[j]))] for j in k], "area": q(float(cum[-1])), "top": q(float(ys.max()))}


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from chainconsumer.statistics import SummaryStatistic

    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    told = []
    for i, c in enumerate(case["chains"]):
        n = c["n"]
        df = {}
        for p in c["has"]:
            j = case["names"].index(p)
            f = 10.0 ** case["mag"][j]
            df[p] = f * (3.0 * rng.permutation(4)[0] + 1.3 * i + rng.gamma(4.0, 0.5 + 0.4 * i, n))
        w = np.ones(n)
        if c["weighted"]:
            df["weight"] = w = rng.random(n) + 0.2
        if c["role"] in ("point", "both"):
            df["log_posterior"] = -rng.random(n)
        ch = Chain(samples=pd.DataFrame(df), name=c["name"], color=COLORS[i], smooth=c["smooth"], kde=c["kde"], bins=c["bins"], statistics=SummaryStatistic(c["stat"]), histogram_relative_height=c["rel"], sigmas=[0, 1],
                   plot_contour=c["role"] in ("contour", "both"), plot_cloud=c["role"] == "cloud", plot_point=c["role"] in ("point", "both"))
        cons.add_chain(ch)
        told.append({"name": c["name"], "rgb": rgb(COLORS[i]), "contour": c["role"] in ("contour", "both"), "cloud": c["role"] == "cloud", "params": c["has"], "rel": q(c["rel"]), "sums": {},
                     "data": {p: {"xs": qs(df[p]), "ws": qs(w), "kind": "step" if c["smooth"] == 0 and c["kde"] is False else "line"} for p in c["has"]}})
    ext = {p: v for p, v in case["extents"].items()}
    cons.set_plot_config(PlotConfig(labels=case["labels"], legend_color_text=case["text"], summarise=case["summarise"], extents=ext, watermark=case["watermark"]))
    order = case["pick"] or list(range(len(told)))
    kw = {}
    if case["cols"]:
        kw["columns"] = case["cols"]
    if case["pick"]:
        kw["chains"] = [case["chains"][i]["name"] for i in case["pick"]]
    if case["kind"] == "distributions":
        if case["wrap"] != 4 or case["explicit"]:
            kw["col_wrap"] = case["wrap"]
        fn = cons.plotter.plot_distributions
    else:
        if case["errorbar"] or case["explicit"]:
            kw["errorbar"] = case["errorbar"]
        fn = cons.plotter.plot_summary
    if case["errorbar"]:
        for t in told:
            s = cons.analysis.get_summary(chains=[cons.get_chain(t["name"])], columns=t["params"]).get(t["name"], {})
            for p in t["params"]:
                b = s.get(p)
                t["sums"][p] = qs(b.array) if b is not None and b.lower is not None and b.upper is not None and b.center is not None else []
    r = caught(lambda: project(fn(**kw), draw=False))
    o = {"ok": r["ok"], "shape": [], "panels": []}
    if r["ok"]:
        A = r["v"]["axes"]
        o["shape"] = [max(a["row"] for a in A) + 1, max(a["col"] for a in A) + 1]
        for a in A:
            lines = [ln for ln in a["lines"] if ln["kind"] == "data" and ln["marker"] in ("None", "none", "", " ")]
            marks = [ln for ln in a["lines"] if ln["kind"] == "data" and ln["marker"] not in ("None", "none", "", " ")]
            cv = [curve(v, None, False) for v in lines] + [curve(v, None, True) for v in a["steps"]]
            # chains are told apart by their colours
            cv.sort(key=lambda v: [told[i]["rgb"] for i in order].index(v["rgb"]) if v["rgb"] in [told[i]["rgb"] for i in order] else 99)
            bars = []
            for m, sg in zip(marks, a["segments"]):
                xs = sorted({float(x) for x in np.asarray(sg["segs"])[..., 0].ravel()})
                bars.append({"rgb": rgb(m["color"]), "v": [q(xs[0]), q(float(m["x"][0])), q(xs[-1])]})
            if len(marks) != len(a["segments"]):
                bars.append({"rgb": [], "v": []})
            o["panels"].append({"at": [a["row"] + 1, a["col"] + 1], "on": a["on"], "title": a["title"] if case["kind"] == "summary" else "", "xlabel": a["xlabel"], "xlim": qs(a["xlim"]), "ylim": qs(a["ylim"]),
                                "names": [{"s": t["s"], "rgb": rgb(t["color"])} for t in a["texts"]] if a["col"] == 0 else [], "curves": cv, "bars": bars})
    else:
        o["err"] = str(r)[:300]
    plt.close("all")
    return [{"op": "panels", "in": {"kind": case["kind"], "cols": case["cols"], "wrap": case["wrap"], "chains": [told[i] for i in order], "labels": {p: case["labels"].get(p, p) for p in case["names"]},
                                    "text": case["text"], "errorbar": case["errorbar"], "extents": {p: qs(ext[p]) if p in ext else [] for p in case["names"]}}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("EveryParameter", "InOrder", "FewBlanks", "Once", "DefaultIsUnion"))
    cfg = f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\n"
    m = ck.model("MCPanels", cfg + f"CONSTANT CHAINS = {ck.pick(2, 3)}\n").out
    rng.shuffle(m)
    cases = []
    for d in m:
        if len(cases) >= ck.pick(260, 5000):
            break
        base = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1", "r"], 3)
        nm = dict(zip("pqr", base))
        cs = list(d["chains"])
        extra = rng.random() < 0.35
        if extra:
            cs += [dict(rng.choice(cs))]
        chains = [{"name": f"{rng.choice(['chain', 'A', 'x_1', 'B & C', 'quite a long name'])} {i}", "role": c["role"], "has": [nm[p] for p in c["has"]], "n": rng.choice([40, 60, 90]), "weighted": rng.random() < 0.4,
                   "smooth": (s := rng.choice([0, 0, 1, 3])), "kde": False if s == 0 or rng.random() < 0.6 else 0.3, "bins": rng.choice([12, 17, 25]), "rel": rng.choice([1.0, 1.0, 0.5, 2.0]), "stat": rng.choice(["max", "mean", "cumulative", "hdi"])} for i, c in enumerate(cs)]
        pick = sorted(rng.sample(range(len(cs)), rng.randrange(1, len(cs) + 1)), key=lambda _: rng.random()) if rng.random() < 0.35 else []
        use = pick or list(range(len(cs)))
        cols = [nm[p] for p in d["cols"]]
        need = cols or sorted({p for i in use for p in chains[i]["has"]})
        # a range needs samples drawn
        if not all(any(p in chains[i]["has"] and chains[i]["role"] != "point" for i in use) for p in need):
            continue
        mag = [rng.choice([0, 0, 2, -3]) for _ in range(3)]
        ext = {p: [-2.0 * 10.0 ** mag[base.index(p)], 14.0 * 10.0 ** mag[base.index(p)]] for p in base if rng.random() < 0.15}
        cases.append({"chains": chains, "pick": pick, "cols": cols, "kind": d["kind"], "wrap": d["wrap"], "names": base, "mag": mag, "extents": ext, "labels": {p: f"label {k}" for k, p in enumerate(base) if rng.random() < 0.3},
                      "text": rng.random() < 0.6, "explicit": rng.random() < 0.5, "errorbar": d["kind"] == "summary" and rng.random() < 0.4, "summarise": rng.random() < 0.5, "watermark": rng.choice([None, None, "Draft"]), "seed": rng.randrange(10**6)})
    ck.run("JPanels", cases, run, limit=200)


RUN = {"JPanels": run}
