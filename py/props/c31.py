"""C31: point clouds draw real samples, evenly thinned, coloured by their own row."""
import numpy as np
import pandas as pd

from core import caught, q, qs
from figproj import project

COLORS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd"]


def rgb(h):
    return [int(h[k : k + 2], 16) for k in (1, 3, 5)]


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    told = []
    order = case["pick"] or list(range(len(case["chains"])))
    for i, c in enumerate(case["chains"]):
        n = c["n"]
        df = pd.DataFrame({p: rng.normal(size=n) * c["scale"] for p in c["params"]})
        if c["dup"]:
            df = df.iloc[rng.integers(0, n, n)].reset_index(drop=True)
        cols = []
        kw = {}
        if c["weights"] and c["color"] != "weight":
            df["weight"] = rng.random(n) + 0.01
        if c["color"] != "-":
            df[c["color"]] = rng.random(n) + 0.01
            cols = qs(df[c["color"]])
            kw["color_param"] = c["color"]
        if c["index"]:
            df.index = rng.permutation(n) + 3
        if c["cmap"]:
            kw["cmap"] = c["cmap"]
        if c["k"]:
            kw["num_cloud"] = c["k"]
        ch = Chain(samples=df, name=f"c{i}", color=COLORS[i], plot_cloud=c["cloud"], plot_contour=c["contour"], smooth=0, bins=6, sigmas=[0, 1], shade=False, zorder=c["z"], **kw)
        cons.add_chain(ch)
        told.append({"data": {p: qs(df[p]) for p in c["params"]}, "colors": cols, "k": ch.num_cloud, "rgb": rgb(COLORS[i]), "cmap": ch.cmap, "n": n, "cloud": c["cloud"]})
    cons.set_plot_config(PlotConfig(flip=case["flip"], plot_hists=case["hists"], summarise=False, show_legend=False))
    arg = {"columns": case["cols"]}
    if case["pick"]:
        arg["chains"] = [f"c{i}" for i in case["pick"]]
    r = caught(lambda: project(cons.plotter.plot(**arg), draw=False))
    plt.close("all")
    o = {"ok": r["ok"], "panels": []}
    if r["ok"]:
        for ax in r["v"]["axes"]:
            if ax["colorbar"]:
                continue
            tops = {}
            k = ax["row"] if case["hists"] else ax["row"] + 1
            pair = {case["cols"][ax["col"]], case["cols"][k]} if k < len(case["cols"]) else {0}
            mine = [i for i in order if case["chains"][i]["contour"] and pair <= set(case["chains"][i]["params"])]
            if len(mine) == len(ax["contours"]):  # one set of lines each, in the order of the chains
                tops = {COLORS[i]: t["z"] for i, t in zip(mine, ax["contours"])}
            o["panels"].append({"r": ax["row"] + 1, "c": ax["col"] + 1, "tops": [{"rgb": rgb(x), "z": q(z)} for x, z in tops.items()],
                                "clouds": [{"xs": qs(s["xy"][:, 0]), "ys": qs(s["xy"][:, 1]), "cs": [] if s["array"] is None else qs(s["array"]), "rgb": rgb(s["color"]), "cmap": s["cmap"], "z": q(s["z"])} for s in ax["scatters"]]})
    else:
        o["err"] = str(r)
    return [{"op": "clouds", "in": {"lay": {"cols": case["cols"], "hists": case["hists"], "flip": case["flip"]}, "chains": [told[i] for i in order]}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Some", "Default", "AllWhenFew", "Spread", "Enough"))
    m = ck.model("MCCloud", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS TOP = {ck.pick(14, 24)}\n PANELS = 1\n").out
    rng.shuffle(m)
    cases = []
    for d in m[: ck.pick(230, 4000)]:
        names = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1"], 3)
        cols = names[: d["cols"]]
        cs = []
        for j in range(rng.choice([1, 1, 2, 3])):
            f = rng.choice([1, 1, 7, 41])
            cs.append({"params": rng.sample(names, 3) if j == 0 or rng.random() < 0.6 else rng.sample(names, 2), "n": max(d["n"] * f + rng.choice([0, 0, 1, 2]), 4) * (2 if f == 41 and rng.random() < 0.5 else 1) if j == 0 else rng.randrange(4, 120), "k": max(1, d["k"] * rng.choice([1, f, 2 * f])) if rng.random() < 0.9 else 0,
                       "color": rng.choice(["weight", "u", "log_posterior"]) if d["color"] else "-", "contour": d["contour"] if j == 0 else rng.random() < 0.4, "cloud": j == 0 or rng.random() < 0.7, "weights": rng.random() < 0.4, "dup": rng.random() < 0.1, "index": rng.random() < 0.3,
                       "cmap": rng.choice([None, "plasma", "gray"]), "scale": rng.choice([1.0, 1e-3]), "z": rng.choice([10, 10, 12, 1])})
        # a contour needs enough samples
        for c in cs:
            if not c["cloud"]:
                c["contour"] = True
            if c["contour"]:
                c["n"] = max(c["n"], 12)
        pick = []
        if rng.random() < 0.25:
            pick = sorted(rng.sample(range(len(cs)), rng.randrange(1, len(cs) + 1)), key=lambda _: rng.random())
        if not all(any(p in cs[i]["params"] for i in pick or range(len(cs))) for p in cols):
            continue
        cases.append({"chains": cs, "pick": pick, "cols": rng.sample(cols, len(cols)), "flip": d["flip"], "hists": d["hists"], "seed": rng.randrange(10**6)})
    ck.run("JCloud", cases, run, limit=200)


RUN = {"JCloud": run}
