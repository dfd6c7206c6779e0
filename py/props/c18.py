"""C18: the triangle plot puts every parameter pair in its place."""
import numpy as np
import pandas as pd

from core import caught, q
from triview import cells

COLOURS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd", "#8c564b"]


def samples(case, c):
    rng = np.random.default_rng(c["seed"])
    n = 60
    base = rng.normal(size=n)
    df = {}
    for p in c["have"]:
        s = case["scale"][p]
        z = 0.4 * base + rng.normal(size=n)
        df[p] = np.exp(0.8 * z) * s["s"] if p in case["log"] else s["m"] + s["s"] * z
    df["log_posterior"] = -0.5 * base**2 - rng.random(n)
    if c["weighted"]:
        df["weight"] = rng.random(n) + 0.2
    return pd.DataFrame(df)


def run(case):
    from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth

    d = case["d"]
    cons = ChainConsumer()
    chains = []
    for i, c in enumerate(case["chains"]):
        ch = Chain(samples=samples(case, c), name=f"n{i}", color=COLOURS[i], zorder=20 * (i + 1), shade=c["shade"], smooth=0, bins=9, sigmas=[0, 1, 2],
                   plot_contour=c["contour"], plot_cloud=c["cloud"], plot_point=c["point"], num_cloud=c["num"])
        cons.add_chain(ch)
        chains.append(ch)
    if case["truth"]:
        cons.add_truth(Truth(location={p: case["scale"][p]["m"] + case["scale"][p]["s"] for p in d["cols"][:1]}))
    kw = dict(plot_hists=d["hists"], flip=d["flip"], log_scales=case["log"], extents={p: (a, b) for p, a, b in case["fixed"]},
              labels={p: t for p, t in case["labels"]}, max_ticks=case["ticks"], diagonal_tick_labels=case["diag"], summarise=case["sum"], spacing=case["spacing"])
    if not case["say"]:
        for k, v in (("plot_hists", True), ("flip", False), ("log_scales", []), ("extents", {}), ("labels", {})):
            if kw[k] == v:
                kw.pop(k)
    cons.set_plot_config(PlotConfig(**kw))
    drawn = [i for i in range(len(chains)) if case["pick"] is None or i in case["pick"]]
    args = {}
    if case["cols"]:
        args["columns"] = d["cols"]
    if case["pick"] is not None:
        args["chains"] = [chains[i] if case["byobj"] else chains[i].name for i in case["pick"]]
    r = caught(lambda: cons.plotter.plot(**args))
    o = {"ok": r["ok"], "cells": [c for c, _ in cells(r["v"], 20, COLOURS)] if r["ok"] else []}
    if not r["ok"]:
        o["err"] = r
    seen = [{"have": c["have"] if i in drawn else [], "contour": c["contour"] and i in drawn, "cloud": c["cloud"] and i in drawn, "point": c["point"] and i in drawn}
            for i, c in enumerate(case["chains"])]
    fixed = [[p, q(a), q(b)] for p, a, b in case["fixed"]]
    return [{"op": "triangle", "in": {"d": d, "log": case["log"], "fixed": fixed, "labels": case["labels"], "chains": seen}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("EveryPairOnce", "Ordered", "EveryMarginalOnce", "ColumnsShareX", "EveryParameterNamed", "OnlyTwoFlip"))
    cfg = f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\n"
    m = ck.model("MCTriangle", cfg + f"CONSTANTS MAXN = 3\n NCHAINS = {ck.pick(1, 2)}\n").out
    big = ck.model("MCTriangle", cfg + "CONSTANTS MAXN = 5\n NCHAINS = 1\n").out
    rng.shuffle(big)
    rng.shuffle(m)
    two = [x for x in m if len(x["cols"]) == 2]
    m = two[: ck.pick(130, 2000)] + [x for x in m if len(x["cols"]) != 2][: ck.pick(200, 6000)]
    m += [x for x in big if len(x["cols"]) == 4][: ck.pick(24, 400)] + [x for x in big if len(x["cols"]) == 5][: ck.pick(6, 100)]
    wide = [x for x in big if len(x["cols"]) == 5][-ck.pick(2, 20):]  # seven parameters: beyond the sizes the model draws out
    m += [{**x, "cols": [*x["cols"], "u", "v"], "have": [[*h, "u", "v"] for h in x["have"]]} for x in wide]
    cases = []
    for d in m:
        ren = dict(zip("pqrstuv", rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1", "beta", "Mass"], 7)))
        cols = [ren[p] for p in d["cols"]]
        allp = list(cols)
        rng.shuffle(allp)
        order = rng.random() < 0.5  # ask for the columns explicitly, in another order than the chains have them
        chains = []
        haves = [[ren[p] for p in h] for h in d["have"]]
        while len(haves) < 5 and rng.random() < 0.5:
            haves.append(rng.sample(cols, rng.randint(1, len(cols))) + (["extra"] if rng.random() < 0.3 and order else []))
        for h in haves:
            h = list(h)
            if order:
                rng.shuffle(h)
            mode = rng.choice([(1, 0, 0)] * 4 + [(1, 1, 0), (1, 0, 1), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 0)])
            chains.append({"have": h, "seed": rng.randrange(10**6), "weighted": rng.random() < 0.3, "contour": bool(mode[0]), "cloud": bool(mode[1]), "point": bool(mode[2]),
                           "shade": rng.random() < 0.3, "num": rng.choice([10, 30, 1000])})
        scale = {p: {"m": rng.choice([0.0, 1.0, -40.0, 3e6, 0.0]), "s": 10.0 ** rng.choice([-6, -3, -1, 0, 0, 1, 5])} for p in [*cols, "extra"]}
        log = [ren[p] for p in d["log"]] if rng.random() < 0.6 else []
        for p in scale:
            if scale[p]["m"] == 3e6 and scale[p]["s"] < 1:
                scale[p]["s"] = 1.0
        fixed = []
        if rng.random() < 0.6:
            for p in d["fixed"]:
                p = ren[p]
                s = scale[p]
                fixed.append([p, 0.4 * s["s"], 6.0 * s["s"]] if p in log else [p, s["m"] - rng.choice([1.0, 4.0]) * s["s"], s["m"] + 2.5 * s["s"]])
        pick = None
        drawable = lambda ix: {p for i in ix if any(chains[i][k] for k in ("contour", "cloud")) for p in chains[i]["have"]}  # noqa: E731
        if rng.random() < 0.35:
            pick = sorted(rng.sample(range(len(chains)), rng.randint(1, len(chains))))
        ix = range(len(chains)) if pick is None else pick
        if not set(cols) <= drawable(ix):
            for c in chains:
                c["contour"] = True
            if not set(cols) <= drawable(ix):
                pick, ix = None, range(len(chains))
        if not order:  # the columns are then those of the drawn chains in order of appearance
            cols = []
            for i in ix:
                if any(chains[i][k] for k in ("contour", "cloud", "point")):
                    cols += [p for p in chains[i]["have"] if p not in cols]
        else:
            cols = [p for p in allp if p in cols]
        if not d["hists"] and len(cols) < 2:
            continue
        cases.append({"d": {"cols": cols, "hists": d["hists"], "flip": d["flip"]}, "log": [p for p in log if p in cols], "fixed": fixed, "chains": chains, "scale": scale, "cols": order, "pick": pick,
                      "byobj": rng.random() < 0.3, "labels": [[p, rng.choice(["$L_1$", "the label " + p, "n_s"])] for p in cols if rng.random() < 0.4],
                      "ticks": rng.choice([5, 5, 3, 8]), "diag": rng.random() < 0.6, "sum": rng.random() < 0.3, "spacing": rng.choice([None, None, 0.0, 2.0]), "say": rng.random() < 0.5,
                      "truth": rng.random() < 0.2})
    ck.run("JTriangle", cases, run)


RUN = {"JTriangle": run}
