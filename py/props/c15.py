"""C15: the max posterior point is the best sample, and markers sit where put."""
import numpy as np
import pandas as pd

from core import caught, num, nums, q, qs
from figproj import project

COLOURS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd", "#8c564b", "#e377c2"]
STYLES = [".", "x", "+", "s", "D", "*", "^", "v", "o"]


def paths():
    from matplotlib.markers import MarkerStyle

    out = {}
    for s in STYLES:
        m = MarkerStyle(s)
        out[s] = np.asarray(m.get_path().transformed(m.get_transform()).vertices, float).round(6).tolist()
    return out


def frame(c):
    rng = np.random.default_rng(c["seed"])
    n = len(c["lps"])
    df = {p: np.round(rng.normal(size=n) * 512) / 512 * c["scale"][i] + c["mean"][i] for i, p in enumerate(c["have"])}
    if c["color_param"]:
        df["tint"] = rng.random(n)
    if c["has"]:
        df[c["pname"]] = np.asarray(c["lps"], float)
    if c["weighted"]:
        w = rng.random(n) + 0.01
        df["weight"] = w
    df = pd.DataFrame(df)
    if c["shuffle"]:
        df = df[[df.columns[i] for i in rng.permutation(len(df.columns))]]
    if c["index"] == "reversed":
        df.index = np.arange(n)[::-1]
    elif c["index"] == "same":
        df.index = [7] * n
    elif c["index"] == "text":
        df.index = [f"r{i % 3}" for i in range(n)]
    return df


def run(case):
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    cons = ChainConsumer()
    d = case["d"]
    specs, chains = [], []
    for i, c in enumerate(case["chains"]):
        if c["marker"]:
            loc = {p: v for p, v in zip(c["have"], c["at"])}
            cons.add_marker(loc, c["name"], color=COLOURS[i], marker_style=c["style"], marker_size=c["size"], marker_alpha=c["alpha"], zorder=20 * (i + 1))
            specs.append({"name": c["name"], "lps": ["1"], "rows": [qs([float(v) for v in c["at"]])], "have": c["have"]})
        else:
            df = frame(c)
            kw = {"color_param": "tint"} if c["color_param"] else {}
            ch = Chain(samples=df, name=c["name"], color=COLOURS[i], zorder=20 * (i + 1), marker_style=c["style"], marker_size=c["size"], marker_alpha=c["alpha"], smooth=0, bins=8,
                       sigmas=[0, 1], shade=False, plot_point=c["point"], plot_contour=c["contour"], plot_cloud=c["cloud"], posterior_column=c["pname"], **kw)
            cons.add_chain(ch)
            have = [x for x in df.columns if x in c["have"]]
            if c["color_param"] and not c["cloud"]:
                have = [x for x in df.columns if x in c["have"] or x == "tint"]
            specs.append({"name": c["name"], "lps": qs(df[c["pname"]]) if c["has"] else [], "rows": [qs(r) for r in df[have].to_numpy()], "have": have})
        specs[-1].update(point=c["marker"] or c["point"], contour=c["contour"] and not c["marker"], style=c["style"], size=q(c["size"]), alpha=q(c["alpha"]), color=COLOURS[i])
        chains.append(cons.get_chain(c["name"]))

    def rec(p):
        if p is None:
            return {"has": False, "lp": num(None), "names": [], "at": []}
        return {"has": True, "lp": num(p.log_posterior), "names": list(p.coordinate), "at": nums(p.coordinate.values())}

    ev = []
    own = [caught(lambda ch=ch: rec(ch.get_max_posterior_point())) for ch in chains]
    own = [r["v"] if r["ok"] else {"has": False, "lp": num(None), "names": ["error"], "at": []} for r in own]
    r = caught(lambda: cons.analysis.get_max_posteriors())
    every = {"ok": r["ok"], "v": [rec(r["v"].get(s["name"])) for s in specs] if r["ok"] else []}
    # truncated rows: the judge needs only the contending rows, all others are strictly worse
    ev.append({"op": "best", "in": {"chains": specs}, "out": {"own": own, "all": every, "names": list(r["v"]) if r["ok"] else []}})
    for pl in case["plots"]:
        cons.set_plot_config(PlotConfig(plot_hists=pl["hists"], flip=pl["flip"], summarise=False))
        dd = {"cols": pl["cols"], "hists": pl["hists"], "flip": pl["flip"]}
        kw = {} if pl["pick"] is None else {"chains": [specs[k]["name"] for k in pl["pick"]]}
        r = caught(lambda kw=kw: cons.plotter.plot(columns=pl["cols"], **kw))
        cs = []
        if r["ok"]:
            ps = paths()
            for a in project(r["v"])["axes"]:
                if a["colorbar"]:
                    continue
                dots = []
                for sc in a["scatters"]:
                    if sc["z"] % 20 != 1:
                        continue
                    for x, y in sc["xy"]:
                        dots.append({"who": int(sc["z"] // 20), "x": num(x), "y": num(y), "size": q(sc["size"]), "alpha": q(sc["alpha"] if sc["alpha"] is not None else sc["rgba_alpha"]),
                                     "color": sc["color"] if sc["color"] != "none" else sc["edge"], "style": [s for s in STYLES if ps[s] == sc["path"]]})
                cs.append({"r": a["row"] + 1, "c": a["col"] + 1, "dots": dots})
        seen = [{**s, "point": s["point"] and (pl["pick"] is None or i in pl["pick"])} for i, s in enumerate(specs)]
        ev.append({"op": "plot", "in": {"d": dd, "chains": seen}, "out": {"ok": r["ok"], "cells": cs, "err": "" if r["ok"] else r["err"] + r["msg"]}})
    return ev


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Exists", "Ties", "OrderFree", "ShiftFree", "Longer"))
    m = ck.model("MCPoints", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS ROWS = {ck.pick(4, 6)}\n").out
    rng.shuffle(m)
    m = m[: ck.pick(480, 4300)]
    cases = []
    P = ["p", "q", "r"]
    while m:
        chains = []
        names = rng.sample(["A", "B", "best fit", "m1", "m2", "z"], 6)
        for nm in names[: rng.choice([1, 2, 2, 3, 4])]:
            if not m:
                break
            marker = rng.random() < 0.3
            have = rng.sample(P, rng.choice([1, 2, 3, 3, 3]))
            c = {"name": nm, "marker": marker, "have": have, "style": rng.choice(STYLES), "size": float(rng.choice([1, 20, 64.5, 300])), "alpha": rng.choice([1.0, 0.5, 0.0, 0.25, 0.05]),
                 "seed": rng.randrange(10**6), "contour": False, "cloud": False, "point": True, "has": True}
            if marker:
                c["at"] = [rng.choice([0, -3, 2.5, 1e-9, 4e7, 7]) for _ in have]
            else:
                x = m.pop()
                lps = [v * rng.choice([1, 1, 100]) + rng.choice([0, -7, 2.5, 1000]) for v in [*x["lps"]]] if rng.random() < 0.3 else list(x["lps"])
                if rng.random() < 0.3:  # differences of the size where rounding would merge them
                    f = 2.0 ** rng.choice([-12, -24, -34, 20])
                    lps = [v * f - rng.choice([0, 16]) for v in lps]
                big = rng.random() < 0.4
                if big:  # the same ranking, inside a chain long enough for contours and clouds
                    lps = lps + [min(lps) - 1 - k % 17 for k in range(50)]
                    rng.shuffle(lps)
                c.update(lps=lps, index=x["index"], has=rng.random() < 0.9, pname=rng.choice(["log_posterior", "log_posterior", "lnp"]), weighted=rng.random() < 0.4,
                         shuffle=rng.random() < 0.4, color_param=rng.random() < 0.2, contour=big and rng.random() < 0.6, cloud=big and rng.random() < 0.4,
                         point=rng.random() < 0.85, scale=[2.0 ** rng.choice([-14, 0, 0, 9]) for _ in have], mean=[rng.choice([0.0, 0.0, -8.0, 1024.0]) for _ in have])
            chains.append(c)
        plots = []
        for _ in range(rng.choice([0, 1, 1])):
            pick = None if rng.random() < 0.6 else sorted(rng.sample(range(len(chains)), rng.randint(1, len(chains))))
            ix = range(len(chains)) if pick is None else pick
            ok = [i for i in ix if chains[i]["marker"] or (chains[i]["has"] and chains[i]["point"]) or chains[i]["contour"] or chains[i]["cloud"]]
            shown = {p for i in ok for p in chains[i]["have"]}
            if len(shown) >= 2:
                cols = rng.sample(sorted(shown), rng.randint(2, len(shown)))
                plots.append({"pick": pick, "cols": cols, "hists": rng.random() < 0.6, "flip": rng.random() < 0.5})
        cases.append({"d": {}, "chains": chains, "plots": plots})
    ck.run("JPoints", cases, run)


RUN = {"JPoints": run}
