"""C27: the legend and the colour bars of the triangle plot."""
import numpy as np
import pandas as pd

from core import caught, q
from figproj import ls, project

COLORS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd"]


def rgb(h):
    return [int(h[k : k + 2], 16) for k in (1, 3, 5)]


def q9(x):
    return q(round(float(x), 9))


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    told = []
    order = case["pick"] or list(range(len(case["chains"])))
    for i, c in enumerate(case["chains"]):
        n = 40
        df = pd.DataFrame({p: rng.normal(size=n) for p in c["params"]})
        lo = hi = "0"
        if c["color"] != "-":
            v = rng.random(n) * c["span"] + c["at"]
            df[c["color"]] = v
            # the thinned cloud still holds the extremes
            lo, hi = q9(v.min()), q9(v.max())
        if c["role"] in ("point", "both"):
            df["log_posterior"] = -rng.random(n)
        kw = {"color_param": c["color"]} if c["color"] != "-" else {}
        ch = Chain(samples=df, name=c["name"], color=COLORS[i], linestyle=c["ls"], linewidth=c["lw"], marker_style=c["marker"], marker_size=c["msize"], show_label_in_legend=c["label"], smooth=0, bins=6, sigmas=[0, 1],
                   plot_contour=c["role"] in ("contour", "both", "cloudline"), plot_point=c["role"] in ("point", "both"), plot_cloud=c["role"] in ("cloud", "cloudline"), shade=False, **kw)
        cons.add_chain(ch)
        told.append({"name": c["name"], "rgb": rgb(COLORS[i]), "ls": c["ls"], "wide": q(c["lw"]), "msize": q(c["msize"]), "marker": c["marker"], "contour": c["role"] in ("contour", "both", "cloudline"), "point": c["role"] in ("point", "both"),
                     "cloud": c["role"] in ("cloud", "cloudline"), "label": c["label"], "color": c["color"], "params": c["params"], "lo": lo, "hi": hi})
    cfg = {"flip": case["flip"], "plot_hists": case["hists"], "legend_color_text": case["text"], "legend_kwargs": dict(case["user"]), "labels": case["labels"], "summarise": case["summarise"]}
    if case["show"] != "auto" or case["explicit"]:
        cfg["show_legend"] = {"auto": None, "yes": True, "no": False}[case["show"]]
    if case["place"]:
        cfg["legend_location"] = tuple(case["place"])
    if case["artists"] is not None:
        cfg["legend_artists"] = case["artists"]
    cons.set_plot_config(PlotConfig(**cfg))
    arg = {"columns": case["cols"]}
    if case["pick"]:
        arg["chains"] = [case["chains"][i]["name"] for i in case["pick"]]
    r = caught(lambda: project(cons.plotter.plot(**arg)))
    o = {"ok": r["ok"], "legends": [], "bars": [], "clouds": []}
    if r["ok"]:
        for ax in r["v"]["axes"]:
            if ax["colorbar"]:
                o["bars"].append({"label": ax["ylabel"], "lo": q9(min(ax["ylim"])), "hi": q9(max(ax["ylim"]))})
            if "legend" in ax:
                g = ax["legend"]
                got = {"loc": g["loc"], "fontsize": g["fontsize"], "ncols": g["ncols"], "frameon": g["frameon"]}
                codes = {"best": 0, "upper right": 1, "upper left": 2, "lower left": 3, "lower right": 4, "center": 10}
                want = {k: codes[v] if k == "loc" else v for k, v in case["user"] if k != "ncols" or len(g["labels"]) > 1}  # as many columns as entries at most
                o["legends"].append({"at": [ax["row"] + 1, ax["col"] + 1], "names": [s.strip() for s in g["labels"]], "texts": [rgb(x) for x in g["text_colors"]],
                                     "handles": [{"rgb": rgb(h["color"]), "ls": ls(h["ls"]), "lw": h["lw"] > 0 and h["ls"] not in ("None", "none", "", " "), "dot": h["marker"] not in ("None", "none", "", " ") and h["ms"] > 0, "marker": h["marker"], "wide": q(h["lw"]), "size": q(h["ms"])} for h in g["handles"]],
                                     "got": [[k, str(float(got[k]))] for k in want]})
                user = [[k, str(float(v))] for k, v in want.items()]
        # clouds come in the order of the chains, in every panel of both their parameters
        for ax in r["v"]["axes"]:
            sc = [s for s in ax["scatters"] if s["array"] is not None]
            if ax["colorbar"] or not sc:
                continue
            h, v = ax["row"], ax["col"]
            k = h if case["hists"] else h + 1
            pair = {case["cols"][v], case["cols"][k]}
            mine = [told[i] for i in order if told[i]["cloud"] and told[i]["color"] != "-" and pair <= set(told[i]["params"])]
            for s, t in zip(sc, mine):
                o["clouds"].append({"color": t["color"], "lo": q9(s["clim"][0]), "hi": q9(s["clim"][1])})
    else:
        o["err"] = str(r)
    plt.close("all")
    if not o["legends"]:
        user = []
    labels = {c["color"]: case["labels"].get(c["color"], c["color"]) for c in case["chains"] if c["color"] != "-"}
    return [{"op": "legend", "in": {"lay": {"cols": case["cols"], "hists": case["hists"], "flip": case["flip"]}, "chains": [told[i] for i in order], "cfg": {"show": case["show"], "place": case["place"], "text": case["text"]},
                                    "labels": labels or {"-": "-"}, "user": user}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Inside", "Lonely", "NoPairNoBar", "OneBarEach", "OnlyClouds", "EntriesInOrder"))
    m = ck.model("MCLegend", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANT CHAINS = 1\n").out
    m += ck.model("MCLegend", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANT CHAINS = 2\n").out
    rng.shuffle(m)
    cases = []
    for d in m:
        if len(cases) >= ck.pick(230, 4000):
            break
        if d["n"] == 1 and not d["hists"]:
            continue
        chains = list(d["chains"])
        if rng.random() < 0.35:
            chains += [dict(rng.choice(chains))]
        names = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1"], 3)
        cn = dict(zip("uv", rng.choice([["u", "v"], ["weight", "v"], ["col_1", "$c$"], ["Temp", "time"]])))
        same = rng.random() < 0.5
        cs = []
        for i, c in enumerate(chains):
            color = cn.get(c["color"], "-")
            if c["role"] not in ("cloud", "cloudline") and rng.random() < 0.7:
                color = "-"
            ps = names[: d["n"]] if c["pq"] else names[:1]
            # weights must be positive, and belong to the chain
            at = rng.choice([0.5, 0.5, 20.0]) if color == "weight" else rng.choice([0.0, 5.0, -3.0])
            cs.append({"name": rng.choice(["chain", "A", "B & C", "x_1", "a very long name"]) + f" {i}", "role": c["role"], "label": c["label"] or rng.random() < 0.3, "color": color, "params": ps, "at": 0.5 if same and color == "weight" else at, "span": rng.choice([1.0, 1.0, 7.0]),
                       "ls": rng.choice(["-", "--", ":", "-."]), "lw": rng.choice([0.7, 1.5, 3.0]), "marker": rng.choice(["o", "s", "x", "*", "."]), "msize": rng.choice([9.0, 25.0])})
        pick = []
        if rng.random() < 0.3:
            pick = sorted(rng.sample(range(len(cs)), rng.randrange(1, len(cs) + 1)), key=lambda _: rng.random())
        use = pick or range(len(cs))
        cols = names[: d["n"]]
        # every panel's extents need samples
        if not all(any(p in cs[i]["params"] and cs[i]["role"] != "point" for i in use) for p in cols):
            continue
        user = []
        if rng.random() < 0.5:
            user = [x for x in [("loc", rng.choice(["upper left", "lower right", "center", "best"])), ("fontsize", rng.choice([6.0, 14.0])), ("frameon", True), ("ncols", 2)] if rng.random() < 0.7]
        labels = {x: rng.choice(["Temperature", "$t$ [s]"]) + f" {k}" for k, x in enumerate(cn.values()) if rng.random() < 0.3}
        cases.append({"chains": cs, "pick": pick, "cols": rng.sample(cols, len(cols)), "flip": d["flip"], "hists": d["hists"], "show": d["show"], "explicit": rng.random() < 0.5, "place": d["place"] if rng.random() < 0.6 else [], "text": rng.random() < 0.6, "artists": rng.choice([None, None, True, False]),
                      "user": user, "labels": labels, "summarise": rng.random() < 0.5, "seed": rng.randrange(10**6)})
    ck.run("JLegend", cases, run, limit=200)


RUN = {"JLegend": run}
