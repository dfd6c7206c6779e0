"""C02: settings resolve as override > user > automatic > default."""
import numpy as np
import pandas as pd

from core import caught, num, q

OPTS = {
    "linestyle": ["-", "--", ":"], "linewidth": [1.0, 2.5, 0.5], "show_contour_labels": [False, True],
    "shade": [True, False], "shade_alpha": [0.5, 0.25, 0.0], "shade_gradient": [1.0, 0.0, 0.4],
    "bar_shade": [True, False], "bins": [None, 5, 9], "smooth": [None, 0, 1], "kde": [False, 0.7],
    "sigmas": [[0, 1, 2], [0, 1], [0, 0.5, 1.5, 2.5]], "color": ["#aa0000", "#00bb00"],
    "plot_cloud": [False, True], "num_cloud": [10000, 30, 7], "cmap": ["viridis", "plasma"],
    "color_param": [None, "c"], "plot_contour": [True, False], "plot_point": [False, True],
    "marker_style": [".", "x", "o"], "marker_size": [10.0, 40.0, 1.0], "marker_alpha": [1.0, 0.25],
    "zorder": [10, 3, 0], "statistics": ["max", "mean", "cumulative", "max_central", "hdi"],
    "summary_area": [0.6827, 0.9, 0.5], "shift_params": [False, True],
    "multimodal": [False, True],
}
GRID = 3  # this data set is a grid
DENS = [(b, s, False) for b in OPTS["bins"] for s in OPTS["smooth"]] + [(5, 1, 0.7)]
N = 120


def txt(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return ",".join(txt(float(x)) for x in v)
    if isinstance(v, float):
        return repr(v) if v != int(v) else str(int(v))
    return str(v)


def pairs(d):
    return [[k, txt(v)] for k, v in sorted(d.items())]


def data(k):
    r = np.random.default_rng(1000 + k)
    if k == GRID:
        a, b = (v.ravel() for v in np.meshgrid(np.linspace(0.5, 6, 12), np.linspace(-2, 2, 10), indexing="ij"))
        return pd.DataFrame({"a": a, "b": b, "c": r.uniform(0, 1, N), "weight": np.exp(-((a - 2.5) ** 2) / 2 - (b - 0.3) ** 2),
                             "log_posterior": -((a - 2.5) ** 2) - b * b})
    a = r.gamma(2.0, 1.0, N)
    m = np.concatenate([10 + np.linspace(-1, 1, N // 2) ** 3, -10 - np.linspace(-1, 1, N // 2) ** 3])
    b = r.normal(0, 1, N) + 0.4 * a
    return pd.DataFrame({"a": a, "b": b, "c": r.uniform(0, 1, N), "m": m, "log_posterior": -((a - 1) ** 2) - b * b})


def py(d):
    from chainconsumer.statistics import SummaryStatistic

    d = dict(d)
    if d.get("statistics"):
        d["statistics"] = SummaryStatistic(d["statistics"])
    return d


_cache = {}


def refs(k):
    """What the marginal curve and the summary look like for each explicit setting of data set k."""
    if k not in _cache:
        import matplotlib.pyplot as plt
        from chainconsumer import Chain, ChainConsumer

        curves, stats = [], []
        for b, s, kd in DENS:
            kw = dict(bins=b, smooth=s, kde=kd, shade=False, bar_shade=False)
            c = ChainConsumer().add_chain(Chain(samples=data(k), name="r", grid=k == GRID, **kw))
            f = c.plotter.plot(columns=["a"])
            curves.append(((b, s, kd), curve_of(f.axes[0]), start_of(f.axes[0])))
            plt.close(f)
            for st in OPTS["statistics"]:
                for ar in OPTS["summary_area"]:
                    c = ChainConsumer().add_chain(Chain(samples=data(k), name="r", grid=k == GRID, summary_area=ar, **py({"statistics": st}), **kw))
                    bd = c.analysis.get_summary(columns=["a"])["r"]["a"]
                    stats.append(((st, ar, b, s, kd), bd.array))
        _cache[k] = (curves, stats)
    return _cache[k]


def start_of(ax):
    from matplotlib.patches import Polygon

    if ax.lines:
        return float(np.asarray(ax.lines[0].get_xdata(), float)[0])
    for p in ax.patches:
        if isinstance(p, Polygon):
            return float(p.get_xy()[0][0])
    return 0.0


def curve_of(ax):
    from matplotlib.patches import Polygon

    if ax.lines:
        return np.asarray(ax.lines[0].get_ydata(), float)
    for p in ax.patches:
        if isinstance(p, Polygon):
            return np.asarray(p.get_xy(), float)[:, 1]
    return np.zeros(0)


def style_paths():
    if "sp" not in _cache:
        from matplotlib.markers import MarkerStyle

        out = {}
        for m in OPTS["marker_style"]:
            ms = MarkerStyle(m)
            out[m] = ms.get_path().transformed(ms.get_transform()).vertices.round(6).tolist()
        _cache["sp"] = out
    return _cache["sp"]


def artist_key(a):
    import hashlib

    def enc(o):
        if isinstance(o, np.ndarray):
            return hashlib.md5(np.round(o, 9).tobytes()).hexdigest()
        if isinstance(o, dict):
            # coloured clouds share one colour scale, which depends on the others (C27)
            own = ("clim", "color", "edge", "rgba_alpha") if o.get("array") is not None else ()
            return {k: enc(v) for k, v in o.items() if k not in ("obj", "labels", *own)}
        if isinstance(o, (list, tuple)):
            return [enc(v) for v in o]
        return o

    return hashlib.md5(repr(enc(a)).encode()).hexdigest()[:12]


def observe(cons, name, k):
    from figproj import ls, project
    import matplotlib.pyplot as plt

    f = cons.plotter.plot(chains=[name], columns=["a", "b"])
    pr = project(f, draw=False)
    d, p = pr["axes"][0], pr["axes"][2]
    curves, stats = refs(k)
    o = {"name": name}
    o["curve"] = [{"color": x["color"], "ls": ls(x["ls"]), "lw": q(x["lw"]), "z": q(x["z"])} for x in d["lines"] + d["steps"]]
    y = curve_of(f.axes[0])
    x0, mean = start_of(f.axes[0]), float(np.average(data(k)["a"], weights=data(k).get("weight")))
    moves = ((False, 0.0), (True, mean))
    o["matched"] = [[txt(v) for v in (*kk, sh)] for kk, c, r0 in curves for sh, mv in moves
                    if c.shape == y.shape and np.allclose(c, y, rtol=1e-7, atol=1e-9) and abs(x0 - r0 + mv) < 1e-7]
    o["filled"] = bool(d["fills"])
    o["contours"] = [{"filled": c["filled"], "levels": [q(v) for v in c["levels"]], "lw": [q(v) for v in c["lw"]],
                      "ls": [ls(v) for v in c["ls"]], "z": q(c["z"]), "labels": c["labelled"],
                      "alpha": q(c["alpha"]) if c["alpha"] is not None else "1"} for c in p["contours"]]
    fl = [c for c in p["contours"] if c["filled"]]
    o["gradient"] = gradients(k, o["curve"][0]["color"], fl[0]) if fl and o["curve"] else []
    sc = p["scatters"]
    sp = style_paths()
    isp = lambda s: len(s["xy"]) == 1  # noqa: E731  a cloud always has several points here
    o["cloud"] = [{"n": len(s["xy"]), "mapped": s["array"] is not None, "cmap": s["cmap"], "color": s["color"]} for s in sc if not isp(s)]
    o["point"] = [{"size": q(s["size"]), "alpha": q(s["alpha"]) if s["alpha"] is not None else "1",
                   "style": next((m for m, v in sp.items() if v == s["path"]), "?")} for s in sc if isp(s)]
    two = caught(lambda: cons.analysis.get_summary(columns=["a", "m"])[name])
    # bands of a multimodal chain are no matter of the statistic (C09)
    o["bands"] = {"asked": k != GRID, "ok": two["ok"], "several": two["ok"] and isinstance(two["v"].get("m"), list)}
    o["single"] = not (two["ok"] and isinstance(two["v"]["a"], list))
    bd = caught(lambda: two["v"]["a"].array) if o["single"] else {"ok": False}
    o["stat"] = [[txt(v) for v in (*kk, sh)] for kk, b in stats for sh, mv in moves
                 if bd["ok"] and np.allclose(b - mv, bd["v"], rtol=1e-7, atol=1e-7, equal_nan=True)]
    o["akeys"] = keys(d, p)
    plt.close(f)
    return o


def keys(d, p):
    return {"diag": [artist_key(x) for x in d["lines"] + d["steps"] + d["fills"]],
            "pair": [artist_key(x) for x in p["contours"] + p["scatters"]]}


def gradients(k, color, fill):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain
    from chainconsumer.plotting import plot_contour
    from figproj import hexa

    key = ("g", color, len(fill["levels"]))
    if key not in _cache:
        res = []
        sig = next(s for s in OPTS["sigmas"] if len(s) == len(fill["levels"]))
        for g in OPTS["shade_gradient"]:
            f, ax = plt.subplots()
            plot_contour(ax, Chain(samples=data(0), name="g", color=color, sigmas=sig, shade=True, shade_alpha=1.0, shade_gradient=g,
                                   bins=5, smooth=1), "a", "b")
            cs = [c for c in ax.collections if getattr(c, "filled", False)]
            res.append((g, [hexa(c) for c in cs[0].get_facecolor()]))
            plt.close(f)
        _cache[key] = res
    return [txt(float(g)) for g, c in _cache[key] if c == fill["colors"]]


def run(case):
    from chainconsumer import Chain, ChainConfig, ChainConsumer
    from chainconsumer.color_finder import colors
    from figproj import project
    import itertools
    import matplotlib.pyplot as plt

    c = ChainConsumer()
    pal = list(itertools.islice(colors.next_colour(), 88))
    ev, kinds = [], {}
    for o in case["h"]:
        if o["op"] == "add":
            r = caught(lambda o=o: c.add_chain(Chain(samples=data(o["data"]), name=o["name"], grid=o["data"] == GRID, **py(o["set"]))))
            kinds[o["name"]] = (o["data"], o["set"])
        elif o["op"] == "remove":
            r = caught(c.remove_chain, o["name"])
            kinds.pop(o["name"])
        elif o["op"] == "override":
            r = caught(lambda o=o: c.set_override(ChainConfig(**py(o["set"]))))
        if o["op"] != "see":
            ev.append({"op": o["op"], "in": {"op": o["op"], "name": o["name"], "set": pairs(o["set"])}, "out": {"ok": r["ok"]}})
            continue
        # with an unconstrained "max" summary there is nothing to shade
        look = [n for n in c.get_names() if n in o["look"]] if o["look"] else c.get_names()
        seen = [observe(c, n, kinds[n][0]) for n in look]
        f = c.plotter.plot(chains=list(look), columns=["a", "b"])
        pr = project(f, draw=False)
        plt.close(f)
        bd = [c.analysis.get_summary(columns=["a"])[n]["a"] for n in look]
        bounded = all(not isinstance(b, list) and b.lower is not None and b.upper is not None for b in bd)
        stored = [[n, [[kk, txt(getattr(getattr(c.get_chain(n), kk), "value", getattr(c.get_chain(n), kk)))] for kk in sorted(kinds[n][1])]]
                  for n in look]
        want = [[n, [[kk, txt(v)] for kk, v in sorted(kinds[n][1].items())]] for n in look]
        ev.append({"op": "see", "in": {"op": "see", "name": "-", "set": [], "palette": pal, "bounded": bounded, "stored": want,
                                       "sigmas": [{"k": txt(s), "v": [q(x) for x in s]} for s in OPTS["sigmas"]],
                                       "clouds": [{"k": txt(x), "v": len(range(0, N, max(1, N // x)))} for x in OPTS["num_cloud"]]},
                   "out": {"ok": True, "seen": seen, "full": keys(pr["axes"][0], pr["axes"][2]), "stored": stored}})
    return ev


def draw_user(rng, density):
    d = {}
    for f, vals in OPTS.items():
        if f in ("kde",):
            continue
        if f == "plot_contour":
            if rng.random() < 0.3:
                d[f] = rng.random() < 0.6
            continue
        if rng.random() < density:
            d[f] = rng.choice(vals)
    own(d)
    if not d.get("plot_contour", True) and not d.get("plot_cloud", False):
        d["plot_point"] = True
    if rng.random() < 0.15:
        d.update(bins=5, smooth=1, kde=0.7)
    return d


def own(d):
    """Multimodal goes with the HDI only (C05)."""
    if d.get("multimodal") and d.get("statistics", "hdi") != "hdi":
        d.pop("statistics")


def history(rng, big):
    h, names = [], []
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7]) if big else rng.choice([1, 2, 3])
    for i in range(n):
        h.append({"op": "add", "name": f"n{i}", "data": rng.randint(0, 3), "set": draw_user(rng, rng.choice([0.0, 0.2, 0.5, 0.9]))})
        names.append(f"n{i}")
    if n > 2 and rng.random() < 0.4:
        x = rng.choice(names)
        names.remove(x)
        h.insert(rng.randint(int(x[1:]) + 1, len(h)), {"op": "remove", "name": x, "set": {}})
    for _ in range(rng.choice([0, 1, 1, 2])):
        ov = draw_user(rng, rng.choice([0.1, 0.3, 0.6, 0.0]))
        if "kde" in ov:
            for k in ("kde",):
                ov.pop(k)
        if ov.get("shift_params") is False:  # what was shifted at construction stays shifted
            ov.pop("shift_params")
        ov.pop("bins", None) if rng.random() < 0.5 else None
        if rng.random() < 0.8:
            ov.pop("plot_contour", None)
        if ov.get("plot_contour") is False:  # something must be left to draw
            ov["plot_point"] = True
        elif "plot_point" in ov or "plot_cloud" in ov:
            ov["plot_contour"] = True
        h.insert(rng.randint(0, len(h)), {"op": "override", "name": "-", "set": ov})
    agree(h)
    # a KDE chain fixes bins and smoothing so that its reference curves exist
    fix(h)
    look = names if len(names) <= 2 else rng.sample(names, 2)
    h.append({"op": "see", "look": look, "name": "-", "set": {}})
    return {"h": h}


def fix(h):
    if any("kde" in o["set"] for o in h if o["op"] == "add"):
        for o in h:
            if o["op"] == "override":
                o["set"].pop("bins", None)
                o["set"].pop("smooth", None)


def agree(h):
    """What is multimodal in the end has the HDI for its statistic, or none asked for."""
    for o in h:
        if o["op"] == "override" and o["set"].get("multimodal") and any(x["set"].get("statistics", "hdi") != "hdi" for x in h if x["op"] == "add"):
            o["set"].pop("multimodal")
        if o["op"] == "override" and (o["set"].get("multimodal") or any(x["set"].get("multimodal") for x in h if x["op"] == "add")):
            if o["set"].get("statistics", "hdi") != "hdi":
                o["set"].pop("statistics")


def sweep(rng):
    """Every (user, override) option of every field, with few and with many chains."""
    cases = []
    for nch in (1, 2, 4, 5, 6):
        for shift in range(12):
            u, ov = {}, {}
            for j, (f, vals) in enumerate(OPTS.items()):
                if f in ("kde", "plot_contour"):
                    continue
                o = [None] + list(range(len(vals)))
                ui = o[(shift + j) % len(o)]
                oi = o[(shift // len(o) + j + nch) % len(o)]
                if ui is not None:
                    u[f] = vals[ui]
                if oi is not None:
                    ov[f] = vals[oi]
            own(u)
            h = [{"op": "add", "name": f"n{i}", "data": (i + shift) % 4, "set": {} if i else u} for i in range(nch)]
            h.append({"op": "override", "name": "-", "set": ov})
            h.append({"op": "see", "look": ["n0"], "name": "-", "set": {}})
            cases.append({"h": h})
    for c in cases:
        agree(c["h"])
        for o in c["h"]:
            if o["op"] == "override" and o["set"].get("shift_params") is False:
                o["set"].pop("shift_params")
    rng.shuffle(cases)
    return cases


def main(ck):
    m = ck.model("MCSettings", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT OverrideWins
INVARIANT UserBeatsAuto
INVARIANT DistinctAuto
PROPERTY StableColour
CONSTANTS MAXCH = 2
""")
    hs = m.out
    ck.rng.shuffle(hs)
    cases = []
    for h in hs[: ck.pick(40, 600)]:
        g, live = [], []
        for o in h:
            st = {f: (None if v == "none" else "#aa0000" if v == "x" else "#00bb00" if v == "y" else v == "true") for f, v in o["set"]}
            if st.get("plot_contour") is False:
                st["plot_point"] = True
            g.append({"op": o["op"], "name": f"n{o['name']}", "data": o["name"] % 4, "set": st})
            if o["op"] == "add":
                live.append(f"n{o['name']}")
            if o["op"] == "remove":
                live.remove(f"n{o['name']}")
        if live:
            cases.append({"h": g + [{"op": "see", "look": live, "name": "-", "set": {}}]})
    cases += sweep(ck.rng)[: ck.pick(40, 10**6)]
    cases += [history(ck.rng, True) for _ in range(ck.pick(130, 2500))]
    ck.run("JSettings", cases, run)


RUN = {"JSettings": run}
