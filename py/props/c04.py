"""C04: plots, tables, summaries and diagnostics are pure observations."""
import hashlib
import json
import os

import numpy as np
import pandas as pd

import core
from core import caught

QUERIES = ["plot", "plotsub", "walks", "dist", "summary", "errorbar", "get_summary", "table", "corr", "maxpost",
           "compare", "gelman", "geweke", "divide", "walksub"]


CHEAP = ["get_summary", "table", "corr", "maxpost", "compare", "gelman", "geweke", "divide"]
DRAWN = [q for q in QUERIES if q not in CHEAP]


def frame(name, variant="-"):
    """Variant 2: other values. Variant 3: the same values for one more walker (settings differ, see chain)."""
    k = sum(map(ord, name)) + (7 if variant == "2" else 0)
    r = np.random.default_rng(k)
    n = 120
    x = r.normal(0, 1, n)
    second = {"a": "y", "b": "z", "c": "y", "d": "y", "e": "z"}[name]
    d = {"x": x + (k % 3), second: r.normal(1, 2, n) + 0.5 * x}
    if name in "ac":
        d["w"] = r.uniform(0.5, 2, n)
    if name == "e":
        d["weight"] = r.uniform(1.5, 4, n)
    if name in "ad":
        d["log_posterior"] = -0.5 * x**2 - 1
    if name == "a":
        d["hue"] = r.uniform(0, 1, n)
    df = pd.DataFrame(d)
    if name == "b":
        df.index = df.index[::-1] + 5
    return df


def chain(name, df, variant="-"):
    from chainconsumer import Chain

    kw = {
        "a": dict(walkers=2, weight_column="w", color_param="hue", plot_cloud=True, num_cloud=20, num_free_params=2, num_eff_data_points=120),
        "b": dict(shade_alpha=0.4, walkers=3, smooth=0, power=2.0),
        "c": dict(multimodal=True, weight_column="w", linestyle="--", color="#445566", shift_params=True),
        "d": dict(plot_point=True, kde=0.8, smooth=1, show_contour_labels=True, num_free_params=1, num_eff_data_points=120),
        "e": dict(kde=True, smooth=1, sigmas=[0.5, 1.5], walkers=4, shade=True),
    }[name]
    if variant == "3":
        kw = kw | {"walkers": kw.get("walkers", 1) + 1, "summary_area": 0.9, "linewidth": 3.0, "num_free_params": 5}
    return Chain(samples=df, name=name, bins=8, **kw)


CONFIGS = {
    "k": dict(blind=["y"], extents={"x": (-4.0, 6.0)}, labels={"x": "X!"}, legend_kwargs={"loc": 3}, max_ticks=4),
    "l": dict(log_scales=[], flip=True, summarise=False, watermark="W", watermark_text_kwargs={"alpha": 0.5},
              legend_location=(0, 0), usetex=None),
    "blindall": dict(blind=True), "blindx": dict(blind=["y", "x"]), "nohist": dict(plot_hists=False), "two": dict(sigma2d=True),
    "noleg": dict(show_legend=False), "leg": dict(show_legend=True, legend_color_text=False), "labels": dict(labels={"y": "Y!", "z": "Z!"}),
    "ext": dict(extents={"z": (-9.0, 9.0), "q": (0.0, 1.0)}), "plain": dict(), "logs": dict(log_scales=["z", "x"], extents={"x": (0.1, 5.0), "z": (0.1, 9.0)}),
}
OVERRIDES = {
    "o": dict(sigmas=[0, 1], linewidth=2.0, shade=False),
    "p": dict(color="#abcdef", smooth=1, statistics="cumulative", shift_params=True),
    "bins": dict(bins=5), "smooth0": dict(smooth=0), "smooth2": dict(smooth=2), "nokde": dict(kde=False), "area": dict(summary_area=0.9), "mean": dict(statistics="mean"),
    "sig": dict(sigmas=[0, 2.5]), "unsorted": dict(sigmas=[2.0, 1.0]), "nobar": dict(bar_shade=False), "cloud": dict(plot_cloud=True, num_cloud=10), "point": dict(plot_point=True),
    "nocont": dict(plot_contour=False, plot_point=True), "none": dict(), "shift": dict(shift_params=True), "alpha": dict(shade_alpha=0.2), "hdi": dict(statistics="hdi"),
}
TRUTHS = {
    "t": dict(location={"x": 0.5, "y": 1.0}, name="t"), "u": dict(location={"x": -0.5}, marker="o", color="red"),
    "v": dict(location={"z": 0.0, "x": 0.0}, line_style=":"),
}


def thing(op, obj):
    from chainconsumer import ChainConfig, PlotConfig, Truth

    return {"truth": Truth, "config": PlotConfig, "override": ChainConfig}[op](
        **json.loads(json.dumps({"truth": TRUTHS, "config": CONFIGS, "override": OVERRIDES}[op][obj])))


def enc(o):
    if isinstance(o, pd.DataFrame):
        return ["df", [str(c) for c in o.columns], hashlib.md5(np.ascontiguousarray(o.to_numpy(float)).tobytes()).hexdigest(),
                hashlib.md5(str(list(o.index)).encode()).hexdigest()]
    if isinstance(o, np.ndarray):
        return ["nd", list(o.shape), hashlib.md5(np.ascontiguousarray(o).tobytes()).hexdigest()]
    if isinstance(o, dict):
        return [[str(k), enc(v)] for k, v in o.items()]
    if hasattr(o, "model_fields_set"):
        return [type(o).__name__, sorted(o.model_fields_set), [[k, enc(v)] for k, v in o.__dict__.items()]]
    if hasattr(o, "__dataclass_fields__"):
        return [type(o).__name__, enc({k: getattr(o, k) for k in o.__dataclass_fields__})]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [enc(v) for v in o]]
    if isinstance(o, pd.Series):
        return enc(o.to_numpy())
    return repr(o)


def dig(o):
    return hashlib.md5(json.dumps(enc(o)).encode()).hexdigest()


def ask(c, q):
    """The answer to query q, as a digest; and the argument objects before and after."""
    import matplotlib.pyplot as plt
    from figproj import digest

    names = c.get_names()
    sub = list(reversed(names))[:2]
    cols = {n: list(reversed(c.get_chain(n).data_columns)) for n in names}
    args = {"columns": ["z", "x"] if any("z" in v for v in cols.values()) else ["x"], "chains": sub}
    given = {"args": args, "cols": cols, "mixed": [c.get_chain(n) if i % 2 else n for i, n in enumerate(names)], "one": names[:1],
             "files": [os.path.join(core.TMP, f"c04-{os.getpid()}.png")]}
    before = dig(given)
    p, a = c.plotter, c.analysis

    def fig(f):
        d = digest(f)
        plt.close(f)
        return d

    def go():
        if q == "plot":
            return fig(p.plot())
        if q == "plotsub":
            return fig(p.plot(**args))
        if q == "walks":
            return fig(p.plot_walks(convolve=5))
        if q == "walksub":
            return fig(p.plot_walks(plot_weights=False, **args))
        if q == "dist":
            return fig(p.plot_distributions(**args))
        if q == "summary":
            return fig(p.plot_summary())
        if q == "errorbar":
            return fig(p.plot_summary(errorbar=True, filename=given["files"], **args))
        if q == "get_summary":
            return dig([a.get_summary(), a.get_summary(columns=args["columns"])])
        if q == "table":
            return dig([a.get_latex_table(), a.get_latex_table(transpose=True, columns=args["columns"])])
        if q == "corr":
            return dig([[a.get_correlation_table(n), a.get_covariance_table(n, cols[n]), c.get_chain(n).get_covariance(), a.get_correlation_table(n, cols[n]),
                         c.get_chain(n).get_correlation(cols[n])] for n in names])
        if q == "maxpost":
            return dig([a.get_max_posteriors(), a.get_max_posteriors(given["one"])])
        if q == "compare":
            return dig([c.comparison.dic(), c.comparison.aic(), c.comparison.bic(), c.comparison.comparison_table()])
        if q == "gelman":
            return dig([caught(c.diagnostic.gelman_rubin, v, threshold=0.3) for v in (given["mixed"], given["one"], None)])
        if q == "geweke":
            return dig([caught(c.diagnostic.geweke, v, threshold=0.3) for v in (given["mixed"], given["one"], None)])
        if q == "divide":
            return dig([[(w.name, w.samples) for w in c.get_chain(n).divide()] for n in names if c.get_chain(n).walkers > 1])
        raise KeyError(q)

    with np.errstate(all="ignore"):
        r = caught(go)
    if not r["ok"] and r["err"] == "KeyError":
        raise RuntimeError(q)
    return (r["v"] if r["ok"] else "refused:" + r["err"]), before, dig(given)


_fresh = {}


def run(case):
    from chainconsumer import ChainConsumer

    cons = [ChainConsumer(), ChainConsumer()]
    state = [([], [], None, None), ([], [], None, None)]
    pool, dfs, objs = {}, {}, {}
    ev = []

    def watched():
        out = [{"name": f"df-{k[0]}{k[1]}", "d": dig(v)} for k, v in dfs.items()]
        out += [{"name": f"chain-{k[0]}{k[1]}", "d": dig(v)} for k, v in pool.items()]
        out += [{"name": f"thing-{k}", "d": dig(v)} for k, v in objs.items()]
        return out

    def get(name, v):
        if (name, v) not in pool:
            dfs[(name, v)] = frame(name, v)
            pool[(name, v)] = chain(name, dfs[(name, v)], v)
        return pool[(name, v)]

    def apply(c, i, o, share):
        op, obj = o["op"], o["obj"]
        if op == "add":
            v = obj[1:] or "-"
            if share:
                return c.add_chain(get(o["name"], v))
            return c.add_chain(chain(o["name"], frame(o["name"], v), v))
        if op == "marker":
            return c.add_marker({"x": 0.25, "y": -1.0}, o["name"], marker_size=30.0)
        if op == "remove":
            return c.remove_chain(o["name"])
        t = objs.setdefault(obj, thing(op, obj)) if share else thing(op, obj)
        return {"truth": c.add_truth, "config": c.set_plot_config, "override": c.set_override}[op](t)

    def record(o, out):
        base = {"objects": watched(), "ok": True, "answer": "-", "argsBefore": "-", "argsAfter": "-"}
        base.update(out)
        ev.append({"op": o["op"], "in": {k: o[k] for k in ("c", "op", "name", "obj")}, "out": base})

    hist = [[], []]
    for o in case["h"]:
        i = o["c"] - 1
        if o["op"] == "query":
            ans, b, a = ask(cons[i], o["name"])
            record(o, {"answer": ans, "argsBefore": b, "argsAfter": a})
            continue
        if o["op"] == "fresh":
            key = json.dumps([hist[i], o["name"]])
            if key not in _fresh:
                c = ChainConsumer()
                for x in hist[i]:
                    apply(c, i, x, False)
                _fresh[key] = ask(c, o["name"])
            ans, b, a = _fresh[key]
            record(o, {"answer": ans, "argsBefore": b, "argsAfter": a})
            continue
        r = caught(apply, cons[i], i, o, True)
        # the shortest way to the same state: drop superseded and undone operations
        h = [x for x in hist[i] if not (o["op"] in ("config", "override") and x["op"] == o["op"])]
        if o["op"] == "remove":
            h = [x for x in h if x["name"] != o["name"]]
        else:
            h = h + [o]
        hist[i] = sorted(h, key=lambda x: {"add": 0, "marker": 0, "truth": 1, "config": 2, "override": 3}[x["op"]])
        record(o, {"ok": r["ok"]})
    return ev


def main(ck):
    m = ck.model("MCPurity", """INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Functional
PROPERTY QueriesChangeNothing
CONSTANTS
  QUERIES = {%s}
  BASES = {"one", "many", "marked"}
  MUTS = {"none", "add", "remove", "truth", "config", "override", "swap", "other", "again"}
  CONFIGS = {%s}
  OVERRIDES = {%s}
  TRUTHS = {"u", "v"}
""" % tuple(", ".join(f'"{q}"' for q in x) for x in (["cheap", *DRAWN], CONFIGS, OVERRIDES)))
    rng = ck.rng
    hs = m.out
    rng.shuffle(hs)
    # every (base, first query, consumer changed, change); the second queries share one trace
    cases = []
    todo, seen = [], set()
    for h in hs:
        k = json.dumps(h)
        if k in seen or (h[-1]["op"] == "remove" and not _ok(h)) or not _ok(h):
            continue
        seen.add(k)
        todo.append(h)
    def qs(c, op, names):
        return [{"c": c, "op": op, "name": q, "obj": "-"} for q in names]

    for h in todo[: ck.pick(130, 10**6)]:
        i = next(i for i, o in enumerate(h) if o["op"] == "query")
        ask_ = CHEAP + [h[i]["name"]] * (h[i]["name"] != "cheap") + rng.sample(DRAWN, ck.pick(0, 3))
        rng.shuffle(ask_)
        other = any(o["c"] == 2 for o in h[i + 1 :])
        cases.append({"h": h[:i] + qs(1, "query", ask_) + h[i + 1 :] + (qs(2, "query", ask_) if other else []) + qs(1, "query", ask_)
                      + qs(1, "fresh", ask_) + (qs(2, "fresh", ask_[:4]) if other else [])})
    # long interleavings on two consumers
    for _ in range(ck.pick(20, 400)):
        h, live = [], [[], []]
        for _ in range(rng.randint(6, 14)):
            c = rng.choice([1, 1, 2])
            lv = live[c - 1]
            op = rng.choice(["add", "add", "remove", "truth", "config", "override"] + ["query"] * 5)
            if op == "add":
                free = [x for x in "abcdem" if x not in lv]
                if not free:
                    continue
                nm = rng.choice(free)
                lv.append(nm)
                h.append({"c": c, "op": "marker" if nm == "m" else "add", "name": nm, "obj": nm + (rng.choice(["", "2", "3"]) if nm != "m" else "")})
            elif op == "remove" and len(lv) > 1:
                nm = rng.choice(lv)
                lv.remove(nm)
                h.append({"c": c, "op": "remove", "name": nm, "obj": nm})
            elif op == "query":
                if any(x != "m" for x in lv):
                    h.append({"c": c, "op": "query", "name": rng.choice(QUERIES), "obj": "-"})
            elif op in ("truth", "config", "override"):
                h.append({"c": c, "op": op, "name": "-", "obj": rng.choice(list({"truth": TRUTHS, "config": CONFIGS, "override": OVERRIDES}[op]))})
        for c in (1, 2):
            if any(x != "m" for x in live[c - 1]):
                for q in rng.sample(QUERIES, 3):
                    h.append({"c": c, "op": "query", "name": q, "obj": "-"})
                    h.append({"c": c, "op": "fresh", "name": q, "obj": "-"})
        cases.append({"h": h})
    ck.run("JPurity", cases, run, limit=200)


def _ok(h):
    """Every operation of the history is accepted and something is left to draw on consumer 1."""
    live = [set(), set()]
    for o in h:
        lv = live[o["c"] - 1]
        if o["op"] in ("add", "marker"):
            if o["name"] in lv:
                return False
            lv.add(o["name"])
        elif o["op"] == "remove":
            if o["name"] not in lv:
                return False
            lv.discard(o["name"])
    return bool(live[0] - {"m"})


RUN = {"JPurity": run}
