"""C01: a consumer is an ordered, name-keyed collection of chains."""
import numpy as np
import pandas as pd

from core import caught

OBJ = {"p": 1.0, "q": 2.0, "r": 3.0, "s": 4.0}


def _val(obj):
    return OBJ.get(obj) or 10.0 + sum(ord(c) * (i + 1) for i, c in enumerate(obj)) % 977


def mk_chain(name, obj):
    from chainconsumer import Chain

    v = _val(obj)
    x = np.linspace(-1, 1, 12) ** 3 + v
    y = np.array([3.0, 1, 4, 1.5, 9, 2, 6, 5, 3.5, 8, 9.5, 7]) + v
    df = pd.DataFrame({"x": x, "y": y, "log_posterior": -((x - v) ** 2) - 0.1 * np.arange(12)})
    return Chain(samples=df, name=name, walkers=2, smooth=0, bins=4, statistics="cumulative", color="#112233",
                 shade=False, bar_shade=False)


def run(case):
    from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth

    cons = [ChainConsumer(), ChainConsumer()]
    pool = {}
    conf = {}
    tmap = {}
    ovr = {}
    probe = case["names"]

    def obj_of(ch):
        if ch is None:
            return "?"
        x = float(ch.samples["x"].to_numpy()[0]) + (0.0 if len(ch.samples) == 1 else 1.0)
        for o in case["objs"]:
            if abs(_val(o) - x) < 1e-9:
                return o
        return "?"

    def see(c, deep):
        names = c.get_names()
        look = [[n, obj_of(c.get_chain(n))] for n in names]
        absent = [{"name": n, "found": caught(c.get_chain, n)["ok"]} for n in probe]
        cfg = [k for k, v in conf.items() if c.plotter.config is v]
        s = {"names": names, "lookup": look, "absent": absent, "config": cfg[0] if cfg else "default"}
        if deep:
            s["summary"] = list(c.analysis.get_summary(columns=["x"]))
            s["maxpost"] = list(c.analysis.get_max_posteriors())
            s["dic"] = list(c.comparison.dic())
            s["diag"] = list(c.diagnostic.gelman_rubin().results) if names and not case["marker"] else names
            if names:
                t = c.analysis.get_latex_table(columns=["x"], hlines=False)
                s["rows"] = [ln.split(" & ")[0].strip("\t") for ln in t.split("\n") if "&" in ln][1:]
                f = c.plotter.plot_summary(columns=["x"], errorbar=True)
                s["drawn"] = [ax.texts[0].get_text() for ax in f.axes if ax.texts]
                s["override"] = sorted({ovr.get(ax.texts[0].get_color(), "none") for ax in f.axes if ax.texts})
                w = c.plotter.plot_walks(columns=["x"], plot_weights=False, plot_posterior=False)
                s["truths"] = [tmap.get(float(np.atleast_1d(ln.get_ydata())[0]), "?") for ln in w.axes[0].lines]
        return s

    events = []
    for i, o in enumerate(case["h"]):
        c = cons[o["c"] - 1]
        deep = i == len(case["h"]) - 1
        op, name, obj = o["op"], o["name"], o["obj"]
        if op == "add":
            ch = pool.setdefault((name, obj), mk_chain(name, obj))
            r = caught(c.add_chain, ch)
        elif op == "marker":
            r = caught(c.add_marker, {"x": _val(obj), "y": _val(obj)}, name, color="#445566")
        elif op == "remove":
            r = caught(c.remove_chain, name)
        elif op == "removeObj":
            r = caught(c.remove_chain, pool.get((name, "p")) or mk_chain(name, "p"))
        elif op == "truth":
            tmap[_val(obj) + 0.25] = obj
            r = caught(c.add_truth, Truth(location={"x": _val(obj) + 0.25}))
        elif op == "config":
            conf.setdefault(obj, PlotConfig(max_ticks=3))
            r = caught(c.set_plot_config, conf[obj])
        elif op == "override":
            ovr["#%06x" % (int(_val(obj)) * 4099 + 77)] = obj
            r = caught(c.set_override, ChainConfig(color="#%06x" % (int(_val(obj)) * 4099 + 77)))
        out = {"ok": r["ok"], "self": r.get("v") is c, "deep": deep, "seen": [see(x, deep) for x in cons]}
        events.append({"op": op, "in": {"c": o["c"], "op": op, "name": name, "obj": obj}, "out": out})
    return events


def mkcase(h, names=("a", "b"), objs=("p", "q")):
    return {"h": h, "names": list(names), "objs": list(objs), "marker": any(o["op"] == "marker" for o in h)}


def main(ck):
    m = ck.model("MCRegistry", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeInv
PROPERTY Isolated
PROPERTY Refused
PROPERTY OrderKept
PROPERTY OneByOne
CONSTANTS
  NAMES = {"a", "b"}
  OBJS = {"p"%s}
  MAXT = 0
""" % ck.pick("", ', "q"'))
    hs = m.out
    ck.rng.shuffle(hs)
    cases = [mkcase(h) for h in hs[: ck.pick(500, 8000)]]
    names = ["a", "b", "ab", "β γ", "A", "a ", " a", "x", "Model 2", "0", "10", "9", "B", "a-b", "a\tb"]
    objs = ["p", "q", "r", "s", "tt", "uu"]
    for k in range(ck.pick(90, 2000)):
        h = []
        # every third history grows to more than ten chains, of names which differ little
        long = k % 3 == 0
        pool = names if long else ck.rng.sample(names, 4)
        for t in range(ck.rng.randint(18, 34) if long else ck.rng.randint(3, 25)):
            if long and t < 13:
                op = ck.rng.choice(["add"] * 12 + ["truth", "remove"])
            else:
                op = ck.rng.choice(["add"] * 3 + ["marker"] * ck.rng.choice([0, 1]) + ["remove", "remove", "removeObj", "truth", "config", "override"])
            nm = ck.rng.choice(pool) if op in ("add", "marker", "remove", "removeObj") else "-"
            h.append({"c": ck.rng.choice([1] * 9 + [2]) if long else ck.rng.choice([1, 1, 2]), "op": op, "name": nm,
                      "obj": "-" if op in ("remove", "removeObj") else ck.rng.choice(objs)})
        cases.append(mkcase(h, names, objs))
    # emptied and filled again: what was set on the consumer stays set
    for k in range(ck.pick(8, 60)):
        o1, o2, o3 = ck.rng.choice(objs), ck.rng.choice(objs), ck.rng.choice(objs)
        h = [{"c": 1, "op": op, "name": nm, "obj": ob} for op, nm, ob in (
            ("truth", "-", o1), ("config", "-", o2), ("override", "-", o3), ("add", "a", "p"), ("remove", "a", "-"), ("add", "b", "q"))]
        ck.rng.shuffle(h[:3])
        cases.append(mkcase(h, names, objs))
    ck.run("JRegistry", cases, run)


RUN = {"JRegistry": run}
