"""C09: multimodal summaries are the disjoint high-density bands."""
import numpy as np
import pandas as pd

from core import caught, num, nums, q, qs
from props.c08 import normal_q


def values(c):
    rng = np.random.default_rng(c["seed"])
    k = c["kind"]
    if k == "modes":  # one mode of the given height at every fourth unit, laid evenly
        tot = sum(c["heights"])
        x = np.concatenate([c["gap"] * i + c["widths"][i] * normal_q(max(int(c["n"] * h / tot), 3)) for i, h in enumerate(c["heights"]) if h])
        w = np.ones(len(x))
    elif k == "random":
        j = rng.choice(len(c["heights"]), p=np.array(c["heights"]) / sum(c["heights"]), size=c["n"])
        x = c["gap"] * j + rng.normal(size=c["n"]) * np.array(c["widths"])[j]
        w = np.ones(len(x))
    elif k == "weighted":  # evenly spaced points carrying the density in their weights
        x = np.linspace(-5, c["gap"] * (len(c["heights"]) - 1) + 5, c["n"])
        w = sum(h / s * np.exp(-0.5 * ((x - c["gap"] * i) / s) ** 2) for i, (h, s) in enumerate(zip(c["heights"], c["widths"])))
        w = w / w.max() + 1e-6
    else:
        raise AssertionError(k)
    if c["shuffle"]:
        kk = rng.permutation(len(x))
        x, w = x[kk], w[kk]
    return x * c["scale"] + c["offset"], w * c["wscale"]


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from chainconsumer.statistics import SummaryStatistic

    x, w = values(case)
    df = pd.DataFrame({"x": x, "weight": w})
    if case["flip"]:
        df["y"] = np.random.default_rng(case["seed"]).normal(size=len(x))
    hdi = case["stat"] == "hdi"
    kw = {} if case["stat"] == "unset" else {"statistics": SummaryStatistic(case["stat"])}
    ch = Chain(samples=df, name="c", multimodal=case["multimodal"], summary_area=case["area"], smooth=case["smooth"], bins=case["bins"],
               kde=case["kde"], color="#123456", bar_shade=True, **kw)
    cons = ChainConsumer().add_chain(ch)
    r = caught(lambda: cons.analysis.get_summary()["c"]["x"])
    o = {"ok": r["ok"], "k": "-", "b": [], "text": "", "plain": "", "cell": "", "fig": {"done": False, "ok": True}}
    if r["ok"]:
        b = r["v"]
        o["k"] = "bands" if isinstance(b, list) else "one"
        bb = b if isinstance(b, list) else [b]
        o["b"] = [nums([z.lower, z.center, z.upper]) for z in bb]
        o["text"] = cons.analysis.get_parameter_text(b, wrap=True, label="x")
        o["plain"] = cons.analysis.get_parameter_text(b, wrap=True)
        t = cons.analysis.get_latex_table()
        row = [ln for ln in t.split("\\\\ \n") if "& " in ln][-1]
        o["cell"] = row.split("& ")[1].strip()
        cons.set_plot_config(PlotConfig(summarise=True, flip=case["flip"]))

        def fig():
            f = cons.plotter.plot(columns=["y", "x"] if case["flip"] else ["x"])
            ax, k = (f.axes[3], 1) if case["flip"] else (f.axes[0], 0)
            ln = next(z for z in ax.lines if z.get_color() == "#123456")
            xs = np.asarray(ln.get_data()[k], dtype=float)
            spans = []
            for co in ax.collections:
                v = np.concatenate([p.vertices for p in co.get_paths()])
                spans.append(nums([v[:, k].min(), v[:, k].max()]))
            out = {"from": num(xs.min()), "to": num(xs.max()), "spans": spans, "title": ax.get_title()}
            plt.close(f)
            return out

        if case["plot"]:
            o["fig"] = {"done": True, **caught(fig)}
    d = {"xs": qs(x), "ws": qs(w), "ps": qs(x), "area": q(case["area"]), "cols": 3 if case["flip"] else 2, "grid": False, "smooth": 3 if case["smooth"] is None else case["smooth"],
         "bins": "none" if case["bins"] is None else str(case["bins"]), "kde": "none" if case["kde"] is False else q(float(case["kde"])),
         "multimodal": case["multimodal"], "hdi": case["stat"] in ("unset", "hdi") and (case["multimodal"] or hdi)}
    return [{"op": "bands", "in": d, "out": o}]


def make(rng, heights):
    kind = rng.choice(["modes", "modes", "random", "weighted"])
    c = {"kind": kind, "heights": heights, "seed": rng.randrange(10**6), "n": rng.choice([400, 700, 1200]), "gap": rng.choice([3.0, 5.0, 7.0, 9.0]),
         "widths": [rng.choice([1.0, 1.0, 0.6]) for _ in heights], "shuffle": rng.random() < 0.5,
         "scale": rng.choice([1.0, 1.0, 1e-4, 1e-11, 4e4, 1e9]), "offset": 0.0, "wscale": rng.choice([1.0, 1e-5, 30.0]), "power": 1.0,
         "area": rng.choice([0.6827, 0.6827, 0.9, 0.95, 0.5, 0.3, round(rng.uniform(0.2, 0.97), 3)]), "smooth": rng.choice([None, None, 2, 3, 5]),
         "bins": rng.choice([None, 20, 30, 45]), "kde": False, "multimodal": True, "stat": rng.choice(["unset", "hdi"]), "plot": rng.random() < 0.5}
    if rng.random() < 0.4 and c["scale"] > 1e-6:
        c["offset"] = rng.choice([1.0, -40.0]) * c["scale"]
    if kind == "modes" and (sum(heights) > 6 or c["n"] < 600):
        c["n"] = 1200
    if kind != "weighted" and c["n"] < 1000:
        c["bins"] = min(c["bins"] or 35, 30)
    c["flip"] = c["plot"] and rng.random() < 0.4
    if len(heights) > 1 and max(heights) > min(heights) and rng.random() < 0.25:  # faint modes beside a strong one, yet inside the area asked for
        top = max(heights)
        c.update(kind="weighted", heights=[h * 25 if h == top else h for h in heights], area=rng.choice([0.97, 0.98, 0.99]), n=700)
    elif not c["flip"] and rng.random() < 0.15:
        c["kde"] = rng.choice([True, 0.4, 0.7])
    if rng.random() < 0.15:
        c["multimodal"] = False
        c["stat"] = rng.choice(["hdi", "mean", "cumulative"])
    return c


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("AtMostOnePerMode", "AllAtTheBottom", "TopBandHoldsPeak", "Nested", "Smallest"))
    m = ck.model("MCBands", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS MODES = {ck.pick(4, 5)} TOP = {ck.pick(3, 4)}\n").out
    rng.shuffle(m)
    cases = [make(rng, h) for h in m[: ck.pick(170, 3000)]]
    ck.run("JMultimodal", cases, run, limit=200)


RUN = {"JMultimodal": run}
