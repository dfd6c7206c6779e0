"""C14: covariance and correlation are the weighted estimates."""
import numpy as np
import pandas as pd

from core import caught, nums, qs


def run(case):
    from chainconsumer import Chain, ChainConsumer

    df = pd.DataFrame({n: np.asarray(v, dtype=float) for n, v in zip(case["names"], case["data"])})
    if case["index"]:
        df.index = np.arange(len(df))[::-1] * 3
    ro = case["roles"]
    kw = {"color_param": ro["color"], "plot_cloud": ro["cloud"]} if ro["color"] != "none" else {}
    ch = Chain(samples=df, name="c", weight_column=ro["wcol"], posterior_column=ro["pcol"], **kw)
    if case["consumer"]:
        cons = ChainConsumer()
        cons.add_chain(ch)
        ch = cons.get_chain("c")
    ev = []
    data = [qs(df[n].to_numpy()) for n in case["names"]]
    ws = qs(df[ro["wcol"]]) if ro["wcol"] in case["names"] else ["1"] * len(df)
    for a in case["asks"]:
        want = a["want"]
        r = caught((ch.get_covariance if a["kind"] == "cov" else ch.get_correlation), *([want] if want else []))
        o = {"ok": r["ok"], "names": list(r["v"].columns) if r["ok"] else [], "m": [nums(z) for z in np.asarray(r["v"].matrix)] if r["ok"] and np.ndim(r["v"].matrix) == 2 else []}
        ev.append({"op": a["kind"], "in": {"roles": ro, "names": case["names"], "data": data, "ws": ws, "all": not want, "want": want}, "out": o})
    return ev


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Symmetric", "Positive", "CauchySchwarz", "ScaleFree", "Linear", "Unweighted", "Reordered", "Pooled"))
    out = ck.model("MCMoments", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS ROWS = {ck.pick(3, 4)}\n VALS = 3\n").out
    out = [d for d in out if len(set(d["x"])) > 1 and len(set(d["y"])) > 1]
    rng.shuffle(out)
    cases = []
    for d in out[: ck.pick(1200, 20000)]:
        a, b = rng.choice([(1, 0), (0.5, 3), (-64, 1), (2.0**-20, 0), (2.0**30, 5)])
        u = rng.choice([1, 0.25, 2.0**-12, 4096])
        data = {"x": [a * v + b for v in d["x"]], "y": d["y"], "weight": [u * v for v in d["w"]]}
        names = list(data)
        rng.shuffle(names)
        cases.append({"names": names, "data": [data[n] for n in names], "index": rng.random() < 0.3, "consumer": rng.random() < 0.3,
                      "roles": {"cols": names, "wcol": "weight", "pcol": "log_posterior", "color": "none", "cloud": False, "drawn": True},
                      "asks": [{"kind": k, "want": rng.choice([[], ["x", "y"], ["y", "x"], ["y"], ["x"]])} for k in ("cov", "corr")]})
    pool = ["x", "y", "z", "omega m", "Log_Posterior", "lp", "w", "weight", "posterior", "c"]
    for _ in range(ck.pick(400, 6000)):
        n = rng.choice([2, 3, 5, 12, 40, 90])
        names = rng.sample(pool, rng.randint(2, 6))
        wcol = rng.choice([x for x in ("w", "weight") if x in names] or ["weight"])
        pcol = rng.choice([x for x in ("lp",) if x in names] or ["log_posterior"])
        r = np.random.default_rng(rng.randrange(10**9))
        base = r.normal(size=n)
        data = []
        for nm in names:
            if nm == wcol:
                v = np.ceil(r.random(n) ** rng.choice([1, 4]) * 64) / 64
            else:
                sc = 2.0 ** rng.choice([-20, -4, 0, 0, 5, 24])
                z = rng.choice([0, 1, -0.7]) * base + r.normal(size=n)
                if n < 5:
                    z = np.arange(n) * rng.choice([1, -1]) + z * 0.1
                v = (np.round(z * 1024) / 1024 + rng.choice([0, 0, 3, -1000, 65536])) * sc
            data.append([float(t) for t in v])
        par = [x for x in names if x not in (wcol, pcol) and x.lower() not in ("weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors")]
        if not par:
            continue
        varying = [x for x, v in zip(names, data) if len(set(v)) > 1]
        if any(x not in varying for x in par):
            continue
        color = rng.choice(["none", rng.choice(par)])
        asks = []
        for _ in range(2):
            asks += [{"kind": k, "want": rng.choice([[], rng.sample(par, rng.randint(1, len(par))), rng.sample(varying, rng.randint(1, len(varying)))])} for k in ("cov", "corr")]
        cases.append({"names": names, "data": data, "index": rng.random() < 0.3, "consumer": rng.random() < 0.3, "asks": asks,
                      "roles": {"cols": names, "wcol": wcol, "pcol": pcol, "color": color, "cloud": color != "none" and rng.random() < 0.5, "drawn": True}})
    ck.run("JMoments", cases, run)


RUN = {"JMoments": run}
