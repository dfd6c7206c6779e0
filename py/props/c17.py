"""C17: convergence diagnostics implement their statistics."""
from fractions import Fraction

import numpy as np
import pandas as pd

from core import caught, q, qs


def build(c):
    """The chain, and its data as walkers of each parameter."""
    from chainconsumer import Chain

    rng = np.random.default_rng(c["seed"])
    df = {}
    for p, ws in zip(c["params"], c["data"]):
        df[p] = np.concatenate([np.asarray(w, float) for w in ws])
    n = len(df[c["params"][0]])
    if c["weighted"]:
        df["weight"] = 1.0 + 50 * np.arange(n) ** 2 + rng.random(n)
    if c["posterior"]:
        df["log_posterior"] = -1e6 * np.arange(n)
    df = pd.DataFrame(df)
    if c["shuffle"]:
        df = df[[df.columns[i] for i in rng.permutation(len(df.columns))]]
    if c["index"]:
        df.index = np.arange(n)[::-1]
    return Chain(samples=df, name=c["name"], walkers=len(c["data"][0]))


def synth(c):
    """Random walkers: dyadic values, so that they are short exact fractions."""
    rng = np.random.default_rng(c["seed"])
    out = []
    for k, _ in enumerate(c["params"]):
        ws = []
        for j in range(c["walkers"]):
            x = rng.normal(size=c["n"])
            for i in range(1, c["n"]):
                x[i] += c["ar"] * x[i - 1]
            x += c["drift"] * np.arange(c["n"]) / c["n"] + c["apart"] * j
            if k == c["bad"]:
                x += c["extra"] * (j == 0) + c["extra"] * 0.3 * np.arange(c["n"]) / c["n"]
            ws.append([float(v) for v in np.round(x * 256) / 256 * c["scale"] + c["shift"]])
        out.append(ws)
    return out


def args(case):
    return {} if case["kind"] == "gelman" or case["first"] is None else {"first": float(Fraction(case["first"])), "last": float(Fraction(case["last"]))}


def run(case):
    from chainconsumer import ChainConsumer

    cons = ChainConsumer()
    chains = {}
    for c in case["chains"]:
        c["data"] = c["data"] or synth(c)
        chains[c["name"]] = build(c)
        cons.add_chain(chains[c["name"]])
    fn = cons.diagnostic.gelman_rubin if case["kind"] == "gelman" else cons.diagnostic.geweke
    kw = args(case)
    ev = []
    c = case["chains"][0]
    up = case["kind"] == "gelman"  # passes for large thresholds

    def verdict(t):
        return fn(c["name"] if case["byname"] else chains[c["name"]], threshold=t, **kw)

    lo, hi = 0.0, 1.0
    r = caught(verdict, 0.05)
    o = {"ok": r["ok"], "lo": "0", "hi": "0", "names": [], "agree": True}
    if r["ok"]:
        o["names"] = list(r["v"].results)
        o["agree"] = list(r["v"].results.values()) == [r["v"].passed]
        if up:
            while hi < 1e9 and not verdict(hi).passed:
                lo, hi = hi, hi * 8
        for _ in range(24):
            m = (lo + hi) / 2
            if verdict(m).passed == up:
                hi = m
            else:
                lo = m
        o["lo"], o["hi"] = q(lo), q(hi)
    ev.append({"op": "scan", "in": {"kind": case["kind"], "name": c["name"], "data": [[qs(w) for w in p] for p in c["data"]],
                                    "first": case["first"] or "1/10", "last": case["last"] or "1/2"}, "out": o})
    if len(chains) > 1 and o["ok"]:
        for pick in case["picks"]:
            names = list(chains) if pick is None else pick["names"]
            t = case["threshold"]
            own = []
            for n in names:
                x = caught(lambda n=n: fn(n, threshold=t, **kw))
                own.append([n, x["v"].passed if x["ok"] else None])
            if any(v is None for _, v in own):
                continue
            arg = None if pick is None else [n if pick["byname"] else chains[n] for n in names]
            r = caught(lambda: fn(arg, threshold=t, **kw))
            o = {"ok": r["ok"], "results": [[k, v] for k, v in r["v"].results.items()] if r["ok"] else [], "passed": r["v"].passed if r["ok"] else False, "truth": bool(r["v"]) if r["ok"] else False}
            ev.append({"op": "many", "in": {"kind": case["kind"], "own": own}, "out": o})
    return ev


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Affine", "WalkerOrder", "StepOrder", "AgreeingWalkers", "Apart"))
    m = ck.model("MCDiagnostics", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS WALKERS = {ck.pick(2, 3)}\n STEPS = 3\n VALS = {ck.pick(3, 3)}\n").out
    rng.shuffle(m)
    cases = []

    def extra(i, **kw):
        return {"name": f"{rng.choice(['A', 'run', 'x'])}{i}", "seed": rng.randrange(10**6), "weighted": rng.random() < 0.5, "posterior": rng.random() < 0.5, "shuffle": rng.random() < 0.4,
                "index": rng.random() < 0.3, **kw}

    def random_chain(i, kind):
        k = rng.choice([1, 2, 3, 3, 7])
        w = rng.choice([2, 3, 5, 8]) if kind == "gelman" else max(1, -(-rng.choice([8, 9, 12, 20]) // k))
        n = rng.choice([5, 12, 40]) if kind == "gelman" else rng.choice([64, 96, 152])
        return extra(i, params=rng.sample(["p", "q", "r", "s", "t", "u", "v"], k), data=None, walkers=w, n=n, ar=rng.choice([0.0, 0.0, 0.6]), drift=rng.choice([0, 0, 0.2, 1.0]), apart=rng.choice([0, 0, 0.05, 0.5]),
                     bad=rng.choice([-1, 0, k - 1]), extra=rng.choice([0.3, 2.0]), scale=2.0 ** rng.choice([-20, 0, 0, 10]), shift=rng.choice([0.0, 0.0, -3.0, 64.0]))

    for d in m[: ck.pick(300, 4000)]:
        cases.append({"kind": "gelman", "chains": [extra(0, params=["p"], data=[d])], "byname": rng.random() < 0.5, "picks": [], "first": None, "last": None, "threshold": 0.05})
    for kind, n in (("gelman", ck.pick(250, 3000)), ("geweke", ck.pick(110, 1500))):
        for _ in range(n):
            chains = [random_chain(i, kind) for i in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.15:  # all pass but one
                chains = [{**random_chain(i, kind), "walkers": 5 if kind == "gelman" else 12, "apart": 0, "drift": 0, "ar": 0.0, "bad": -1} for i in range(6)]
                chains[rng.randrange(6)].update(apart=0.5, drift=1.0)
            if kind == "gelman" and rng.random() < 0.06:
                chains[0]["walkers"] = 1
            names = [c["name"] for c in chains]
            picks = [None]
            if len(names) > 1:
                picks.append({"names": rng.sample(names, 2), "byname": rng.random() < 0.5})
            fr = (None, None)
            if kind == "geweke" and rng.random() < 0.6:
                fr = rng.choice([("1/4", "1/2"), ("1/8", "1/4"), ("1/4", "1/4"), ("1/2", "1/2"), ("3/8", "1/8"), ("3/4", "1/2"), ("5/8", "3/4")])
            # the default tenth: keep the number of steps away from multiples of ten, where floats decide
            if fr[0] is None:
                for c in chains:
                    c["n"] = c["n"] + 3 if c["n"] % 10 == 0 else c["n"]
            cases.append({"kind": kind, "chains": chains, "byname": rng.random() < 0.5, "picks": picks, "first": fr[0], "last": fr[1], "threshold": rng.choice([0.05, 0.3, 0.01, 0.6] if len(chains) < 6 else [0.05, 0.3] if kind == "gelman" else [0.01, 0.001])})
    ck.run("JDiagnostics", cases, run)


RUN = {"JDiagnostics": run}
