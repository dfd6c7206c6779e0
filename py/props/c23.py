"""C23: results of emcee, numpyro and arviz are translated completely."""
import numpy as np

from core import caught, qs

SETTINGS = [("kde", 0.5, str), ("smooth", 2, str), ("bins", 17, str), ("color", "#102030", str), ("plot_point", True, str), ("power", 2.0, str), ("sigmas", [0.0, 1.0, 3.0], str), ("linewidth", 2.5, str), ("num_cloud", 50, str),
            ("num_free_params", 3, str), ("num_eff_data_points", 20.0, str), ("bar_shade", False, str)]
import core

core.ROOM = 24e9  # jax reserves far more than it uses
_cache = {}


def emcee_sampler(nd, w, n, seed):
    import emcee

    rng = np.random.default_rng(seed)
    s = emcee.EnsembleSampler(w, nd, lambda x: -0.5 * float(np.sum(x**2)), moves=emcee.moves.GaussianMove(1.0))
    s._random.seed(seed)
    s.run_mcmc(rng.normal(size=(w, nd)), n, progress=False)
    return s


def numpyro_run(names, chains, draws, seed, real):
    import jax.numpy as jnp
    import numpyro
    from jax import random
    from numpyro import distributions as dist
    from numpyro.infer import MCMC, NUTS

    def model():
        for n in names:
            numpyro.sample(n, dist.Normal(0, 1))

    mc = MCMC(NUTS(model), num_warmup=5, num_samples=draws, num_chains=chains, progress_bar=False, chain_method="sequential")
    if real:
        mc.run(random.PRNGKey(seed))
    else:
        rng = np.random.default_rng(seed)
        mc._states = {mc._sample_field: {n: jnp.asarray(rng.normal(size=(chains, draws)).astype("float32")) for n in names}}
    return mc


def run(case):
    from chainconsumer import Chain

    names = case["names"]
    kw = dict(case["settings"])
    f = case["filter"]
    arg = {}
    if case["how"] != "emcee":
        if f:
            arg["var_names"] = [("~" if x["not"] else "") + x["name"] for x in f]
        elif case["say"] != "absent":
            arg["var_names"] = [] if case["say"] == "empty" else None
    if case["how"] == "emcee":
        s = emcee_sampler(len(names), case["w"], case["n"], case["seed"])
        raw = np.asarray(s.get_chain())
        raw = [[qs(x) for x in st] for st in raw]
        if case["thin"] != 1 or case["say"] != "absent":
            arg["thin"] = case["thin"]
        if case["discard"] != 0 or case["say"] != "absent":
            arg["discard"] = case["discard"]
        r = caught(lambda: Chain.from_emcee(s, names, case["name"], **arg, **kw))
    elif case["how"] == "numpyro":
        m = numpyro_run(names, case["w"], case["n"], case["seed"], case["real"])
        raw = {p: [qs(np.asarray(x, dtype=float)) for x in v] for p, v in m.get_samples(group_by_chain=True).items()}
        r = caught(lambda: Chain.from_numpyro(m, case["name"], **arg, **kw))
    else:
        import arviz as az

        rng = np.random.default_rng(case["seed"])
        post = {p: rng.normal(size=(case["w"], case["n"])) for p in names}
        if case["stuck"] and case["n"] > 1:  # rejected steps repeat the draw before
            for k in range(1, case["n"]):
                if rng.random() < 0.4:
                    for v in post.values():
                        v[:, k] = v[:, k - 1]
        raw = {p: [qs(x) for x in v] for p, v in post.items()}
        groups = {"posterior": post}
        if case["groups"]:
            groups["prior"] = {p: rng.normal(size=(1, 3)) for p in names + ["other"]}
            groups["sample_stats"] = {"lp": rng.normal(size=(case["w"], case["n"]))}
            groups["observed_data"] = {"obs": rng.normal(size=5)}
        d = az.from_dict(**groups)
        r = caught(lambda: Chain.from_arviz(d, case["name"], **arg, **kw))
    o = {"ok": r["ok"], "err": "none", "table": {}, "weights": [], "settings": [], "name": ""}
    if r["ok"]:
        c = r["v"]
        o["table"] = {p: qs(np.asarray(c.samples[p], dtype=float)) for p in c.samples.columns if p != "weight"}
        o["weights"] = qs(c.weights)
        o["settings"] = [[k, str(getattr(c, k))] for k, _ in case["settings"]]
        o["name"] = c.name
    else:
        o["err"] = r["err"]
    return [{"op": "translate", "in": {"by": "step" if case["how"] == "emcee" else "name", "names": names, "raw": raw, "thin": case["thin"], "discard": case["discard"], "filter": f, "settings": [[k, str(v)] for k, v in case["settings"]], "name": case["name"]}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("OnceEach", "EveryWalkerAlike", "InOrder", "NothingDiscarded", "NoThinningKeepsAll", "Regular", "Wasted", "Complement", "Within", "Twice", "EmptyKeepsAll", "OrderFree", "Columns"))
    m = ck.model("MCTranslate", f'INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS STEPS = {ck.pick(9, 14)}\n WALK = {ck.pick(3, 4)}\n NAMES = {{"a", "b", "c"}}\n FLEN = {ck.pick(3, 4)}\n').out
    steps = [x for x in m if x["op"] == "steps" and x["n"] - x["d"] >= x["t"]]
    filt = [x for x in m if x["op"] == "names"]
    rng.shuffle(steps)
    rng.shuffle(filt)
    cases = []

    def extra():
        return {"settings": [[k, v] for k, v, _ in rng.sample(SETTINGS, rng.choice([0, 0, 1, 3]))], "name": rng.choice(["chain", "A & B", "emcee run"]), "say": rng.choice(["absent", "empty", "none"]), "seed": rng.randrange(10**6), "real": False, "groups": False, "thin": 1, "discard": 0, "filter": []}

    pool = ["mu", "mu2", "sigma", "log_sigma", "$\\Omega_m$", "x y", "a", "A"]
    for x in steps[: ck.pick(220, 3000)]:
        nd = rng.choice([1, 1, 2, 3])
        w = max(2 * nd, 2 * x["w"])
        w += rng.choice([0, 1])
        k = rng.choice([1, 1, 1, 4])
        cases.append({**extra(), "how": "emcee", "names": rng.sample(pool, nd), "w": w, "n": x["n"] * k + rng.choice([0, 0, 1]), "thin": x["t"], "discard": x["d"]})
    pick = [x for x in filt if len(x["f"]) > 0] + [x for x in filt if not x["f"]] * 4
    n = ck.pick(200, 2500)
    for i, x in enumerate(pick[: n] + [y for y in pick if not y["f"]][:20]):
        ren = dict(zip("abc", rng.choice([["mu", "mu2", "sigma"], ["a", "aa", "A"], ["x", "log_x", "x_log"], rng.sample(pool, 3)])))
        f = [{"not": e["not"], "name": ren[e["name"]]} for e in x["f"]]
        names = [ren[a] for a in x["all"]]
        rng.shuffle(names)
        mixed = len({e["not"] for e in f}) > 1
        kept = [p for p in names if not f or mixed or (p in {e["name"] for e in f}) != f[0]["not"]]
        how = rng.choice(["numpyro", "arviz"])
        # a table without any parameter is no chain
        if not kept:
            continue
        cases.append({**extra(), "how": how, "names": names, "filter": f, "w": rng.choice([1, 2, 3, 4]), "n": rng.choice([1, 2, 3, 7, 20]), "stuck": rng.random() < 0.4, "groups": rng.random() < 0.5})
    for _ in range(ck.pick(3, 20)):
        cases.append({**extra(), "how": "numpyro", "names": rng.sample(["mu", "sigma", "tau"], 2), "w": rng.choice([1, 2]), "n": 6, "real": True})
    ck.run("JTranslate", cases, run, limit=200)


RUN = {"JTranslate": run}
