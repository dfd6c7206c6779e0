"""Everything ChainConsumer reports about the chains of a consumer, as plain numbers (for relations between runs)."""
import numpy as np

from core import caught, num, nums


def bound(b):
    if b is None:
        return {"k": "none", "v": []}
    if isinstance(b, list):
        return {"k": "bands", "v": [nums([x.lower, x.center, x.upper]) for x in b]}
    return {"k": "one", "v": [nums([b.lower, b.center, b.upper])]}


def picks(n, m):
    return sorted(set(np.linspace(0, n - 1, min(n, m)).astype(int).tolist()))


def curve(ax, flip, color):
    """Points of the marginal drawn in an axis, as (value, height)."""
    from figproj import hexa

    for ln in ax.lines:
        if hexa(ln.get_color()) == color and len(np.atleast_1d(ln.get_xdata())) > 2:
            xy = np.column_stack([ln.get_xdata(), ln.get_ydata()]).astype(float)
            break
    else:
        for p in ax.patches:
            if hexa(p.get_edgecolor()) == color and hasattr(p, "get_xy") and np.ndim(p.get_xy()) == 2:
                xy = np.asarray(p.get_xy(), dtype=float)
                break
        else:
            return {"n": 0, "x": [], "y": []}
    if flip:
        xy = xy[:, ::-1]
    k = picks(len(xy), 40)
    return {"n": len(xy), "x": nums(xy[k, 0]), "y": nums(xy[k, 1])}


def boxes(ax, z):
    """Bounding box of each outlined contour level (empty when the level draws nothing)."""
    from matplotlib.contour import QuadContourSet

    out = []
    for co in ax.collections:
        if isinstance(co, QuadContourSet) and not co.filled and co.get_zorder() == z:
            for p in co.get_paths():
                v = p.vertices
                out.append(nums([v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()]) if len(v) else [])
    return out


def beside(vals, name):
    """A criterion relative to that of the other chain (the best one alone always reads zero)."""
    rest = [v for k, v in vals.items() if k != name]
    return vals[name] - rest[0] if name in vals and rest else vals.get(name)


def observe(chain, names, extra=None, plots=True, diag=False):
    """chain: a Chain with an explicit colour; names: its two or more parameters."""
    import matplotlib.pyplot as plt
    from chainconsumer import ChainConsumer, PlotConfig
    from chainconsumer.plotting import plot_dist

    cons = ChainConsumer()
    cons.add_chain(chain)
    for c in extra or []:
        cons.add_chain(c)
    cons.set_plot_config(PlotConfig(summarise=False, flip=False))
    o = {"names": names}

    def summ():
        r = cons.analysis.get_summary()[chain.name]
        return [bound(r[p]) for p in names]

    o["summary"] = caught(summ)
    o["cov"] = caught(lambda: [nums(r) for r in chain.get_covariance(names).matrix])
    o["corr"] = caught(lambda: [nums(r) for r in chain.get_correlation(names).matrix])
    mp = chain.get_max_posterior_point()
    o["maxpost"] = {"has": mp is not None, "lp": num(mp.log_posterior) if mp else num(None),
                    "at": [num(mp.coordinate[p]) for p in names] if mp else []}
    for k in ("aic", "bic", "dic"):
        o[k] = caught(lambda k=k: num(beside(getattr(cons.comparison, k)(), chain.name)))
    o["diag"] = caught(lambda: [bool(cons.diagnostic.gelman_rubin().passed), bool(cons.diagnostic.geweke().passed)]) if diag else {"ok": True, "v": []}
    none = {"ok": True, "v": {"ext": [], "curves": [], "dists": [], "boxes": []}}
    if not plots:
        return {**o, "fig": {**none, "done": False}}

    def fig():
        f = cons.plotter.plot(columns=list(names), chains=[chain.name])
        axes = [a for a in f.axes if not hasattr(a, "_colorbar")]
        n = len(names)
        ext = [nums(axes[(n - 1) * n + j].get_xlim()) for j in range(n)]
        cur = [curve(axes[j * n + j], False, chain.color) for j in range(n)]
        bx = [boxes(axes[i * n + j], chain.zorder) for i in range(n) for j in range(i)]
        plt.close(f)
        dst = []
        for q in names:  # the same marginals through the stand-alone function
            f, ax = plt.subplots()
            plot_dist(ax, cons.get_chain(chain.name), q)
            dst.append(curve(ax, False, chain.color))
            plt.close(f)
        return {"ext": ext, "curves": cur, "dists": dst, "boxes": bx}

    o["fig"] = {**caught(fig), "done": True}
    return o
