"""C25: colours are read, scaled and formatted faithfully."""
import re

import numpy as np

from core import caught, q


def rgb(text):
    """Channels of a six-digit hex colour (a short or transparent one is read alike)."""
    if not isinstance(text, str):
        return [-1, -1, -1]
    if re.fullmatch(r"#[0-9a-fA-F]{3}", text):
        text = "#" + "".join(c * 2 for c in text[1:])
    if not re.fullmatch(r"#[0-9a-fA-F]{6}([0-9a-fA-F]{2})?", text):
        return [-1, -1, -1]
    return [int(text[k : k + 2], 16) for k in (1, 3, 5)]


def value(x):
    if x["k"] == "rgb":
        v = [float(a) for a in x["vals"]]
        return np.array(v) if x["array"] else v
    return x["text"]


def told(x):
    """What the specification is told about an input."""
    if x["k"] == "rgb":
        return {"k": "rgb", "rgb": [q(float(a)) for a in x["vals"][:3]]}
    if x["k"] == "hex":
        return {"k": "hex", "rgb": rgb(x["text"])}
    if x["k"] == "name":
        return {"k": "name", "name": x["text"]}
    return {"k": "bad"}


def run(case):
    import pandas as pd
    from chainconsumer import Chain, ChainConfig
    from chainconsumer.color_finder import colors

    ev = []
    if case["op"] == "map":
        r = caught(lambda: colors.get_colormap(case["num"], case["cmap"], **case["arg"]))
        return [{"op": "map", "in": {"num": case["num"]}, "out": {"ok": r["ok"], "rgbs": [rgb(x) for x in r["v"]] if r["ok"] else []}}]
    if case["op"] == "list":
        r = caught(lambda: colors.get_formatted([value(x) for x in case["inputs"]]))
        return [{"op": "list", "in": {"inputs": [told(x) for x in case["inputs"]]}, "out": {"ok": r["ok"], "rgbs": [rgb(x) for x in r["v"]] if r["ok"] else []}}]
    x = case["input"]
    r = caught(lambda: colors.format(value(x)))
    o = {"ok": r["ok"], "text": "none", "rgb": [-1, -1, -1], "again": "none"}
    cur = None
    if r["ok"]:
        cur = str(r["v"])
        a = caught(lambda: colors.format(r["v"]))
        o.update(text=cur, rgb=rgb(cur), again=str(a["v"]) if a["ok"] else "refused")
    ch = caught(lambda: (Chain(samples=pd.DataFrame({"a": [1.0, 2.0]}), name="c", color=value(x)) if case["chain"] else ChainConfig(color=value(x))).color)
    o["chain"] = str(ch["v"]) if ch["ok"] else "refused"
    ev.append({"op": "format", "in": {"input": told(x), "text": x["text"] if x["k"] == "hex" else "none"}, "out": o})
    for k, f in enumerate(case["h"]):
        if cur is None:
            break
        if f == "format":
            r = caught(lambda: colors.format(cur))
            e = {"op": "reformat", "in": {}}
        else:
            fv = float(f)
            r = caught(lambda: colors.scale_colour(cur if not (case["raw"] and k == 0) else value(x), fv))
            e = {"op": "scale", "in": {"f": q(fv)}}
        if r["ok"]:
            cur = str(r["v"])
        ev.append({**e, "out": {"ok": r["ok"], "text": cur, "rgb": rgb(cur)}})
        if not r["ok"]:
            break
    return ev


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("AlwaysValid", "OneColour", "ScaleMeets", "Identity", "Black", "Darker", "NotMoreThanWhite"))
    fs = ["-1", "0", "0.3", "0.5", "0.999", "1", "1.7", "4", "300"]
    con = f"CONSTANTS LEVELS = {{0, 1, 127, 255}}\n FACTORS = {{{', '.join(chr(34) + f + chr(34) for f in fs)}}}\n DEPTH = {ck.pick(2, 3)}\n"
    m = ck.model("MCColour", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\n{con}").out
    seen = {}
    rng.shuffle(m)
    # every name, then a share of the rest
    for x in m:
        if x["input"]["k"] == "name":
            seen.setdefault(x["input"]["name"], []).append(x)
    use = [y for v in seen.values() for y in v[: ck.pick(6, 60)]] + [x for x in m if x["input"]["k"] == "hex"][: ck.pick(500, 6000)]
    cases = []

    def spell(c):
        t = "#%02x%02x%02x" % tuple(c)
        if rng.random() < 0.3:
            t = t.upper()
        if rng.random() < 0.1:
            t += rng.choice(["ff", "80", "00"])
        return t

    def some():
        k = rng.choice(["hex", "hex", "rgb", "rgb", "name", "short"])
        if k == "hex":
            return {"k": "hex", "text": spell([rng.randrange(256) for _ in range(3)])}
        if k == "short":
            return {"k": "hex", "text": "#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(3))}
        if k == "name":
            return {"k": "name", "text": rng.choice(sorted(seen))}
        v = [rng.choice([0.0, 1.0, 0.5, 0.2, rng.random(), rng.random(), rng.randrange(256) / 255]) for _ in range(3)]
        # no ties in rounding to a channel
        v = [a if abs((255 * a) % 1 - 0.5) > 1e-6 else 0.3 for a in v]
        return {"k": "rgb", "vals": v + ([rng.choice([0.0, 0.4, 1.0])] if rng.random() < 0.3 else []), "array": rng.random() < 0.5}

    for x in use:
        i = {"k": "name", "text": x["input"]["name"]} if x["input"]["k"] == "name" else {"k": "hex", "text": spell(x["input"]["rgb"])}
        cases.append({"op": "one", "input": i, "h": x["h"], "chain": rng.random() < 0.5, "raw": rng.random() < 0.5})
    for _ in range(ck.pick(300, 4000)):
        h = [rng.choice(fs + ["format", str(round(rng.random() * 2, 3))]) for _ in range(rng.randrange(4))]
        cases.append({"op": "one", "input": some(), "h": h, "chain": rng.random() < 0.5, "raw": rng.random() < 0.5})
    bad = ["java", "", "blu", "Blue", "BLUE", "gray ", "navy", "tab:blue", "3b82f6", "#", "#12345", "#ggg", "#1234567", "#xyzxyz", "# 3b82f", "1", "none", "bb"]
    cases += [{"op": "one", "input": {"k": "bad", "text": b}, "h": [], "chain": c, "raw": False} for b in bad for c in (True, False)]
    for v in ([2.0, 0.0, 0.0], [-0.1, 0.5, 0.5], [0.5, 255.0, 0.1], [0.5, 0.5], [], [0.1] * 5):
        cases += [{"op": "one", "input": {"k": "rgb" if len(v) == 3 else "bad", "text": v, "vals": v, "array": a}, "h": [], "chain": True, "raw": False} for a in (True, False)]
    for _ in range(ck.pick(60, 600)):
        cases.append({"op": "map", "num": rng.choice([0, 1, 2, 3, 7, 30, 300]), "cmap": rng.choice(["viridis", "plasma", "hsv", "gray", "tab10", "jet"]), "arg": rng.choice([{}, {}, {"scale": 1.0}, {"scale": 0.0}, {"scale": 0.3}])})
        cases.append({"op": "list", "inputs": [some() for _ in range(rng.randrange(5))]})
    ck.run("JColour", cases, run, limit=60)


RUN = {"JColour": run}
