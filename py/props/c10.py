"""C10: the text of a bound states the bound."""
import re
from fractions import Fraction

from core import caught, q

NUM = r"(-?\d+(?:\.\d+)?)"
BODY = re.compile(rf"^(\\left\( )?{NUM}(?:\\pm {NUM}|\^\{{\+{NUM}\}}_\{{-{NUM}\}})( \\right\) \\times 10\^\{{(-?\d+)\}})?$")


def entry(t):
    m = BODY.match(t)
    if not m or bool(m.group(1)) != bool(m.group(6)):
        return None
    c, pm, up, lo, ex = m.group(2), m.group(3), m.group(4), m.group(5), m.group(7)
    u, lw = (pm, pm) if pm is not None else (up, lo)
    return {"form": "pm" if pm is not None else "sup", "c": c, "u": u, "l": lw, "exp": int(ex or 0),
            "dec": [len(z.split(".")[1]) if "." in z else 0 for z in (c, u, lw)]}


def unwrap(t):
    if len(t) >= 2 and t[0] == "$" and t[-1] == "$" and "$" not in t[1:-1]:
        return t[1:-1], True
    return t, False


def parse(text, listed):
    """The printed structure of a text; what is not understood is kept as junk."""
    o = {"entries": [], "numbers": [], "label": "none", "wrapped": False, "junk": ""}
    if text == "":
        return o
    wraps = []
    if not listed:
        body, wr = unwrap(text)
        wraps.append(wr)
        if " = " in body:
            o["label"], body = body.split(" = ", 1)
        e = entry(body)
        if e:
            o["entries"].append(e)
        else:
            o["junk"] = body
    else:
        lines = text.split("\n")
        if not re.match(r"^I\d+: ", lines[0]):
            o["label"], wr = unwrap(lines[0])
            wraps.append(wr)
            lines = lines[1:]
        for ln in lines:
            m = re.match(r"^I(\d+): (.*)$", ln)
            if not m:
                o["junk"] += ln
                continue
            o["numbers"].append(int(m.group(1)))
            body, wr = unwrap(m.group(2))
            wraps.append(wr)
            e = entry(body)
            if e:
                o["entries"].append(e)
            else:
                o["junk"] += body
    o["wrapped"] = all(wraps) if wraps and wraps[0] else any(wraps)
    return o


def run(case):
    from chainconsumer import ChainConsumer
    from chainconsumer.analysis import Bound

    an = ChainConsumer().analysis
    bounds = [Bound(lower=b[0], center=b[1], upper=b[2]) for b in case["bounds"]]
    arg = bounds[0] if case["kind"] == "one" else bounds
    if case["kind"] == "tuple":
        arg = tuple(bounds)
    kw = {}
    if case["label"] != "none":
        kw["label"] = case["label"]
    if case["wrap"] or case["say"]:
        kw["wrap"] = case["wrap"]
    r = caught(lambda: an.get_parameter_text(arg, **kw))
    listed = case["kind"] != "one" and len(bounds) >= 2
    text = r["v"] if r["ok"] else ""
    ok = r["ok"] and isinstance(text, str)
    text = text if ok else ""
    same = [b.lower for b in bounds] == [b[0] for b in case["bounds"]]
    assert same
    d = {"kind": case["kind"], "wrap": case["wrap"], "label": case["label"],
         "bounds": [{k: "none" if v is None else q(v) for k, v in zip("lcu", b)} for b in case["bounds"]]}
    return [{"op": "text", "in": d, "out": {"ok": ok, "text": text, "parsed": parse(text, listed)}}]


def near(rng):
    """A bound from random magnitudes, or with errors that sit close to a rounding edge."""
    e = rng.choice([rng.randint(-6, 7), rng.randint(-3, 3), rng.randint(-120, 120)])
    f = lambda: rng.choice([rng.uniform(1, 10), rng.uniform(1, 10), 9.95, 9.949999, 9.96, 9.5, 1.0, 1.05, 2.5, 9.999999, 5.0]) * 10.0**e  # noqa: E731
    lo = f()
    up = rng.choice([lo, lo * rng.choice([1.001, 1.04, 0.999, 3, 30, 400]), f(), 0.0])
    if rng.random() < 0.07:
        lo = 0.0
    c = rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 1), rng.gauss(0, 1) * 10, 1e3, -2.5e4]) * 10.0 ** (e + rng.choice([0, 0, 1, 2]))
    b = [c - lo, c, c + up]
    if rng.random() < 0.06:
        b[rng.randrange(3)] = None
    return b


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("HalfUnit", "NeverEmpty", "ErrorsSurvive", "TwoDigits", "TenTimes", "Mirror"))
    errs = ck.pick("{0, 1, 4, 5, 9, 10, 11, 15, 94, 95, 96, 99, 100, 101, 104, 105, 949, 950, 951, 994, 995, 999, 1000}",
                   "{0, 1, 2, 4, 5, 6, 9, 10, 11, 14, 15, 16, 50, 94, 95, 96, 99, 100, 101, 104, 105, 106, 500, 949, 950, 951, 994, 995, 996, 999, 1000, 1004, 9949, 9950, 9951}")
    m = ck.model("MCText", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS CENTRES = {{0, 1, 5, 95, 100, 1005, 12345, 99950}}\nERRORS = {errs}\n").out
    rng.shuffle(m)
    cases = []
    labels = ["none", "none", "x", "$".strip("$") + r"\Omega_m", "a b"]
    for b in m[: ck.pick(5000, 10**6)]:
        s = Fraction(10) ** rng.choice([0, 0, -1, -2, -3, -4, -5, 1, 2, 3, -9, 12])
        sg = rng.choice([1, -1])
        c = sg * b["c"]
        cases.append({"kind": rng.choice(["one", "one", "list"]), "bounds": [[float((c - b["l"]) * s), float(c * s), float((c + b["u"]) * s)]]})
    for _ in range(ck.pick(4000, 60000)):
        cases.append({"kind": "one", "bounds": [near(rng)]})
    for _ in range(ck.pick(1000, 15000)):
        cases.append({"kind": rng.choice(["list", "tuple"]), "bounds": [near(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 11]))]})
    cases.append({"kind": "list", "bounds": [[None] * 3, [None] * 3]})
    for c in cases:
        c["wrap"] = rng.random() < 0.5
        c["say"] = rng.random() < 0.5
        c["label"] = rng.choice(labels)
    ck.run("JText", cases, run)


RUN = {"JText": run}
