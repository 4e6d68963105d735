"""Axis tickers (spec/Tickers.tla)."""
import math
import random
from nion.utils import Geometry as G
from vf import api

BAD = -2000000000


def integer(v, unit, tol, far=0):
    """v as a number of units, if it is one (up to tol units), above that of far"""
    if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v):
        return BAD
    x = v / unit - far
    if abs(x) > 1e9:
        return BAD
    r = round(x)
    return r if abs(x - r) <= tol else BAD


def shown(label, unit, tol, far=0):
    try:
        return integer(float(label), unit, tol, far)
    except (TypeError, ValueError):
        return BAD


def times(v, base):
    """k, if base ** v is k times a whole power"""
    x = base ** (v - math.floor(v + 1e-9))
    return round(x) if abs(x - round(x)) < 1e-6 else 0


class Gen:
    def __init__(self, rng, spans, exps):
        self.rng, self.spans, self.exps, self.log = rng, spans, exps, []

    def put(self, ev, fn):
        try:
            ev["res"] = fn()
        except api.Machinery:
            raise
        except Exception as e:
            ev["res"] = {"exc": type(e).__name__}
        self.log.append(ev)

    def number(self):
        rng = self.rng
        span = rng.choice(self.spans)
        k = rng.randint(-span, span)
        if rng.random() < 0.3:
            k = rng.choice([1, 2, 5, 10, 15, 20, 25, 30, 50, 70, 100, 150, 300, 700]) * rng.choice([-1, 1])
        return k

    def step(self):
        rng = self.rng
        e = rng.choice(self.exps)
        a = self.number()
        b = rng.choice([self.number(), a + rng.choice([1, 2, 3, 5, 7, 10, 15, 20, 30, 50, 70, 100]), -a, 0])
        if a == b:
            b = a + 1
        # written as literals are, so the values are the nearest floats
        # (far away from 0: the distance is a multiple of every possible division)
        far = rng.choice([0, 0, 0, 1, -1, 10, -37, 1000, 12345]) * 10 ** 7 if max(abs(a), abs(b)) < 10 ** 6 else 0
        va, vb = float("%de%d" % (far + a, e)), float("%de%d" % (far + b, e))
        if rng.random() < 0.2 and e >= 0:
            va = int(va)
        n = rng.choice([2, 3, 4, 5, 5, 6, 8, 10, 11])
        unit = float("1e%d" % (e - 2))
        lo, hi = min(a, b) * 100, max(a, b) * 100
        o = rng.randrange(8)
        if o == 7:
            def pretty():
                r = G.make_pretty(float("%de%d" % (a, e)), bool(a % 2))
                return {"v": integer(r[0], unit, 0.01)}
            if a:
                self.put({"e": "pretty", "v": a * 100, "r": bool(a % 2)}, pretty)
            return
        if o == 6:
            self.logarithmic()
            return

        def linear():
            if o == 5:
                r = G.make_pretty_range(va, vb, ticks=n)
                low, high, values, division, precision = r
                labels = None
            else:
                t = G.LinearTicker(va, vb, ticks=n)
                low, high, values, division, precision = t.minimum, t.maximum, t.values, t.division, t.precision
                labels = list(t.labels)
                if t.ticks != n:
                    return {"exc": "ticks"}
            tol = 0.01 if not far else 0.2
            I = lambda v: integer(v, unit, tol, far * 100)
            values = [I(v) for v in values][:200]
            return {"div": integer(division, unit, 0.01), "min": I(low), "max": I(high), "values": values, "precision": precision if type(precision) is int else BAD,
                    "labels": values if labels is None else [shown(s, unit, tol, far * 100) for s in labels][:200]}
        self.put({"e": "linear", "lo": lo, "hi": hi, "n": n, "x": e}, linear)
        if o < 2:
            v = rng.randint(lo, hi)
            self.put({"e": "label", "lo": lo, "hi": hi, "n": n, "v": v},
                     lambda: {"shown": shown(G.LinearTicker(va, vb, ticks=n).value_label((far * 100 + v) * unit), unit, 0.5, far * 100)})

    def logarithmic(self):
        rng = self.rng
        lo = rng.choice([rng.randint(-12, 12), rng.randint(-120, 120) / 10, rng.randint(-12000, 12000) / 1000])
        hi = lo + rng.choice([0, 0.001, 0.01, 0.03, 0.1, 0.2, 0.3, 0.5, 0.9, 1, 1.5, 2, 3, 4, 5, 8, 10, 20, rng.randint(1, 9999) / 1000, rng.randint(1, 300) / 10])
        n = rng.choice([3, 4, 5, 5, 6, 8, 10])
        base = rng.choice([10, 10, 10, 2, 8])

        def run():
            t = G.LogTicker(lo, hi, ticks=n, base=base)
            vals = list(t.values)
            gap = min((y - x for x, y in zip(vals, vals[1:])), default=0)
            if gap <= 1e-9:
                return {"exc": "not increasing"}
            res["unit"] = gap / 1000
            I = lambda v: integer((v - lo) / res["unit"], 1, 0.5)
            logs = []
            for s in t.labels:
                try:
                    x = float(s)
                except (TypeError, ValueError):
                    x = 0
                logs.append(I(math.log(x, base)) if x > 0 else BAD)
            if base not in (2, 10):
                logs = [I(v) for v in vals]  # labels are decimal
            return {"values": [I(v) for v in vals], "labels": logs, "minor": [i + 1 for i in t.minor_tick_indices],
                    "min": I(t.minimum), "max": I(t.maximum), "mult": [times(v, base) for v in vals]}
        res = {"unit": 1}
        ev = {"e": "log", "lo": "%g" % lo, "hiv": "%g" % hi, "n": n, "base": base, "u": 1000}
        self.put(ev, run)
        ev["hi"] = min(int((hi - lo) / res["unit"]), 1000000000)


def rec(args):
    traces = []
    for i, c in enumerate(args["random"]):
        for j in range(c["n"]):
            rng = random.Random("tickers/%s/%d/%d" % (args["seed"], i, j))
            g = Gen(rng, c["spans"], c["exps"])
            while len(g.log) < c["events"]:
                g.step()
            traces.append({"cfg": {"x": 0}, "evs": g.log})
    return {"traces": traces}
