"""Converters and validators (spec/Converters.tla)."""
import datetime
import locale
import pathlib
import random
import uuid
from nion.utils import Converter as C
from nion.utils import Validator
from vf import api

NONE = [-1]
BAD = [-9]


def codes(s):
    if s is None:
        return NONE
    return [ord(c) for c in s] if isinstance(s, str) else BAD


def text(x):
    return codes(repr(x))


def number(s):
    """the float a string starts with"""
    s = s.strip()
    for n in range(len(s), 0, -1):
        try:
            return float(s[:n])
        except ValueError:
            pass


def physical(c, v):
    return c.convert_back(c.convert(v))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.log = []

    def do(self, op, fn, a=(), b=()):
        try:
            res = fn()
        except Exception as e:
            res = [-8]
        self.log.append({"e": op, "a": list(a), "b": list(b), "res": res})

    def same(self, conv, v, show=text):
        """to the target and back"""
        self.do("same", lambda: show(conv.convert_back(conv.convert(v))), show(v))

    def twice(self, conv, v):
        """back, and to the target again"""
        self.do("same", lambda: text(conv.convert(conv.convert_back(v))), text(v))

    def mutate(self, s, alphabet):
        """a string similar to s"""
        rng = self.rng
        s = list(s)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            k = rng.randrange(4)
            i = rng.randrange(len(s) + 1)
            if k == 0 and i < len(s):
                s[i] = rng.choice(alphabet)
            elif k == 1:
                s.insert(i, rng.choice(alphabet))
            elif k == 2 and i < len(s):
                del s[i]
            elif i + 1 < len(s):
                s[i], s[i + 1] = s[i + 1], s[i]
        return "".join(s)

    def step(self):
        rng = self.rng
        o = rng.randrange(12)
        if o == 0:
            n = rng.choice([rng.randint(-20, 20), rng.randint(-10 ** 9, 10 ** 9)])
            self.do("int", lambda: codes(C.IntegerToStringConverter().convert(n)), [n])
            self.same(C.IntegerToStringConverter(), n)
            big = rng.choice([1, -1]) * rng.randrange(10 ** rng.randint(1, 60))
            self.same(C.IntegerToStringConverter(), big)
            self.do("int", lambda: codes(C.IntegerToStringConverter().convert(n + 0.25 if n >= 0 else n - 0.25)), [n])
            f = rng.choice(["{:5d}", "{:+d}", "{:x}", "n={:d}"])
            self.do("same", lambda: codes(C.IntegerToStringConverter(f).convert(n)), codes(f.format(n)))
            for f in ("{:d}", "{:6d}", "{:+d}", "{:08d}", "{:_d}"):
                self.same(C.IntegerToStringConverter(f), rng.choice([n, big]))
        elif o == 1:
            c = C.CheckedToCheckStateConverter()
            b = rng.random() < 0.5
            self.do("check", lambda: codes(c.convert(b)), [int(b)])
            self.same(c, b)
            s = rng.choice(["checked", "unchecked", "", "partial", "Checked"])
            self.do("uncheck", lambda: [int(c.convert_back(s))] if isinstance(c.convert_back(s), bool) else BAD, codes(s))
        elif o in (2, 3):
            c = C.UuidToStringConverter()
            u = uuid.UUID(int=rng.getrandbits(128), version=rng.choice([4, 4, 4, 1, 3, 5])) if rng.random() < 0.8 else uuid.UUID(int=rng.getrandbits(128))
            show = lambda v: NONE if v is None else list(v.bytes) if isinstance(v, uuid.UUID) else BAD
            self.do("uuid", lambda: codes(c.convert(u)), list(u.bytes))
            s = str(u)
            if rng.random() < 0.3:
                s = s.upper()
            if rng.random() < 0.3:
                s = rng.choice(["", " ", "\n", "\t"]) + s + rng.choice(["", " ", "\n", "  "])
            s = self.mutate(s, "0123456789abcdefABCDEFgG-- {}") if rng.random() < 0.6 else s
            if rng.random() < 0.05:
                s = rng.choice(["", " ", s.replace("-", ""), "{" + s + "}", "urn:uuid:" + s, s + s])
            self.do("uuid back", lambda: show(c.convert_back(s)), codes(s))
            self.do("none", lambda: codes(c.convert(None)))
        elif o == 4:
            c = C.PathToStringConverter()
            p = pathlib.Path(*[rng.choice(["a", "b c", ".x", "..", "/", "d.txt", "\u00e9", "%20", "~"]) for _ in range(rng.randint(1, 5))])
            self.do("same", lambda: codes(c.convert(p)), codes(str(p)))
            self.same(c, p)
            self.do("none", lambda: codes(c.convert(None)))
            self.do("none", lambda: NONE if c.convert_back(None) is None else BAD)
            self.do("none", lambda: NONE if c.convert_back("") is None else BAD)
        elif o in (5, 6, 7):
            c = C.DatetimeToStringConverter()
            y = rng.choice([1, 4, 100, 400, 1900, 1999, 2000, 2020, 9999, rng.randint(1, 9999)])
            us = rng.choice([0, 0, 1, 10, 999999, 120000, rng.randrange(10 ** 6)])
            try:
                d = datetime.datetime(y, rng.randint(1, 12), rng.choice([1, 28, 29, 30, 31, rng.randint(1, 31)]), rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)]), us)
            except ValueError:
                return
            show = lambda v: NONE if v is None else [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond] if isinstance(v, datetime.datetime) and v.tzinfo is None else BAD
            self.do("time", lambda: codes(c.convert(d)), show(d))
            self.same(c, d)
            s = d.isoformat()
            if rng.random() < 0.8:
                s = self.mutate(s, "0123456789-:.TZ/") if rng.random() < 0.6 else s[:5] + rng.choice(["02", "13", "00", "04"]) + s[7:8] + rng.choice(["29", "30", "31", "00", "32"]) + s[10:]
            self.do("time back", lambda: show(c.convert_back(s)), codes(s))
            self.do("none", lambda: codes(c.convert(None)))
        elif o == 8:
            n = rng.choice([1, 2, 7, 10, 99, 100, 255, 1000, 4096, rng.randint(1, 5000)])
            lo, hi = rng.choice([(0, 1), (-1, 1), (-10, 10), (2, 5), (0.1, 0.7), (-0.3, 1e6), (100, 101), (1, 0), (-2.5, -1.25)])
            k = rng.choice([0, n, rng.randint(0, n)])
            self.twice(C.FloatToScaledIntegerConverter(n, lo, hi), k)
            self.twice(C.FloatToScaledIntegerConverter(n), k)
            # exactly
            n = 2 ** rng.randint(0, 10)
            k = rng.randint(-n, 2 * n)
            lo = rng.randint(-20, 20)
            hi = lo + rng.randint(1, 20)
            exact = lambda v: [int(v * n)] if v * n == int(v * n) else BAD
            self.do("scaled back", lambda: exact(C.FloatToScaledIntegerConverter(n).convert_back(k)), [k], [n, 0, 1])
            c = C.FloatToScaledIntegerConverter(n, lo, hi)
            self.do("scaled back", lambda: exact(c.convert_back(k)), [k], [n, lo, hi])
            self.do("same", lambda: text(c.convert(lo + k * (hi - lo) / n)), text(k))
        elif o == 9:
            k = rng.choice([rng.randint(0, 100), rng.randint(-300, 1000)])
            c = C.FloatToPercentStringConverter()
            self.do("percent", lambda: codes(c.convert(k / 100)), [k])
            self.twice(c, "%d%%" % k)
            self.do("same", lambda: text(c.convert_back("%d%%" % k)), text(k / 100.0))
            self.same(c, k / 100)
        elif o == 10:
            m = rng.choice([rng.randint(-999, 999), rng.randint(-99999, 99999)])
            v = float("%de%d" % (m, rng.randint(-12, 12)))
            if v == 0:
                v = 0.0
            for fuzzy in (True, False):
                self.same(C.FloatToStringConverter(fuzzy=fuzzy), v)
                self.same(C.FloatToStringConverter("{:.17g}", fuzzy=fuzzy), rng.choice([v, rng.random(), rng.uniform(-1e9, 1e9)]))
                w = rng.randint(-10 ** 6, 10 ** 6) / 100
                self.same(C.FloatToStringConverter("{:.2f}", fuzzy=fuzzy), w)
                self.same(C.FloatToStringConverter("{:+.3e}", fuzzy=fuzzy), float("%.3e" % (w or 1.0)))
            n = C.FloatToStringConverter(pass_none=True, fuzzy=rng.random() < 0.5)
            self.do("none", lambda: codes(n.convert(None)))
            self.do("none", lambda: NONE if n.convert_back(None) is None else BAD)
            self.do("none", lambda: NONE if n.convert_back("") is None else BAD)
            self.same(n, v)
            fmt = rng.choice(["{:.2f}", "{:g}", "{:8.3f}", "{:.1e}"])
            fz = rng.random() < 0.5
            self.do("same", lambda: codes(C.FloatToStringConverter(fmt, fuzzy=fz).convert(v)), codes(fmt.format(v)))
            self.do("same", lambda: codes(C.FloatToStringConverter().convert(v)), codes("{:g}".format(v)))
            self.do("same", lambda: codes(C.PhysicalValueToStringConverter("nm", 2.0).convert(v)), codes("{:g} nm".format(v * 2.0)))
            self.do("same", lambda: codes(C.PhysicalValueToStringConverter("nm", 2.0, fmt).convert(v)), codes(fmt.format(v * 2.0) + " nm"))
            self.do("same", lambda: codes(C.PhysicalValueToStringConverter("eV", pass_none=True).convert(v)), codes("{:g} eV".format(v)))
            # a number at the start of a string
            s = rng.choice(["", " ", "  "]) + repr(rng.choice([v, w, float(rng.randint(-50, 50))])) + rng.choice(["", " ", " nm", "nm", " 1/s", "x2", "-", ")"])
            self.do("same", lambda: text(C.FloatToStringConverter().convert_back(s)), text(number(s)))
            s = rng.choice(["nm", "x1", "-", "+", ".", "e5", "(3)", "#", "--1"])
            self.do("same", lambda: text(C.FloatToStringConverter().convert_back(s)), text(0.0))
            # a locale with a decimal comma
            old = locale._override_localeconv
            comma = {"decimal_point": ",", "thousands_sep": rng.choice(["", ".", ".", "\u202f", " "])}
            locale._override_localeconv = {"decimal_point": ".", "thousands_sep": ","}
            try:
                for fuzzy in (True, False):
                    self.same(C.FloatToStringConverter("{:.2f}", fuzzy=fuzzy), w)
                locale._override_localeconv = comma
                for fuzzy in (True, False):
                    self.same(C.FloatToStringConverter("{:.2f}", fuzzy=fuzzy), w)
                    self.same(C.FloatToStringConverter("{:.6g}", fuzzy=fuzzy), rng.randint(-8000, 8000) / 8)
                    self.do("same", lambda: text(C.FloatToStringConverter(fuzzy=fuzzy).convert_back("{:.2f}".format(w).replace(".", ","))), text(w))
                q = rng.randint(-2000, 2000) / 4
                self.do("same", lambda: text(physical(C.PhysicalValueToStringConverter("nm", 2.0), q)), text(q))
            finally:
                locale._override_localeconv = old
            m = rng.choice([1.0, 2.0, 4.0, 0.5])
            w = rng.randint(-2000, 2000) / 4
            units, fmt = rng.choice(["nm", "eV", "\u00b5m", "m/s", "1/nm", ""]), rng.choice([None, "{:.3f}"])
            self.do("same", lambda: text(physical(C.PhysicalValueToStringConverter(units, m, fmt), w)), text(w))
            self.do("none", lambda: codes(C.PhysicalValueToStringConverter("nm", pass_none=True).convert(None)))
            pn = C.PhysicalValueToStringConverter(units, m, fmt, pass_none=True, fuzzy=rng.random() < 0.5)
            self.do("none", lambda: NONE if pn.convert_back(None) is None else BAD)
            self.do("none", lambda: NONE if pn.convert_back("") is None else BAD)
            self.do("same", lambda: text(physical(pn, w)), text(w))
        else:
            lo, hi = sorted([rng.randint(-20, 20), rng.randint(-20, 20)])
            has = [rng.randint(0, 1), rng.randint(0, 1)]
            v = rng.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, rng.randint(-100, 100), 0])
            val = Validator.IntegerRangeValidator(lo if has[0] else None, hi if has[1] else None)
            self.do("validate", lambda: [val.validate(v)], [v], [has[0], lo, has[1], hi])


def rec(p):
    api.quiet()
    res = []
    for n in range(p["n"]):
        g = Gen(random.Random("%s/%s" % (p["seed"], n)))
        while len(g.log) < p["events"]:
            g.step()
        res.append({"cfg": {"x": 0}, "evs": g.log})
    return {"traces": res}
