"""Property models and stream value models (spec/Models.tla)."""
import random
from nion.utils import Event
from nion.utils import Model
from nion.utils import Stream
from vf import api, explore


class V:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, V) and other.n // 10 == self.n // 10

    def __bool__(self):
        return self.n >= 10

    __hash__ = None


class TestStream(Stream.AbstractStream):
    """a stream which fires each value it is given"""
    def __init__(self, value):
        super().__init__()
        self.value_stream = Event.Event()
        self._v = value

    @property
    def value(self):
        return self._v

    def put(self, v):
        self._v = v
        self.value_stream.fire(v)


CMPS = {"default": None, "identity": lambda a, b: a is b, "mod2": lambda a, b: a.n // 10 % 2 == b.n // 10 % 2,
        "approx": lambda a, b: abs(a.n // 10 - b.n // 10) <= 1, "always": lambda a, b: True, "never": lambda a, b: False}


class Session:
    def __init__(self, cfg, p, ch):
        self.cfg = cfg
        self.p = p
        self.ch = ch
        self.log = []
        self.objects = {}
        self.depth = 0
        self.sets = 0

    def dec(self, n):
        return None if n == -1 else self.objects.setdefault(n, V(n))

    @staticmethod
    def enc(v):
        return -1 if v is None else v.n if isinstance(v, V) else -99

    def ev(self, **kw):
        self.log.append(kw)
        if len(self.log) > 300:
            raise api.Hang()

    def set(self):
        self.sets += 1
        x = self.ch.pick(self.p["values"])
        self.ev(e="set", x=x)
        self.depth += 1
        if self.stream is not None:
            self.stream.put(self.dec(x))
        else:
            self.m.value = self.dec(x)
        self.depth -= 1
        self.ev(e="end", seen=self.enc(self.m.value))

    def observer(self):
        if self.depth < self.p["depth"] and self.sets < self.p["sets"] and self.ch(2):
            self.set()
        self.ev(e="ret")

    def pc(self, key):
        self.ev(e="pc", key=str(key), seen=self.enc(self.m.value))
        self.observer()

    def ov(self, arg):
        self.ev(e="ov", arg=self.enc(arg), seen=self.enc(self.m.value))
        self.observer()

    def run(self):
        try:
            with api.time_limit(api.STEP_LIMIT):
                c = self.cfg
                self.stream = TestStream(self.dec(c["strm"])) if c["stream"] else None
                kw = {}
                if CMPS[c["cmp"]]:
                    kw["cmp"] = CMPS[c["cmp"]]
                if c["first"] != -1:
                    kw["value"] = self.dec(c["first"])
                if self.stream is not None:
                    self.stream.add_ref()
                    self.m = Model.StreamValueModel(self.stream, **kw)
                else:
                    self.m = Model.PropertyModel(**kw)
                listener = self.m.property_changed_event.listen(self.pc)
                self.ev(e="look", seen=self.enc(self.m.value))
                if self.ch(3):
                    self.m.on_value_changed = self.ov
                    self.ev(e="hook", on=True)
                while self.sets < self.p["sets"]:
                    k = self.ch(self.p["other"]) if self.p["other"] else 1
                    if k == 0:
                        k = self.ch(2)
                        self.m.on_value_changed = self.ov if k else None
                        self.ev(e="hook", on=bool(k))
                    self.set()
                if self.stream is not None:
                    self.m.close()
                    self.ev(e="close")
                    self.set()
                    self.set()
        except api.Machinery:
            raise
        except api.Hang:
            self.log.append({"e": "hang"})
        except Exception as e:
            self.log.append({"e": "exc", "what": repr(e)[:200]})
        return {"cfg": self.cfg, "evs": self.log}


def rec(p):
    api.quiet()
    res = []
    complete = []
    for q in p["exhaustive"]:
        for cmp in sorted(CMPS):
            for s in (False, True):
                cfg = {"cmp": cmp, "stream": s, "first": 10, "strm": -1}
                n = 0
                done = False
                for r in explore.all_choices(lambda ch: Session(cfg, q, ch).run(), q["limit"]):
                    api.flush_quiet()
                    if r is None:
                        done = True
                    else:
                        n += 1
                        res.append(r)
                complete.append({"cfg": cfg, "histories": n, "complete": done})
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            cfg = {"cmp": rng.choice(sorted(CMPS)), "stream": rng.random() < 0.4, "first": rng.choice([-1, -1] + q["values"]), "strm": rng.choice(q["values"])}
            res.append(Session(cfg, q, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res), "complete": complete}
