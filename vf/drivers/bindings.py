"""Bindings (spec/Bindings.tla)."""
import random
from nion.utils import Binding
from nion.utils import Observable
from vf import api


class Obj:
    def __init__(self, a, b):
        if a != -2:
            self.a = a
        self.b = b


class FalsyObj(Obj):
    def __bool__(self):
        return False


class Falsy:
    def __bool__(self):
        return False


FALSY = Falsy()
# what the numbers 0, 1 and 2 stand for
STYLES = {"number": {}, "text": {0: "", 1: "a", 2: "b"}, "logic": {0: False, 1: True}, "tuple": {0: (), 1: (1, 2), 2: (0,)}, "list": {0: [], 1: [0], 2: [1, []]}, "object": {0: FALSY}, "float": {0: 0.0, 1: -1.0, 2: -2.0}}


class Source(Observable.Observable):
    def __init__(self):
        super().__init__()
        self._v = {"p": None, "q": None}
        self.items = []
        self.others = []

    @property
    def p(self):
        return self._v["p"]

    @p.setter
    def p(self, v):
        self._v["p"] = v
        self.notify_property_changed("p")

    @property
    def q(self):
        return self._v["q"]

    @q.setter
    def q(self, v):
        self._v["q"] = v
        self.notify_property_changed("q")


class Conv:
    def __init__(self, d):
        self.d = d

    def convert(self, v):
        return self.d.n2v(104 if v is None else self.d.v2n(v) + 100)

    def convert_back(self, v):
        return self.d.n2v(4 if v is None else self.d.v2n(v) - 100)


class Valid:
    def __init__(self, d):
        self.d = d

    def validate(self, v):
        return self.d.n2v(3 if v is None else min(max(self.d.v2n(v), 0), 5))


class D(api.Driver):
    def n2v(self, n):
        return None if n == -1 else self.style.get(n, n)

    def v2n(self, v):
        if v is None:
            return -1
        for n, x in self.style.items():
            if type(x) is type(v) and x == v:
                return n
        return v if type(v) is int and v not in self.style else -99

    def __init__(self, cfg):
        self.cfg = cfg
        self.style = STYLES[cfg.get("style", "number")]
        self.Obj = FalsyObj if cfg.get("falsy") else Obj
        self.source = Source()
        self.kind_of = {}
        self.bs = []
        self.given = []
        self.closed = set()
        for b in cfg["bs"]:
            self.kind_of[b["prop"]] = b["kind"]
        for p in ("p", "q"):
            self.source._v[p] = self.dec(p, cfg["src"][p])
        self.source.items = [self.n2v(x) for x in cfg["lists"]["items"]]
        self.source.others = [self.n2v(x) for x in cfg["lists"]["others"]]
        self.calls = [[] for _ in cfg["bs"]]
        for k, b in enumerate(cfg["bs"]):
            self.bs.append(self.build(k, b))

    def build(self, k, b):
        kw = {}
        if b["kind"] != "list":
            if b["conv"]:
                kw["converter"] = Conv(self)
            if b["valid"]:
                kw["validator"] = Valid(self)
            if b["fb"] != -1:
                kw["fallback"] = self.n2v(b["fb"])
        if b["kind"] == "prop":
            r = Binding.PropertyBinding(self.source, b["prop"], **kw)
        elif b["kind"] == "attr":
            if b["fn"]:
                def update(o, name, value):
                    n = self.Obj(getattr(o, "a", -2), o.b)
                    setattr(n, name, value)
                    return n
                kw["update_attribute_fn"] = update
            r = Binding.PropertyAttributeBinding(self.source, b["prop"], "a", **kw)
        elif b["kind"] == "tuple":
            r = Binding.TuplePropertyBinding(self.source, b["prop"], b["idx"], **kw)
        else:
            r = Binding.ListBinding(self.source, b["prop"])
        self.given.append(kw)
        self.connect(k, r, True)
        return r

    def connect(self, k, r, on):
        if self.cfg["bs"][k]["kind"] == "list":
            r.inserter = (lambda x, i: self.calls[k].append(["ins", self.v2n(x), i])) if on else None
            r.remover = (lambda i: self.calls[k].append(["rem", 0, i])) if on else None
        else:
            r.target_setter = (lambda v: self.calls[k].append(["set", self.v2n(v), 0])) if on else None

    def odd(self):
        """bindings which do not have what they were made with"""
        return sum(1 for k, r in enumerate(self.bs) if k + 1 not in self.closed and (
            r.source is not self.source or r.converter is not self.given[k].get("converter") or r.validator is not self.given[k].get("validator")))

    def dec(self, p, val):
        k = self.kind_of.get(p, "prop")
        if val["none"]:
            return None
        if k == "prop":
            return self.n2v(val["v"][0])
        if k == "attr":
            return self.Obj(-2 if val["v"][0] == -2 else self.n2v(val["v"][0]), val["v"][1])
        return tuple(self.n2v(x) for x in val["v"])

    def enc(self, p):
        k = self.kind_of.get(p, "prop")
        v = self.source._v[p]
        if v is None:
            return {"none": True, "v": []}
        if k == "prop":
            return {"none": False, "v": [self.v2n(v)]}
        if k == "attr":
            return {"none": False, "v": [self.v2n(v.a) if hasattr(v, "a") else -2, v.b]}
        return {"none": False, "v": [self.v2n(x) for x in v]}

    def step(self, i):
        for c in self.calls:
            c.clear()
        s = self.source
        op = i["op"]
        if op == "set":
            setattr(s, i["p"], self.dec(i["p"], i["val"]))
        elif op == "update":
            self.bs[i["k"] - 1].update_source(self.n2v(i["t"]))
        elif op == "other":
            s.notify_property_changed("pp")
            s.notify_insert_item("p", 1, 0)
            s.notify_remove_item("itemsx", 1, 0)
        elif op == "mute":
            self.connect(i["k"] - 1, self.bs[i["k"] - 1], not i["on"])
        elif op == "push":
            self.bs[i["k"] - 1].update_target(self.n2v(i["x"]))
        elif op == "direct":
            self.bs[i["k"] - 1].update_target_direct(self.n2v(i["x"]))
        elif op == "fallback":
            self.bs[i["k"] - 1].fallback = self.n2v(i["x"])
        elif op == "close":
            self.bs[i["k"] - 1].close()
            self.closed.add(i["k"])
        elif op == "ins":
            getattr(s, i["key"]).insert(i["i"], self.n2v(i["x"]))
            s.notify_insert_item(i["key"], self.n2v(i["x"]), i["i"])
        elif op == "rem":
            x = getattr(s, i["key"]).pop(i["i"])
            s.notify_remove_item(i["key"], x, i["i"])
        return {"odd": self.odd(), "calls": [list(c) for c in self.calls], "src": {"p": self.enc("p"), "q": self.enc("q")},
                "lists": {"items": [self.v2n(x) for x in s.items], "others": [self.v2n(x) for x in s.others]},
                "got": [0 if b["kind"] == "list" or k + 1 in self.closed else self.v2n(self.bs[k].get_target_value()) for k, b in enumerate(self.cfg["bs"])],
                "items": [[self.v2n(x) for x in self.bs[k].items] if b["kind"] == "list" and k + 1 not in self.closed else [] for k, b in enumerate(self.cfg["bs"])]}

    def gen(self, rng):
        for _ in range(20):
            r = self.gen1(rng)
            if r:
                return r

    def val(self, rng, p):
        k = self.kind_of.get(p, "prop")
        n = lambda: rng.choice([-1, 0, 0, 1, 2, 3, 9])
        if k == "attr" and not any(b["kind"] == "attr" and b["prop"] == p for b in self.cfg["bs"]):
            k = "prop"
        if rng.random() < 0.15:
            return {"none": True, "v": []}
        if k == "prop":
            return {"none": False, "v": [rng.choice([0, 0, 1, 2, 9])]}
        if k == "attr":
            return {"none": False, "v": [rng.choice([-2, -1, 0, 1, 5]), rng.randrange(3)]}
        return {"none": False, "v": [n() for _ in range(rng.randrange(self.cfg.get("long", 4)))]}

    def gen1(self, rng):
        op = rng.choices(["set", "update", "other", "close", "ins", "rem", "mute", "push", "direct", "fallback"], [5, 5, 1, 0.4, 3, 2, 0.6, 0.6, 0.6, 0.4])[0]
        if op == "set":
            p = rng.choice("pq")
            return {"op": op, "p": p, "val": self.val(rng, p)}
        if op == "update":
            c = [k for k, b in enumerate(self.cfg["bs"]) if b["kind"] != "list"]
            if not c:
                return None
            k = rng.choice(c)
            b = self.cfg["bs"][k]
            if b["kind"] == "attr" and self.source._v[b["prop"]] is None:
                return None
            t = rng.choice([-1, 0, 0, 1, 2, 7, -8])
            return {"op": op, "k": k + 1, "t": t if t == -1 else t + (100 if b["conv"] else 0)}
        if op == "close":
            k = rng.randrange(len(self.bs)) + 1
            return {"op": op, "k": k} if k not in self.closed else None
        if op in ("mute", "push", "direct", "fallback"):
            k = rng.randrange(len(self.bs)) + 1
            if op == "mute":
                return {"op": op, "k": k, "on": rng.random() < 0.4} if k not in self.closed else None
            if op == "fallback" and k in self.closed:
                return None
            return {"op": op, "k": k, "x": rng.choice([-1, 0, 1, 7])} if self.cfg["bs"][k - 1]["kind"] != "list" else None
        if op == "other":
            return {"op": op}
        key = rng.choice(["items", "others"])
        l = getattr(self.source, key)
        if op == "ins":
            return {"op": op, "key": key, "i": rng.randint(0, len(l)), "x": rng.choice([-1, 0, rng.randrange(50), rng.randrange(50)])} if len(l) < self.cfg.get("long", 5) else None
        return {"op": op, "key": key, "i": rng.randrange(len(l))} if l else None


def rnd_cfg(rng):
    kinds = {"p": rng.choice(["prop", "attr", "tuple"]), "q": rng.choice(["prop", "attr", "tuple"])}
    bs = []
    long = rng.random() < 0.15
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        if rng.random() < 0.2:
            bs.append({"kind": "list", "prop": rng.choice(["items", "others"]), "idx": 0, "conv": False, "valid": False, "fb": -1, "fn": False})
            continue
        p = rng.choice("pq")
        k = kinds[p]
        bs.append({"kind": k, "prop": p, "idx": rng.randrange(16 if long else 3) if k == "tuple" else 0, "conv": rng.random() < 0.5,
                   "valid": k == "prop" and rng.random() < 0.5, "fb": rng.choice([-1, 0, 77]), "fn": k == "attr" and rng.random() < 0.5})
    src = {}
    for p in "pq":
        k = kinds[p] if any(b["prop"] == p for b in bs) else "prop"
        src[p] = {"prop": {"none": True, "v": []}, "attr": {"none": False, "v": [1, 2]}, "tuple": {"none": False, "v": [1, -1, 3]}}[k]
    lists = {"items": [1, 2], "others": []}
    if long:
        lists = {"items": [rng.randrange(-1, 40) for _ in range(17)], "others": [rng.randrange(-1, 40) for _ in range(14)]}
    more = {"long": 20} if long else {}
    return {**more, "bs": bs, "src": src, "lists": lists, "style": rng.choice(sorted(STYLES)), "falsy": rng.random() < 0.4}


def rec(p):
    api.quiet()
    rng = random.Random(p["seed"])
    return api.record(D, [rnd_cfg(rng) for _ in range(p["traces"])], p["seed"], p["traces"], p["length"])


def rep(p):
    api.quiet()
    inits = {}
    for line in open(p["edges"]):
        import json
        st = json.loads(line)[0]
        inits[api.canon(st[0])] = st[0]
    res = []
    for n, (c, bs) in enumerate(sorted(inits.items())):
        k = bs[0]["kind"]
        src = {"p": {"none": False, "v": [1, 2]} if k == "attr" else {"none": True, "v": []}, "q": {"none": True, "v": []}}
        cfg = {"bs": bs, "src": src, "lists": {"items": [], "others": []}, "style": sorted(STYLES)[(n + p["seed"]) % len(STYLES)], "falsy": n % 3 == 0}
        res.append(api.replay(D, cfg, p["edges"], [bs, src, True, True], seed=p["seed"], only=c))
    return res
