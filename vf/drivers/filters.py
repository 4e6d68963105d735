import copy
import datetime
import operator
import random
from nion.utils import ListModel
from vf import api


class X:
    pass


def value(v):
    t, a = v["t"], v["v"]
    if t == "i":
        return a[0]
    if t == "s":
        return "".join(map(chr, a))
    if t == "d":
        return datetime.date(*a)
    return None


CMP = {"lt": operator.lt, "ge": operator.ge, "mod": lambda a, b: a % 2 == b % 2}


def build(f):
    k = f["k"]
    if k == "default":
        return ListModel.Filter(f["b"])
    if k in ("and", "or"):
        fs = [build(x) for x in f["fs"]]
        if len(fs) % 2:
            return (ListModel.AndFilter if k == "and" else ListModel.OrFilter)(tuple(fs))
        r = (ListModel.AndFilter if k == "and" else ListModel.OrFilter)(fs)
        fs.clear()      # the list given may be used for something else
        return r
    if k == "not":
        return ListModel.NotFilter(build(f["fs"][0]))
    key = f["key"]
    if k in ("eq", "ne"):
        cls = ListModel.EqFilter if k == "eq" else ListModel.NotEqFilter
        return cls(key, value(f["v"])) if f["c"] == "eq" else cls(key, value(f["v"]), CMP[f["c"]])
    if k == "prefix":
        return ListModel.StartsWithFilter(key, value(f["v"]))
    if k == "text":
        return ListModel.TextFilter(key, value(f["v"]))
    if k == "date":
        y, m, d = [x or None for x in f["v"]["v"]]
        return ListModel.PartialDateFilter(key, y, m, d)
    if k == "pred":
        return ListModel.PredicateFilter(lambda x: getattr(x, key) % 3 == f["v"]["v"][0])


def item(x):
    o = X()
    for k, v in x.items():
        setattr(o, k, value(v))
    return o


class D(api.Driver):
    def __init__(self, cfg):
        self.cache = {}

    def step(self, i):
        k = api.canon(i["f"])
        if k not in self.cache:
            f = build(i["f"])
            self.cache[k] = (f, copy.deepcopy(f), copy.deepcopy(copy.deepcopy([f, f]))[1])
        f, c, c2 = self.cache[k]
        x = item(i["x"])
        m = bool(f.matches(x))
        return {"m": m, "copy": m if bool(c.matches(x)) == m and bool(c2.matches(x)) == m else (not m)}


def rep(p):
    api.quiet()
    return api.replay(D, {}, p["edges"], 1, seed=p["seed"], max_walk=10 ** 9)


WORDS = ["", "a", "B", "ab", "AB", "aB", "ba", "abc", "12", "1", "é", "É", "xÉy", "*", ".", "a.b", "a b", "None", "-", "20", "02", " ", " a", "b ", "none"]


def s(w):
    return {"t": "s", "v": [ord(c) for c in w]}


def rnd_leaf(rng):
    k = rng.choice(["default", "eq", "eq", "ne", "ne", "prefix", "text", "text", "date", "pred"])
    if k == "default":
        return {"k": k, "b": rng.random() < 0.5}
    if k in ("eq", "ne"):
        c = rng.choice(["eq", "eq", "lt", "ge", "mod"])
        if c == "eq" and rng.random() < 0.5:
            return {"k": k, "key": rng.choice(["s", "o"]), "v": rng.choice([s(rng.choice(WORDS)), {"t": "n", "v": []}, {"t": "i", "v": [rng.randint(-2, 3)]}]), "c": c}
        return {"k": k, "key": "n", "v": {"t": "i", "v": [rng.randint(-3, 3)]}, "c": c}
    if k == "prefix":
        return {"k": k, "key": "s", "v": s(rng.choice(WORDS))}
    if k == "text":
        return {"k": k, "key": rng.choice(["s", "s", "n", "o", "d"]), "v": s(rng.choice(WORDS))}
    if k == "date":
        return {"k": k, "key": "d", "v": {"t": "d", "v": [rng.choice([0, 2019, 2020]), rng.choice([0, 1, 2, 12]), rng.choice([0, 1, 2, 28])]}}
    return {"k": k, "key": "n", "v": {"t": "i", "v": [rng.randrange(3)]}}


def rnd(rng, depth):
    if depth == 0 or rng.random() < 0.2:
        return rnd_leaf(rng)
    k = rng.choice(["and", "or", "not"])
    if k != "not" and rng.random() < 0.15:      # many, of which few decide
        fs = [{"k": "default", "b": k == "and"} for _ in range(rng.randint(4, 12))]
        for _ in range(rng.choice([0, 1, 1, 2])):
            fs[rng.randrange(len(fs))] = rnd(rng, rng.choice([0, 0, depth - 1]))
        return {"k": k, "fs": fs}
    return {"k": k, "fs": [rnd(rng, depth - 1) for _ in range(1 if k == "not" else rng.choice([0, 1, 2, 2, 3, 4]))]}


def rnd_item(rng):
    return {"n": {"t": "i", "v": [rng.randint(-4, 25)]}, "s": s(rng.choice(WORDS) + rng.choice(WORDS)),
            "o": rng.choice([s(rng.choice(WORDS)), {"t": "n", "v": []}, {"t": "i", "v": [rng.randint(-2, 300)]}]),
            "d": {"t": "d", "v": [rng.choice([2019, 2020]), rng.choice([1, 2, 12]), rng.choice([1, 2, 28])]}}


def rec(p):
    api.quiet()
    res = []
    for n in range(p["traces"]):
        rng = random.Random("%s/%s" % (p["seed"], n))
        f = rnd(rng, rng.choice([0, 0, 1, 2, 3, 4]))
        d = D({})
        evs = []
        for _ in range(p["length"]):
            i = {"f": f, "x": rnd_item(rng)}
            evs.append({"in": i, "out": api.guarded(d.step, i)})
        res.append({"cfg": {}, "evs": evs})
    return res
