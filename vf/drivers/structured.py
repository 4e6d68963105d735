"""Structured models (spec/Structured.tla)."""
import copy
import random
from nion.utils import StructuredModel as SM
from vf import api

TYPES = {"int": SM.INT, "string": SM.STRING, "boolean": SM.BOOLEAN, "double": SM.FLOAT}


def p2v(t, n):
    if n == -1:
        return None
    return {"int": lambda: n, "string": lambda: "s%d" % n if n else "", "boolean": lambda: bool(n), "double": lambda: n * 0.5}[t]()


def v2p(t, v):
    if v is None:
        return -1
    if t == "boolean":
        return int(v) if isinstance(v, bool) else -99
    if isinstance(v, bool):
        return -99
    if t == "int":
        return v if isinstance(v, int) else -99
    if t == "double":
        return int(v * 2) if isinstance(v, float) and v * 2 == int(v * 2) else -99
    if t == "string":
        return 0 if v == "" else int(v[1:]) if isinstance(v, str) and v[:1] == "s" else -99
    return -99


def sm_schema(s, style=0):
    if s[0] == "f":
        return TYPES[s[1]] if style == 0 else {"type": TYPES[s[1]]}
    if s[0] == "r":
        return SM.define_record("R", [SM.define_field(n, sm_schema(x, style), default=dec(x, d)) for n, x, d in s[1]])
    return SM.define_array(sm_schema(s[1], style))


def dec(s, d):
    """dict value -> python"""
    if d[0] == "n":
        return None
    if s[0] == "f":
        return p2v(s[1], d[1])
    if s[0] == "r":
        types = {n: x for n, x, _ in s[1]}
        return {n: dec(types[n], v) for n, v in d[1]}
    return [dec(s[1], v) for v in d[1]]


def enc(s, v):
    """python -> dict value"""
    if v is None:
        return ["n"]
    if s[0] == "f":
        return ["v", v2p(s[1], v)]
    if s[0] == "r":
        names = [n for n, _, _ in s[1]]
        extra = [n for n in v if n not in names]
        return ["r", [[n, enc(x, v[n])] for n, x, _ in s[1] if n in v] + [[str(n), ["v", -99]] for n in extra]]
    return ["a", [enc(s[1], x) for x in v]]


def scramble(v):
    if isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v.clear()
        v["zz"] = 1
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v.clear()
        v.append(None)


class D(api.Driver):
    def __init__(self, cfg):
        self.cfg = cfg
        self.nodes = []   # (model, schema)
        self.evs = []
        self.seen = []
        self.listeners = []
        self.waiting = []
        self.when = None
        self.built = {}
        self.closed = set()
        self.size, self.limit, self.most = (13, 60, 16) if cfg.get("big") else (4, 25, 5)
        if cfg.get("mc"):
            item = ["r", [["y", ["f", "int"], ["n"]]]]
            self.reg(SM.build_model(sm_schema(["r", [["x", ["f", "int"], ["v", 1]], ["a", ["a", item], ["n"]]]])),
                     ["r", [["x", ["f", "int"], ["v", 1]], ["a", ["a", item], ["n"]]]])
            self.attach()

    def find(self, m):
        for k, (x, _) in enumerate(self.nodes):
            if x is m:
                return k + 1
        return 0

    def reg(self, m, s):
        k = self.find(m)
        if k:
            return k
        self.nodes.append((m, s))
        k = len(self.nodes)
        self.waiting.append(k)
        if s[0] == "r":
            for n, x, _ in s[1]:
                self.reg(getattr(m, n + "_model"), x)
        elif s[0] == "a" and s[1][0] != "f":
            for x in m.items:
                self.reg(x, s[1])
        return k

    def entry(self, s, v):
        return v2p(s[1][1], v) if s[1][0] == "f" else self.reg(v, s[1])

    def attach(self):
        for k in self.waiting:
            m, s = self.nodes[k - 1]
            add = self.listeners.append
            add(m.model_changed_event.listen(lambda *a, k=k: self.ev(k, "mc", "", 0, 0)))
            if s[0] == "f":
                add(m.property_changed_event.listen(lambda key, k=k, m=m, s=s: self.ev(k, "pc", str(key), v2p(s[1], m.value), 0)))
            elif s[0] == "r":
                def pc(key, k=k, m=m, s=s):
                    fs = [x for n, x, _ in s[1] if n == key]
                    self.ev(k, "pc", str(key), v2p(fs[0][1], getattr(m, key)) if fs and fs[0][0] == "f" else -99, 0)
                add(m.property_changed_event.listen(pc))

                def edit(kind, key, value, index, k=k, s=s):
                    fs = [x for n, x, _ in s[1] if n == key]
                    self.ev(k, kind, str(key), self.entry(fs[0], value) if fs and fs[0][0] == "a" else -99, index)
                add(m.item_inserted_event.listen(lambda key, v, i, f=edit: f("ins", key, v, i)))
                add(m.item_removed_event.listen(lambda key, v, i, f=edit: f("rem", key, v, i)))
            else:
                add(m.item_inserted_event.listen(lambda key, v, i, k=k, s=s: self.ev(k, "ins", str(key), self.entry(s, v), i)))
                add(m.item_removed_event.listen(lambda key, v, i, k=k, s=s: self.ev(k, "rem", str(key), self.entry(s, v), i)))
        self.waiting = []

    def ev(self, k, kind, name, v, i):
        self.evs.append([k, kind, name, v, i])
        if len(self.evs) > 500:
            raise api.Hang()
        m, s = self.nodes[k - 1]
        self.seen.append((k, copy.deepcopy(m.to_dict_value())))
        if self.when is not None and (k, kind) == self.when[0]:
            f = self.when[1]
            self.when = None
            f()

    def look(self):
        res = []
        k = 0
        while k < len(self.nodes):   # grows
            m, s = self.nodes[k]
            if s[0] == "f":
                res.append({"k": "f", "v": v2p(s[1], m.value)})
            elif s[0] == "r":
                for n, x, _ in s[1]:
                    f = getattr(m, n)
                    fm = getattr(m, n + "_model")
                    ok = v2p(x[1], f) == v2p(x[1], fm.value) if x[0] == "f" else f is fm if x[0] == "r" else len(f) == len(fm.items) and all(a is b for a, b in zip(f, fm.items))
                    if not ok:
                        raise AssertionError("the value of %s is not that of its model" % n)
                res.append({"k": "r", "names": [n for n, _, _ in s[1]], "kids": [self.reg(getattr(m, n + "_model"), x) for n, x, _ in s[1]], "open": k + 1 not in self.closed})
            else:
                res.append({"k": "a", "prim": s[1][0] == "f", "items": [self.entry(s, x) for x in m.items], "open": k + 1 not in self.closed})
            k += 1
        return res

    def step(self, i):
        self.evs = []
        self.seen = []
        self.when = None
        op = i["op"]
        dict_ = ["n"]
        if op == "build":
            s = i["schema"]
            v = dec(s, i["val"])
            key = api.canon([s, i.get("style", 0)])   # models of the same schema share the schema and its defaults
            sc = self.built.setdefault(key, sm_schema(s, i.get("style", 0)))
            m = SM.build_model(sc, value=v) if v is not None else SM.build_model(sc)
            n = self.reg(m, s)
            scramble(v)
            d = m.to_dict_value()
            dict_ = enc(s, d)
            scramble(d)
            if s[0] == "r" and any(hasattr(m, n) for n in ["zz", "zz_model"] + [f[0] + x for f in s[1] for x in ("_modes", "_mode")]):
                dict_ = ["odd"]     # a record has no attributes but its fields and their models
        elif op == "copy":
            m, s = self.nodes[i["n"] - 1]
            n = self.reg(copy.deepcopy(m), s)
            dict_ = enc(s, self.nodes[n - 1][0].to_dict_value())
        elif op == "dict":
            m, s = self.nodes[i["n"] - 1]
            d = m.to_dict_value()
            dict_ = enc(s, d)
            scramble(d)
        elif op == "has":
            m, s = self.nodes[i["n"] - 1]
            x = p2v(s[1][1], i["x"]) if s[1][0] == "f" else self.nodes[i["x"] - 1][0]
            own = self.owner(m)
            dict_ = ["v", int(x in (getattr(*own) if own else m.items))]
        elif op == "close":
            self.nodes[i["n"] - 1][0].close()
            self.closed.add(i["n"])
        elif op == "set":
            m, s = self.nodes[i["n"] - 1]
            self.set(m, s, i["x"], i.get("via", 0))
        elif op in ("ins", "insset"):
            m, s = self.nodes[i["n"] - 1]
            x = p2v(s[1][1], i["x"]) if s[1][0] == "f" else self.nodes[i["x"] - 1][0]
            if op == "insset":
                f, fs = self.nodes[i["f"] - 1]
                self.when = ((i["n"], "ins"), lambda: self.set(f, fs, i["y"], 0))
            own = self.owner(m) if i.get("via") else None
            if own:
                seq = getattr(*own)
                if i["i"] == len(seq):
                    seq.append(x)
                else:
                    seq.insert(i["i"] - len(seq) if i.get("neg") else i["i"], x)
            elif i["i"] == len(m.items) and i.get("app"):
                m.append_item(x)
            else:
                m.insert_item(i["i"], x)
        elif op in ("rem", "remset"):
            m, s = self.nodes[i["n"] - 1]
            if op == "remset":
                f, fs = self.nodes[i["f"] - 1]
                self.when = ((i["n"], "rem"), lambda: self.set(f, fs, i["y"], 0))
            own = self.owner(m) if i.get("via") else None
            if own:
                seq = getattr(*own)
                if i.get("neg"):
                    seq.pop(i["i"] - len(seq))
                else:
                    del seq[i["i"]]
            else:
                m.remove_item(i["i"])
        elif op == "clear":
            m, s = self.nodes[i["n"] - 1]
            own = self.owner(m) if i.get("via") else None
            if own:
                getattr(*own).clear()
            else:
                m.clear_items()
        elif op == "read":
            m, s = self.nodes[i["n"] - 1]
            v = dec(s, i["val"])
            if i.get("via"):
                m.copy_from(SM.build_model(sm_schema(s), value=v))
            else:
                m.from_dict_value(v)
                scramble(v)
            dict_ = enc(s, m.to_dict_value())
        if op in ("set", "ins", "rem"):
            seen = all(self.nodes[k - 1][0].to_dict_value() == d for k, d in self.seen)
        else:
            seen = True
        nodes = self.look()
        self.attach()
        evs = self.evs
        if op not in ("clear", "read"):
            evs = sorted(evs, key=lambda e: (e[0] * 1000 + {"mc": 0, "pc": 100, "ins": 200, "rem": 300}[e[1]] + e[3] * 10 + e[4]))
        return {"nodes": nodes, "evs": evs, "seen": seen, "dict": dict_}

    def set(self, m, s, x, via):
        own = self.owner(m) if not via else None
        if own:
            setattr(own[0], own[1], p2v(s[1], x))
        else:
            m.value = p2v(s[1], x)

    def owner(self, m):
        for x, s in self.nodes:
            if s[0] == "r":
                for n, _, _ in s[1]:
                    if getattr(x, n + "_model") is m:
                        return x, n
        return None

    # ------------------------------------------------------------ random histories
    def gen(self, rng):
        for _ in range(30):
            r = self.gen1(rng)
            if r:
                return r
        return None

    def prim(self, rng, t, none=True):
        return rng.choice(([-1] if none else []) + [0, 1] + ([] if t == "boolean" else [0, 1, 2, 3]))

    def contained(self):
        r = set()
        for k, (m, s) in enumerate(self.nodes):
            if s[0] == "r":
                r |= {self.find(getattr(m, n + "_model")) for n, _, _ in s[1]}
            elif s[0] == "a" and s[1][0] != "f":
                r |= {self.find(x) for x in m.items}
        return r

    def below(self, k):
        m, s = self.nodes[k - 1]
        r = {k}
        if s[0] == "r":
            for n, _, _ in s[1]:
                r |= self.below(self.find(getattr(m, n + "_model")))
        elif s[0] == "a" and s[1][0] != "f":
            for x in m.items:
                r |= self.below(self.find(x))
        return r

    def gen1(self, rng):
        if not self.nodes:
            return {"op": "build", "schema": rng.choice(self.cfg["schemas"]), "val": ["n"], "style": rng.randrange(2)}
        op = rng.choices(["build", "copy", "dict", "set", "ins", "insset", "rem", "remset", "clear", "read", "close", "has"], self.cfg["weights"])[0]
        ids = range(1, len(self.nodes) + 1)
        kind = lambda *ks: [k for k in ids if self.nodes[k - 1][1][0] in ks]
        if op == "build":
            if len(self.nodes) > self.limit:
                return None
            if rng.random() < 0.6:  # an item for some array
                a = [k for k in kind("a") if self.nodes[k - 1][1][1][0] != "f"]
                if not a:
                    return None
                s = self.nodes[rng.choice(a) - 1][1][1]
            else:
                s = rng.choice(self.cfg["schemas"])
            return {"op": op, "schema": s, "val": rnd_value(rng, s, False, self.size), "style": rng.randrange(2)}
        if op == "copy":
            c = [k for k in kind("r", "a") if self.complete(k)]
            return {"op": op, "n": rng.choice(c)} if c and len(self.nodes) <= self.limit else None
        if op == "dict":
            return {"op": op, "n": rng.choice(ids)}
        if op == "set":
            c = kind("f")
            if not c:
                return None
            k = rng.choice(c)
            return {"op": op, "n": k, "x": self.prim(rng, self.nodes[k - 1][1][1]), "via": rng.randrange(2)}
        c = [k for k in kind("a", "r") if (op in ("read", "close") or self.nodes[k - 1][1][0] == "a")
             and (op == "has" or k not in self.closed if op != "read" else not self.below(k) & self.closed & set(kind("a")))]
        if not c:
            return None
        k = rng.choice(c)
        m, s = self.nodes[k - 1]
        if op == "close":
            return {"op": op, "n": k}
        if op == "has":
            xs = [j for j in ids if self.nodes[j - 1][1] == s[1]]
            if s[1][0] == "f":
                return {"op": op, "n": k, "x": self.prim(rng, s[1][1], False)}
            return {"op": op, "n": k, "x": rng.choice(xs)} if xs else None
        if op == "clear":
            return {"op": op, "n": k, "via": rng.randrange(2)}
        if op == "read":
            if len(self.nodes) > self.limit:
                return None
            if s[0] == "r" and rng.random() < 0.4:
                return {"op": op, "n": k, "val": rnd_part(rng, s, self.size), "via": 0}
            v = rnd_value(rng, s, True, self.size)
            return {"op": op, "n": k, "val": v, "via": rng.randrange(2)}
        if op in ("ins", "insset"):
            n = len(m.items)
            if n >= self.most:
                return None
            r = {"op": op, "n": k, "i": rng.randint(0, n), "via": rng.randrange(2), "app": rng.randrange(2), "neg": rng.randrange(2)}
            if s[1][0] == "f":
                if op == "insset":
                    return None
                r["x"] = self.prim(rng, s[1][1], False)
                return r
            used = self.contained()
            c = [j for j in ids if self.nodes[j - 1][1] == s[1] and j not in used and k not in self.below(j)]
            if not c:
                return None
            r["x"] = rng.choice(c)
        else:
            if not m.items:
                return None
            r = {"op": op, "n": k, "i": rng.randrange(len(m.items)), "via": rng.randrange(2), "neg": rng.randrange(2)}
            if op == "rem":
                return r
            if s[1][0] == "f":
                return None
        if op in ("insset", "remset"):
            x = r["x"] if op == "insset" else self.find(m.items[r["i"]])
            f = [j for j in self.below(x) if self.nodes[j - 1][1][0] == "f"]
            if not f:
                return None
            r["f"] = rng.choice(sorted(f))
            r["y"] = self.prim(rng, self.nodes[r["f"] - 1][1][1])
        return r

    def complete(self, k):
        return all(self.nodes[j - 1][0].value is not None for j in self.below(k) if self.nodes[j - 1][1][0] == "f")


def rnd_value(rng, s, complete, size=4):
    if s[0] == "f":
        return ["v", rng.choice([0, 1] + ([] if s[1] == "boolean" else [2, 3]))] if complete or rng.random() < 0.7 else ["n"]
    if s[0] == "r":
        r = [[n, rnd_value(rng, x, complete, size)] for n, x, _ in s[1]]
        return ["r", [p for p in r if p[1][0] != "n"]]
    if not complete and rng.random() < 0.3:
        return ["n"]
    return ["a", [rnd_item(rng, s[1], complete, 4) for _ in range(rng.randrange(size))]]


def rnd_part(rng, s, size=4):
    """some of the fields"""
    if s[0] == "r":
        return ["r", [[n, rnd_part(rng, x, size)] for n, x, _ in s[1] if rng.random() < 0.5]]
    return rnd_value(rng, s, True, size)


def rnd_item(rng, s, complete, size=4):
    v = rnd_value(rng, s, complete or s[0] == "f", size)
    return v if v[0] != "n" else ["a", []]


def rnd_schema(rng, depth, kind=None):
    k = kind or rng.choice(["f", "f", "r", "a"] if depth else ["f"])
    if k == "f":
        return ["f", rng.choice(sorted(TYPES))]
    if k == "a":
        return ["a", rnd_schema(rng, depth - 1)]
    fields = []
    for n in ["x", "y", "aa"][:rng.choice([1, 2, 2, 3])]:
        s = rnd_schema(rng, depth - 1)
        d = ["n"]
        flat = s[0] == "f" or s[0] == "a" or all(f[1][0] != "r" for f in s[1])
        if rng.random() < 0.5 and flat:
            d = rnd_value(rng, s, s[0] == "f")
        fields.append([n, s, d])
    return ["r", fields]


def rnd_nested(rng, depth):
    if depth == 0:
        return rnd_schema(rng, 0)
    if depth % 2 and rng.random() < 0.7:
        return ["a", rnd_nested(rng, depth - 1)]
    return ["r", [["x", rnd_schema(rng, 0), ["n"]], ["y", rnd_nested(rng, depth - 1), ["n"]]]]


def rec(p):
    api.quiet()
    rng = random.Random(p["seed"])
    cfgs = [{"schemas": [rnd_schema(rng, rng.choice([2, 3]), "r"), rnd_schema(rng, 2, rng.choice("ra"))], "weights": p["weights"], "big": False} for _ in range(p["traces"])]
    for c in cfgs[5::20]:      # long arrays, of which one has plain values and the other has records
        c.update(big=True, schemas=[["r", [["x", ["a", rnd_schema(rng, 0)], ["n"]], ["y", ["a", rnd_schema(rng, 1, "r")], ["n"]]]], ["a", rnd_schema(rng, 1, rng.choice("ra"))]])
    for c in cfgs[7::40]:      # records in records, and arrays in arrays
        c.update(schemas=[rnd_nested(rng, 6), rnd_nested(rng, 5)])
    r = api.record(D, cfgs, p["seed"], p["traces"], p["length"])
    for t in r:
        t["cfg"] = {"n": 0}
    return r


def rep(p):
    api.quiet()
    root = [{"k": "r", "names": ["x", "a"], "kids": [2, 3], "open": True}, {"k": "f", "v": 1}, {"k": "a", "prim": False, "items": [], "open": True}]
    return [api.replay(D, {"mc": True}, p["edges"], root, seed=p["seed"])]
