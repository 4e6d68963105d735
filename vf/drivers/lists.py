"""Histories of list models and of the lists derived from them (see spec/Lists.tla)."""
import random
from nion.utils import Event
from nion.utils import ListModel
from nion.utils import Selection
from vf import api

NPARENT = 9
NITEM = 30


class Parent(ListModel.ListModel):
    def __init__(self, vid, f, s):
        super().__init__("children")
        self.vid = vid
        self.f = f
        self.s = s
        self.item_changed_event = Event.Event()

    def __bool__(self):     # items may be false
        return self.vid % 4 != 1


class Item:
    def __init__(self, vid, f, s):
        self.vid = vid
        self.f = f
        self.s = s
        self.item_changed_event = Event.Event()

    def __bool__(self):
        return self.vid % 4 != 1


class Mute:
    """An item which does not announce changes has no item_changed_event; it never changes."""
    def __init__(self, vid, f, s):
        self.vid = vid
        self.f = f
        self.s = s


class Val:
    def __init__(self, vid, base):
        self.vid = vid
        self.base = base

    @property
    def f(self):
        return self.base.f

    @property
    def s(self):
        return self.base.s

    @property
    def item_changed_event(self):
        return self.base.item_changed_event

    def __bool__(self):
        return self.vid // 100 % 3 != 1


class EqVal(Val):
    """A mapped value which is equal to others."""
    def __eq__(self, other):
        return isinstance(other, EqVal) and self.vid // 100 % 2 == other.vid // 100 % 2

    def __hash__(self):
        return self.vid // 100 % 2


FILTERS = {0: lambda: ListModel.Filter(True), 1: lambda: ListModel.EqFilter("f", 1), 2: lambda: ListModel.NotEqFilter("f", 1),
           3: lambda: ListModel.PredicateFilter(lambda x: x.s > 1), 4: lambda: ListModel.Filter(False),
           5: lambda: ListModel.PredicateFilter(lambda x: x.f == x.s)}
SORTS = {0: None, 1: lambda x: x.s, 2: lambda x: x.f, 3: lambda x: -x.s, 4: lambda x: (x.f, x.s), 5: lambda x: 7}

TOPOLOGIES = {
    "F": ["list", "list", "filtered"],
    "FF": ["list", "list", "filtered", ("filtered", 3)],
    "FFF": ["list", "filtered", ("filtered", 2), ("filtered", 3)],
    "M": ["list", "list", "mapped"],
    "MM": ["list", "list", "mapped", ("mapped", 3), ("identity", 3)],
    "FM": ["list", "list", "filtered", ("mapped", 3)],
    "MF": ["list", "list", "mapped", ("filtered", 3)],
    "FMF": ["list", "filtered", ("mapped", 2), ("filtered", 3), ("mapped", 4)],
    "L": ["list", "list", "flattened"],
    "FL": ["list", "list", "filtered", ("flattened", 3)],
    "LF": ["list", "list", "flattened", ("filtered", 3)],
    "LM": ["list", "list", "flattened", ("mapped", 3)],
    "FLF": ["list", "filtered", ("flattened", 2), ("filtered", 3), ("mapped", 4)],
    "F+F": ["list", "filtered", "filtered", ("mapped", 2), ("filtered", 3)],
}
# lists without filtered or flattened ones of mapped ones, or of plain ones: equal values, and items more than once
EQUAL = {"M", "MM", "FM", "LM"}
DUPLICATES = {"M", "MM"}


class D(api.Driver):
    def __init__(self, cfg):
        self.cfg = cfg
        p = cfg["p"]
        rng = random.Random(p["seed"])
        self.rng = rng
        big = p.get("big")
        self.burst = []
        self.np, self.ni, self.most, self.deepest, self.attrs = (28, 95, 24, 6, (3, 12)) if big else (9, 30, 8, 2, (3, 4))
        self.objs = {}
        for k in range(1, self.ni + 1):
            cls = Parent if k <= self.np else Item if k % 5 else Mute
            self.objs[k] = cls(k, rng.randrange(self.attrs[0]), rng.randrange(self.attrs[1]))
        self.serial = 0
        self.notes = []
        self.observers = []
        self.sel = []      # [selection, node, live]
        self.closed = set()
        self.trackers = {}
        self.exits = 0
        self.muted = False
        topo = TOPOLOGIES[p["topo"]]
        self.kind = []
        self.keys = []
        self.src = []
        self.nodes = []
        self.flat = []     # whether the node holds children (or values of children)
        self.level = []
        self.kids_free = list(range(self.np + 1, self.ni + 1))
        kids = {k: [] for k in range(1, self.np + 1)}
        self.kids = kids
        early = p["early"]
        for k in range(rng.choice([10, 25, 40] if big else [0, 2, 4])):
            x = self.kids_free.pop(rng.randrange(len(self.kids_free)))
            par = rng.randint(1, 5 if big else self.np)
            kids[par].append(x)
            self.objs[par].append_item(self.objs[x])
        for t in topo:
            k, s = (t, 0 if t == "list" else 1) if isinstance(t, str) else t
            n = len(self.kind) + 1
            mkey = self.keys[s - 1] if s else None
            flat = k == "flattened" or bool(s and self.flat[s - 1])
            if k != "list" and p["late"] and rng.random() < 0.5:
                s = 0
            self.add(n, k, s, mkey, flat)
            if early:
                self.observe(n)
        if not early:
            for n in range(len(self.kind), 0, -1):
                self.observe(n)
        flt, srt, rev = [0] * len(self.kind), [0] * len(self.kind), [False] * len(self.kind)
        if p["preset"]:
            for n in self.derived("filtered"):
                flt[n - 1], srt[n - 1], rev[n - 1] = rng.choice([0, 1, 2, 2, 3]), rng.choice([0, 1, 1, 2, 3, 4]), rng.random() < 0.5
                with self.nodes[n - 1].changes():
                    self.nodes[n - 1].filter = FILTERS[flt[n - 1]]()
                    self.nodes[n - 1].sort_key = SORTS[srt[n - 1]]
                    self.nodes[n - 1].sort_reverse = rev[n - 1]
        cfg.update(sels=[s[1] for s in self.sel], flt=flt, srt=srt, rev=rev, kind=self.kind, keys=self.keys, src=list(self.src), items=self.all_items(),
                   attr=[[self.objs[k].f, self.objs[k].s] if k in self.objs else [0, 0] for k in range(1, self.ni + 1)],
                   kids=[list(kids[k]) for k in range(1, self.np + 1)])
        self.notes = []
        self.first = True

    # ---- set up
    def add(self, n, kind, s, mkey, flat):
        key = ["items", "alphas", "betas", "gammas", "deltas"][(n + self.cfg["p"]["seed"]) % 5]
        rng = self.rng
        c = self.nodes[s - 1] if s else None
        if kind == "list":
            ids = rng.sample(range(1, self.np + 1), rng.choice([9, 14, 20, 24] if self.most > 9 else [0, 0, 3, 6]))
            node = ListModel.ListModel(key if key != "items" else None, [self.objs[i] for i in ids])
        given = {}
        if kind != "list" and self.cfg["p"].get("given") and rng.random() < 0.3:
            given = {"selection": Selection.IndexedSelection()}     # a selection passed to the list, not made by it
            self.sel.append([given["selection"], n, True])
        if kind == "filtered":
            if self.cfg["p"].get("samekey"):
                key = mkey
                node = ListModel.FilteredListModel(container=c, items_key=key, **given)
            else:
                node = ListModel.FilteredListModel(container=c, master_items_key=mkey, items_key=key, **given)
        elif kind == "mapped":
            node = ListModel.MappedListModel(container=c, master_items_key=mkey, items_key=key, map_fn=self.map_fn(n), unmap_fn=self.unmap_fn(n), **given)
        elif kind == "identity":
            node = ListModel.MappedListModel(container=c, master_items_key=mkey, items_key=key, **given)
        elif kind == "flattened":
            node = ListModel.FlattenedListModel(container=c, master_items_key=mkey, child_items_key="children", items_key=key, **given)
        self.kind.append(kind)
        self.keys.append(key)
        self.src.append(s)
        self.nodes.append(node)
        self.level.append(0)
        self.flat.append(flat)

    def map_fn(self, n):
        def f(x):
            self.serial += 1
            v = x if self.cfg["p"].get("same") else (EqVal if self.cfg["p"].get("topo") in EQUAL else Val)(self.serial * 100 + x.vid % 100, x.base if isinstance(x, Val) else x)
            self.notes.append({"n": n, "e": "map", "x": v.vid, "i": x.vid, "key": "", "items": []})
            return v
        return f

    def unmap_fn(self, n):
        def f(v):
            self.notes.append({"n": n, "e": "unmap", "x": v.vid, "i": 0, "key": "", "items": []})
        return f

    def ids(self, seq):
        return [x.vid for x in seq]

    def observe(self, n):
        node = self.nodes[n - 1]

        def ins(key, value, index):
            if not (self.muted and self.kind[n - 1] == "list"):
                self.notes.append({"n": n, "e": "ins", "x": value.vid, "i": index, "key": key, "items": self.ids(node.items)})

        def rem(key, value, index):
            if not (self.muted and self.kind[n - 1] == "list"):
                self.notes.append({"n": n, "e": "rem", "x": value.vid, "i": index, "key": key, "items": self.ids(node.items)})

        def mark(e):
            def f(key):
                self.notes.append({"n": n, "e": e, "x": 0, "i": 0, "key": key, "items": []})
            return f
        self.observers.append(node.item_inserted_event.listen(ins))
        self.observers.append(node.item_removed_event.listen(rem))
        if self.kind[n - 1] in ("filtered", "mapped", "identity"):
            self.observers.append(node.begin_changes_event.listen(mark("begin")))
            self.observers.append(node.end_changes_event.listen(mark("end")))

    def all_items(self):
        r = []
        for n, node in enumerate(self.nodes):
            a = self.ids(node.items)
            if self.keys[n] != "items" and a != self.ids(getattr(node, self.keys[n])):
                a = [-5]
            if self.kind[n] != "list" and node.container is not (self.nodes[self.src[n] - 1] if self.src[n] else None):
                a = [-6]
            r.append(a)
        return r

    def sources_for(self, n):
        """compatible sources: same key, parents for a flattened list, nothing that changes what downstream holds"""
        res = [0] if self.src[n - 1] else []
        first_key = self.orig_key(n)
        for m in range(1, n):
            if m in self.closed or m == self.src[n - 1] or self.keys[m - 1] != first_key:
                continue
            if self.kind[n - 1] == "flattened" and (self.flat[m - 1] or self.has_values(m)):
                continue
            if self.kind[n - 1] != "flattened" and self.flat[n - 1] != self.flat[m - 1]:
                continue
            res.append(m)
        return res

    def orig_key(self, n):
        return self.mkeys()[n - 1]

    def mkeys(self):
        topo = TOPOLOGIES[self.cfg["p"]["topo"]]
        return [None if t == "list" else self.keys[(t[1] if not isinstance(t, str) else 1) - 1] for t in topo]

    def has_values(self, m):
        while m:
            if self.kind[m - 1] == "mapped":
                return True
            m = self.src[m - 1]
        return False

    # ---- steps
    def step(self, i):
        self.notes = []
        op = i["op"]
        node = self.nodes[i["n"] - 1] if i.get("n") else None
        if op == "insert":
            node.insert_item(i["i"], self.objs[i["x"]])
        elif op == "append":
            node.append_item(self.objs[i["x"]])
        elif op == "remove":
            node.remove_item(i["i"])
        elif op == "clear":
            node.clear_items()
        elif op == "attr":
            o = self.objs[i["x"]]
            o.f, o.s = i["f"], i["s"]
            o.item_changed_event.fire()
        elif op == "touch":
            for x, f, s in i["c"]:
                o = self.objs[x]
                o.f, o.s = f, s
            for k, nd in enumerate(self.nodes):
                if self.kind[k] == "filtered" and k + 1 not in self.closed:
                    nd.mark_changed()
        elif op == "kid+":
            self.kids[i["p"]].insert(i["i"], i["x"])
            self.kids_free.remove(i["x"])
            self.objs[i["p"]].insert_item(i["i"], self.objs[i["x"]])
        elif op == "kid-":
            x = self.kids[i["p"]].pop(i["i"])
            self.kids_free.append(x)
            self.objs[i["p"]].remove_item(i["i"])
        elif op == "filter":
            node.filter = FILTERS[i["k"]]()
        elif op == "sort":
            node.sort_key = SORTS[i["k"]]
        elif op == "reverse":
            node.sort_reverse = i["b"]
        elif op == "begin":
            self.level[i["n"] - 1] += 1
            if i["c"]:
                t = node.changes()
                self.trackers.setdefault(i["n"], []).append(t)
                t.__enter__()
            else:
                self.trackers.setdefault(i["n"], []).append(None)
                node.begin_change()
        elif op == "end":
            self.level[i["n"] - 1] -= 1
            t = self.trackers[i["n"]].pop()
            if t:
                self.exits += 1
                e = ValueError() if self.exits % 2 else None      # every other set of changes is left by an exception
                if t.__exit__(type(e) if e else None, e, None) and e:
                    raise AssertionError("the exception was lost")
            else:
                node.end_change()
        elif op == "source":
            self.src[i["n"] - 1] = i["m"]
            node.container = self.nodes[i["m"] - 1] if i["m"] else None
        elif op == "close":
            self.src[i["n"] - 1] = 0
            self.closed.add(i["n"])
            node.close()
        elif op == "mark":
            node.mark_changed()
        elif op == "noise":
            self.muted = True
            o = self.objs[i["p"]] if i["p"] else node
            (o.notify_insert_item if i["b"] else o.notify_remove_item)("others", self.objs[i["x"]], 0)
            self.muted = False
        elif op == "make":
            self.sel.append([node.make_selection(), i["n"], True])
        elif op == "release":
            s = self.sel[i["s"] - 1]
            self.nodes[s[1] - 1].release_selection(s[0])
            s[2] = False
        elif op == "select":
            s = self.sel[i["s"] - 1][0]
            m = i["m"]
            if m == "clear":
                s.clear()
            elif m == "set_multiple":
                s.set_multiple(set(i["a"]))
            else:
                getattr(s, m)(i["a"][0])
        return {"items": self.all_items(), "notes": self.notes,
                "sel": [{"S": sorted(s[0].indexes), "a": -1 if s[0].anchor_index is None else s[0].anchor_index} for s in self.sel]}

    # ---- generation
    def gen(self, rng):
        if self.first:
            self.first = False
            return {"op": "init"}
        w = dict(self.cfg["p"]["weights"])
        if self.burst:
            return self.burst.pop()
        for _ in range(50):
            op = rng.choices(list(w), list(w.values()))[0]
            r = getattr(self, "gen_" + {"kid+": "kidp", "kid-": "kidm"}.get(op, op))(rng)
            if r is not None:
                return dict(r, op=op)
        return {"op": "mark", "n": 1} if False else None

    def lists(self):
        return [n for n in range(1, len(self.kind) + 1) if self.kind[n - 1] == "list"]

    def derived(self, *kinds):
        return [n for n in range(1, len(self.kind) + 1) if self.kind[n - 1] in kinds and n not in self.closed]

    def gen_insert(self, rng):
        n = rng.choice(self.lists())
        have = self.ids(self.nodes[n - 1].items)
        free = [x for x in range(1, self.np + 1) if x not in have or self.cfg["p"]["topo"] in DUPLICATES and not self.cfg["p"].get("same")]
        if not free or len(have) > self.most:
            return None
        return {"n": n, "i": rng.randint(0, len(have)), "x": rng.choice(free)}

    def gen_append(self, rng):
        r = self.gen_insert(rng)
        if r:
            del r["i"]
        return r

    def gen_remove(self, rng):
        n = rng.choice(self.lists())
        k = len(self.nodes[n - 1].items)
        return {"n": n, "i": rng.randrange(k)} if k else None

    def gen_clear(self, rng):
        return {"n": rng.choice(self.lists())}

    def interesting(self, rng):
        x = [v % 100 for n in range(len(self.nodes)) for v in self.ids(self.nodes[n].items)]
        x += [k for v in self.kids.values() for k in v]
        x = [k for k in x if k <= self.np or k % 5]
        return rng.choice(x) if x and rng.random() < 0.9 else rng.randint(1, self.np)

    def gen_attr(self, rng):
        x = self.interesting(rng)
        return {"x": x, "f": rng.randrange(self.attrs[0]), "s": rng.randrange(self.attrs[1])}

    def gen_touch(self, rng):
        return {"c": [[x, rng.randrange(self.attrs[0]), rng.randrange(self.attrs[1])] for x in {self.interesting(rng) for _ in range(rng.randint(1, 5))}]}

    def some_parent(self, rng):
        ps = [v for n in self.lists() for v in self.ids(self.nodes[n - 1].items)]
        return rng.choice(ps) if ps and rng.random() < 0.8 else rng.randint(1, self.np)

    def gen_kidp(self, rng):
        if not self.kids_free:
            return None
        p = self.some_parent(rng)
        return {"p": p, "i": rng.randint(0, len(self.kids[p])), "x": rng.choice(self.kids_free)}

    def gen_kidm(self, rng):
        p = self.some_parent(rng)
        return {"p": p, "i": rng.randrange(len(self.kids[p]))} if self.kids[p] else None

    def one(self, rng, *kinds):
        d = self.derived(*kinds)
        return rng.choice(d) if d else None

    def gen_filter(self, rng):
        n = self.one(rng, "filtered")
        return n and {"n": n, "k": rng.choice([0, 0, 1, 2, 3, 5, 4] if rng.random() < 0.9 else [4])}

    def gen_sort(self, rng):
        n = self.one(rng, "filtered")
        return n and {"n": n, "k": rng.choice([0, 1, 1, 2, 3, 4, 5])}

    def gen_reverse(self, rng):
        n = self.one(rng, "filtered")
        return n and {"n": n, "b": rng.random() < 0.5}

    def gen_begin(self, rng):
        n = self.one(rng, *self.cfg["p"].get("block", ["filtered", "mapped"]))
        if not n or self.level[n - 1] >= self.deepest:
            return None
        if self.cfg["p"].get("big") and rng.random() < 0.4:     # many at once
            self.burst = [{"op": "begin", "n": n, "c": rng.random() < 0.5} for _ in range(rng.randint(0, self.deepest - 1 - self.level[n - 1]))]
        return {"n": n, "c": rng.random() < 0.5}

    def gen_end(self, rng):
        d = [n for n in range(1, len(self.kind) + 1) if self.level[n - 1] > 0]
        if not d:
            return None
        n = rng.choice(d)
        if self.cfg["p"].get("big") and rng.random() < 0.5:
            self.burst = [{"op": "end", "n": n} for _ in range(rng.randint(0, self.level[n - 1] - 1))]
        return {"n": n}

    def gen_mark(self, rng):
        n = self.one(rng, "filtered", "mapped", "identity")
        return n and {"n": n}

    def calm(self):
        return not any(self.level[n - 1] for n in range(1, len(self.kind) + 1) if self.kind[n - 1] != "filtered")

    def gen_source(self, rng):
        n = self.one(rng, "filtered", "mapped", "identity", "flattened")
        if not n or not self.calm():
            return None
        c = self.sources_for(n)
        return {"n": n, "m": rng.choice(c)} if c else None

    def gen_close(self, rng):
        n = self.one(rng, "filtered", "mapped", "identity", "flattened")
        if not n or not self.calm() or self.level[n - 1]:
            return None
        return {"n": n}

    def gen_noise(self, rng):
        p = self.some_parent(rng) if rng.random() < 0.4 else 0
        return {"n": rng.choice(self.lists()), "p": p, "b": rng.random() < 0.5, "x": rng.randint(1, self.ni)}

    def gen_make(self, rng):
        if len(self.sel) >= 3:
            return None
        n = self.one(rng, "filtered", "mapped", "identity", "flattened")
        return n and {"n": n}

    def gen_release(self, rng):
        live = [k + 1 for k, s in enumerate(self.sel) if s[2]]
        return {"s": rng.choice(live)} if live else None

    def gen_select(self, rng):
        live = [k + 1 for k, s in enumerate(self.sel) if s[2]]
        if not live:
            return None
        s = rng.choice(live)
        n = len(self.nodes[self.sel[s - 1][1] - 1].items)
        if not n:
            return None
        m = rng.choice(["set", "add", "add", "add", "toggle", "extend", "set_multiple", "clear"])
        a = [rng.randrange(n)]
        o = self.sel[s - 1][0]
        if m == "extend" and o.anchor_index is not None and o.anchor_index not in o.indexes:
            m = "set"  # the anchor is not specified
        if m == "set_multiple":
            a = sorted(rng.sample(range(n), rng.randint(0, n)))
        return {"s": s, "m": m, "a": a}


def rec(p):
    api.quiet()
    cfgs = []
    k = 0
    n = p["traces"]
    topos = p["topos"]
    for k in range(n):
        cfgs.append({"p": {"topo": topos[k % len(topos)], "seed": p["seed"] * 100003 + k, "early": k % 2 == 0, "late": k % 3 == 0,
                           "samekey": k % 4 == 3, "big": p.get("big"), "same": k % 7 == 5, "given": p.get("given"), "preset": p.get("preset", k % 5 == 0), "weights": p["weights"], "block": p.get("block", ["filtered", "mapped"])}})
    res = api.record(D, cfgs, p["seed"], n, p["length"])
    for t in res:
        t["meta"] = {"topo": t["cfg"]["p"]["topo"]}
        del t["cfg"]["p"]
        for e in t["evs"]:
            e["in"].pop("c", None) if e["in"]["op"] == "begin" else None
    return res


class R(D):
    """The lists of spec/ListsGen.tla."""
    def __init__(self, cfg):
        self.cfg = {"p": {"seed": 0}}
        self.objs = {k: (Parent if k <= NPARENT else Item)(k, cfg["f"], cfg["s"]) for k in range(1, 20)}
        self.serial = 0
        self.np, self.ni = NPARENT, NITEM
        self.kids = {k: [] for k in range(1, NPARENT + 1)}
        self.kids_free = list(range(NPARENT + 1, 20))
        self.trackers, self.level, self.closed, self.sel, self.notes, self.muted = {}, [0, 0], set(), [], [], False
        l = ListModel.ListModel("a")
        if cfg["flat"]:
            m = ListModel.FlattenedListModel(container=l, master_items_key="a", child_items_key="children", items_key="b")
        else:
            m = ListModel.FilteredListModel(container=l, master_items_key="a", items_key="b")
        self.nodes, self.kind, self.keys, self.src = [l, m], ["list", "flattened" if cfg["flat"] else "filtered"], ["a", "b"], [0, 1]

    def step(self, i):
        i = dict(i)
        if i["op"] == "begin":
            i["c"] = False
        return {"items": super().step(i)["items"]}


def rep(p):
    api.quiet()
    return api.replay(R, p["cfg"], p["edges"], p["initial"], seed=p["seed"])
