from nion.utils import Selection
from vf import api

STYLES = {"none": Selection.Style.none, "single": Selection.Style.single, "single_or_none": Selection.Style.single_or_none,
          "multiple": Selection.Style.multiple}


class D(api.Driver):
    N = 8

    def __init__(self, cfg):
        self.s = Selection.IndexedSelection(STYLES[cfg["style"]])
        self.style = cfg["style"]
        self.n = cfg.get("n", 8)
        self.fired = []
        self.listener = self.s.changed_event.listen(lambda: self.fired.append(sorted(self.s.indexes)))

    def equal(self, sel, anchor):
        def like(sel, anchor):
            o = Selection.IndexedSelection()
            o.set_multiple(sel)
            o.anchor_index = anchor
            return self.s == o, self.s != o
        other = [like(sel | {77}, anchor), like(sel, 77), (self.s == None, self.s != None), (self.s == sel, self.s != sel)]
        return like(sel, anchor) == (True, False) and all(x == (False, True) for x in other)

    def step(self, i):
        s = self.s
        self.fired.clear()
        op = i["op"]
        if op == "clear":
            r = s.clear()
        elif op == "add_range":
            r = s.add_range(range(i["a"], i["b"]))
        elif op == "set_multiple":
            given = set(i["s"])
            r = s.set_multiple(given)
            if given != set(i["s"]):
                raise ValueError("the argument was changed")
            given.add(79)       # the argument is the caller's own
        else:
            r = getattr(s, op)(i["i"])
        same = self.equal(set(s.indexes), s.anchor_index)
        a, c = s.anchor_index, s.current_index
        return {"sel": sorted(s.indexes), "anchor": -1 if a is None else a, "cur": -1 if c is None else c, "has": s.has_selection,
                "contains": [k for k in range(0, 40) if s.contains(k)], "ordered": list(s.ordered_indexes), "fired": min(len(self.fired), 1) if op == "add_range" else len(self.fired),
                "same": same,
                "seen": self.fired[-1] if self.fired else []}

    def gen(self, rng):
        op = rng.choice(["set", "add", "add", "add", "remove", "remove", "toggle", "toggle", "extend", "extend", "insert_index", "remove_index",
                         "clear", "add_range", "set_multiple"])
        i = rng.randrange(self.n)
        if max(self.s.indexes, default=0) > 30:
            op = "clear"
        if op == "remove":
            sel = sorted(self.s.indexes)
            if self.style in ("multiple", "single_or_none"):
                if not sel:
                    op = "toggle"
                else:
                    i = rng.choice(sel)
        if op == "clear":
            return {"op": op}
        if op == "add_range":
            return {"op": op, "a": i, "b": rng.randrange(self.n + 1)}
        if op == "set_multiple":
            return {"op": op, "s": sorted(rng.sample(range(self.n), rng.choice([0, 1, 1, 2, 3, 4])))}
        return {"op": op, "i": i}


def rec(p):
    api.quiet()
    return api.record(D, [{"style": s, "n": p["n"]} for s in ("multiple", "single", "multiple", "single_or_none", "none", "multiple")],
                      p["seed"], p["traces"], p["length"])


def rep(p):
    api.quiet()
    res = []
    for s in STYLES:
        res.append(api.replay(D, {"style": s}, p["edges"], [s, [], -1], seed=p["seed"]))
    return res
