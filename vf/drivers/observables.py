"""Observable objects (spec/Observables.tla)."""
from nion.utils import ListModel, Model, Observable, StructuredModel
from vf import api

NOTIFY = {"property_changed": "notify_property_changed", "item_set": "notify_set_item", "item_cleared": "notify_clear_item", "item_inserted": "notify_insert_item",
          "item_removed": "notify_remove_item", "item_added": "notify_add_item", "item_discarded": "notify_discard_item",
          "item_content_changed": "notify_item_content_changed"}
ARITY = {"property_changed": 1, "item_set": 2, "item_cleared": 1, "item_inserted": 3, "item_removed": 3, "item_added": 2, "item_discarded": 2, "item_content_changed": 3}


class Thing(Observable.Observable):
    pass


MAKE = [Observable.Observable, Thing, Model.PropertyModel, lambda: ListModel.ListModel("a"),
        lambda: StructuredModel.build_model(StructuredModel.define_record("R", [StructuredModel.define_field("a", StructuredModel.INT)])),
        lambda: ListModel.FilteredListModel(items_key="a")]


# what keys stand for, others for themselves
KEYS = {"(none)": None, "(zero)": 0, "(empty)": "", "(tuple)": (1, "a"), "(big)": 10 ** 20}


def key_name(key):
    return next((n for n, k in KEYS.items() if type(k) is type(key) and k == key), key if isinstance(key, str) else "(other)")


def index(i):
    return i if type(i) is int else -99


class Value:
    """compared by identity"""


class D(api.Driver):
    def __init__(self, cfg):
        self.objs = [MAKE[k]() for k in cfg["objs"]]
        self.max = cfg.get("max", 8)
        self.ls = []
        self.live = []
        self.calls = []
        self.values = [0, 1, None, "", Value(), [], 0.0]

    def number(self, a):
        return next((k for k, v in enumerate(self.values) if v is a), -1)

    def step(self, i):
        self.calls = []
        if i["op"] == "listen":
            n = len(self.ls) + 1

            def heard(*args):
                self.calls.append([n, [key_name(args[0])] + [self.number(a) for a in args[1:2]] + [index(a) for a in args[2:]]])
            self.ls.append(getattr(self.objs[i["o"] - 1], i["k"] + "_event").listen(heard))
            self.live.append(n)
        elif i["op"] == "close":
            self.ls[i["l"] - 1].close()
            self.live.remove(i["l"])
        else:
            getattr(self.objs[i["o"] - 1], NOTIFY[i["k"]])(*[KEYS.get(i["key"], i["key"]), self.values[i["x"]], i["i"]][:ARITY[i["k"]]])
        return {"calls": self.calls}

    def gen(self, rng):
        op = rng.choice(["listen", "listen", "notify", "notify", "notify", "close"])
        o = rng.randrange(len(self.objs)) + 1
        k = rng.choice(sorted(NOTIFY))
        if op == "close" and self.live:
            return {"op": op, "l": rng.choice(self.live)}
        if op == "listen" and len(self.live) < self.max:
            return {"op": op, "o": o, "k": k}
        return {"op": "notify", "o": o, "k": k, "key": rng.choice(["a", "b", "items", "value"] + sorted(KEYS)), "x": rng.randrange(len(self.values)), "i": rng.choice([0, 0, 1, 2, -1, 40, 1000])}


def rec(p):
    api.quiet()
    cfgs = [{"objs": o} for o in ([0, 1], [1, 2, 0], [3, 0, 2], [4, 5, 1], [0, 0, 0], [2, 2, 5], [3, 3, 4])]
    return api.record(D, cfgs, p["seed"], p["traces"], p["length"])


def rep(p):
    api.quiet()
    return [api.replay(D, {"objs": p["objs"]}, p["edges"], [], seed=p["seed"])]
