"""Graphs of streams (spec/Streams.tla)."""
import asyncio
import random
from nion.utils import Event
from nion.utils import Model
from nion.utils import Observable
from nion.utils import Stream
from vf import api, explore


class Obj(Observable.Observable):
    def __init__(self, ix, v):
        super().__init__()
        self.ix = ix
        self._x = v
        self._y = 0

    @property
    def x(self):
        return None if self._x == -1 else self._x


class Repeat(Stream.AbstractStream):
    """passes on equal values, too"""
    def __init__(self, v):
        super().__init__()
        self.v = v
        self.value_stream = Event.Event()

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, v):
        self.v = v
        self.value_stream.fire(v)


def num(v):
    if v is None:
        return -1
    if isinstance(v, bool):
        return -99
    if isinstance(v, int):
        return v
    if isinstance(v, Obj):
        return v.ix
    if isinstance(v, tuple):
        r = 1
        for x in v:
            r = r * 10 + num(x) % 10
        return r
    return -99


def half(v):
    return None if v is None else num(v) // 2


def total(*vals):
    r = 0
    for v in reversed(vals):
        r = num(v) + 1 + 2 * r
    return r


class Session:
    def __init__(self, cfg, ch):
        self.cfg = cfg
        self.ch = ch
        self.log = []
        self.nodes = []      # {kind, ins, fn, refs, s, deleted}
        self.objs = [Obj(k + 1, v) for k, v in enumerate(cfg["obj"])]
        self.listeners = []
        self.private = []
        self.loop = None
        self.muted = False

    def ev(self, **kw):
        self.log.append(kw)
        if len(self.log) > 3000:
            raise api.Hang()

    def watch(self, s, rec):
        orig = s.about_to_delete

        def about_to_delete():
            rec["deleted"] += 1
            orig()
        s.about_to_delete = about_to_delete

    def make(self, kind, ins, fn, refs, v):
        inp = {"op": "make", "kind": kind, "ins": ins, "fn": fn, "refs": refs, "v": v}
        self.ev(e="op", **{"in": inp})
        node = dict(inp, deleted=0, open=True, reads=ins, objects=getattr(self, "obj_next", False))
        S = [self.nodes[i - 1]["s"] if i > 0 else self.objs[-i - 1] for i in ins]
        if kind in ("value", "repeat"):
            s = (Stream.ValueStream if kind == "value" else Repeat)(None if v == -1 else self.objs[v - 1] if node["objects"] else v)
        elif kind == "map":
            s = Stream.MapStream(S[0], half)
        elif kind == "comb":
            s = Stream.CombineLatestStream(S, total) if fn else Stream.CombineLatestStream(S)
        elif kind == "prop":
            s = Stream.PropertyChangedEventStream(S[0], "x", lambda a, b: half(a) == half(b)) if fn else Stream.PropertyChangedEventStream(S[0], "x")
        elif kind == "concat":
            def concat_fn(item):
                pool = S[1 + (num(item) - 1) % (len(S) - 1)]
                if fn:
                    m = Stream.MapStream(pool, half)
                    p = {"deleted": 0}
                    self.private.append(p)
                    self.watch(m, p)
                    return m
                return pool
            s = Stream.ConcatStream(S[0], concat_fn)
        elif kind == "model":
            s = Model.StreamValueModel(S[0])
        elif kind == "deb":
            s = Stream.DebounceStream(S[0], 0.1, self.get_loop())
        elif kind == "samp":
            s = Stream.SampleStream(S[0], 0.1, self.get_loop())
        node["s"] = s
        self.nodes.append(node)
        k = len(self.nodes)
        if kind != "model":
            self.watch(s, node)
            for _ in range(refs):
                s.add_ref()
            if self.cfg["values"] and kind not in ("deb", "samp"):
                self.listeners.append(s.value_stream.listen(lambda x, k=k: self.emitted(k, x)))
        self.end()
        return k

    def get_loop(self):
        if self.loop is None:
            self.loop = asyncio.new_event_loop()
        return self.loop

    def emitted(self, k, x):
        n = self.nodes[k - 1]
        if self.muted and self.muted(k):
            return
        self.ev(e="emit", s=k, v=num(x), held=num(n["s"].value))

    def end(self):
        vals, counts, deleted = [], [], []
        for n in self.nodes:
            if n["kind"] == "model":
                vals.append(0), counts.append(0), deleted.append(0)
                continue
            vals.append(num(n["s"].value) if n["open"] and n["kind"] not in ("deb", "samp") else 0)
            counts.append(n["s"].ref_count)
            deleted.append(n["deleted"])
        self.ev(e="end", vals=vals, counts=counts, deleted=deleted, private=sum(1 for p in self.private if not p["deleted"]),
                twice=sum(1 for p in self.private if p["deleted"] > 1))

    def op(self, **i):
        self.ev(e="op", **{"in": i})
        op = i["op"]
        n = self.nodes[i["s"] - 1] if "s" in i else None
        if op == "set":
            n["s"].value = None if i["v"] == -1 else self.objs[i["v"] - 1] if n.get("objects") else i["v"]
        elif op == "obj":
            o = self.objs[i["o"] - 1]
            o._x = i["v"]
            o.notify_property_changed("x")
        elif op == "noise":
            o = self.objs[0]
            o._y += 1
            o.notify_property_changed("y")
            o.notify_property_changed("value")
            o.notify_insert_item("x", 1, 0)
        elif op == "ref":
            n["s"].add_ref()
            n["refs"] += 1
        elif op in ("unref", "close"):
            if op == "unref":
                n["refs"] -= 1
            else:
                n["open"] = False
            dead = self.closing()
            self.muted = lambda k: k in dead   # what a stream emits when it is closed is not specified
            if op == "unref":
                n["s"].remove_ref()
            else:
                n["s"].close()
            self.muted = False
        self.end()

    def closing(self):
        dead = set()
        while True:
            more = [k + 1 for k, n in enumerate(self.nodes) if n["open"] and n["kind"] != "model" and n["refs"] == 0 and not self.users(k + 1)]
            if not more:
                return dead
            for k in more:
                self.nodes[k - 1]["open"] = False
                dead.add(k)

    def users(self, k):
        return [j + 1 for j, n in enumerate(self.nodes) if n["open"] and k in n["ins"]]

    # ------------------------------------------------------------ building and using
    def build(self):
        c = self.cfg
        for kind, ins, fn, v, objects in c["plan"]:
            self.obj_next = objects
            self.make(kind, ins, fn, 1, v)

    def options(self):
        o = []
        for k, n in enumerate(self.nodes):
            if not n["open"]:
                continue
            if n["kind"] in ("value", "repeat"):
                for v in ([1, 2, -1] if n.get("objects") else self.cfg["range"]):
                    o.append(dict(op="set", s=k + 1, v=v))
            if self.cfg["refs"]:
                if n["kind"] == "model":
                    o.append(dict(op="close", s=k + 1))
                else:
                    if n["refs"] < 2:
                        o.append(dict(op="ref", s=k + 1))
                    if n["refs"] > 0 and not (n["refs"] == 1 and any(self.nodes[d - 1]["kind"] == "concat" for d in self.users(k + 1))):
                        o.append(dict(op="unref", s=k + 1))
        if self.cfg["props"]:
            for k in range(len(self.objs)):
                for v in (-1, 2, 3):
                    o.append(dict(op="obj", o=k + 1, v=v))
            o.append(dict(op="noise"))
        return o

    def run(self):
        try:
            with api.time_limit(api.STEP_LIMIT):
                self.build()
                for _ in range(self.cfg["ops"]):
                    opts = self.options()
                    if not opts:
                        break
                    self.op(**opts[self.ch(len(opts))])
        except api.Machinery:
            raise
        except api.Hang:
            self.log.append({"e": "hang"})
        except Exception as e:
            self.log.append({"e": "exc", "what": repr(e)[:200]})
        finally:
            self.listeners = []
            if self.loop is not None:
                for t in asyncio.all_tasks(self.loop):
                    t.cancel()
                self.loop.run_until_complete(asyncio.sleep(0))
                self.loop.run_until_complete(asyncio.sleep(0))
                self.loop.close()
        return {"cfg": {"obj": self.cfg["obj"]}, "evs": self.log}


def rnd_cfg(rng, p):
    """a graph: value streams, then streams on what is there"""
    plan = []
    num_values = rng.choice([5, 6, 7]) if p.get("wide") else rng.choice([1, 2, 2])
    for _ in range(num_values):
        plan.append([rng.choice(["value", "value", "repeat"]), [], 0, rng.choice([-1, 1, 2, 3]), False])
    selectors = []
    plan.append([rng.choice(["value", "repeat"]), [], 0, rng.choice([-1, 1, 2]), True])
    objs = len(plan)
    values = [k + 1 for k in range(num_values)]
    streams = list(values)
    for _ in range(rng.choice(p["sizes"])):
        kind = rng.choice(p["kinds"])
        k = len(plan) + 1
        if kind == "map":
            plan.append(["map", [rng.choice(streams)], 0, -1, False])
        elif kind == "comb":
            ins = rng.sample(streams, min(len(streams), rng.choice([1, 2, 2, 3]) + p.get("wide", 0)))
            if rng.random() < 0.2:
                ins.insert(rng.randrange(len(ins) + 1), rng.choice(ins))   # one twice
            plan.append(["comb", ins, rng.randrange(2), -1, False])
        elif kind == "prop":
            plan.append(["prop", [rng.choice([objs, objs, -1, -2])], int(rng.random() < 0.3), -1, False])
        elif kind == "concat":
            if len(streams) < 2:
                continue
            sel = rng.choice([s for s in streams if plan[s - 1][0] in ("value", "repeat") or p.get("deep") and plan[s - 1][0] == "comb" and not plan[s - 1][2]])
            pool = [s for s in streams if s != sel]
            plan.append(["concat", [sel] + rng.sample(pool, min(len(pool), rng.choice([1, 2, 2]) + p.get("wide", 0))), rng.randrange(2), -1, False])
        else:
            plan.append([kind, [rng.choice(streams)], 0, -1, False])
            continue
        streams.append(k)
    return {"obj": [3, 4], "plan": plan, "ops": p["ops"], "values": p["values"], "refs": p["refs"], "props": "prop" in p["kinds"], "range": [-1, 1, 2, 3, 4][:p.get("range", 5)]}


def rec(p):
    api.quiet()
    res = []
    complete = []
    for q in p["exhaustive"]:
        n = 0
        done = False
        for r in explore.all_choices(lambda ch: Session(q, ch).run(), q["limit"]):
            api.flush_quiet()
            if r is None:
                done = True
            else:
                n += 1
                res.append(r)
        complete.append({"plan": q["plan"], "ops": q["ops"], "histories": n, "complete": done})
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            res.append(Session(rnd_cfg(rng, q), explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res), "complete": complete}
