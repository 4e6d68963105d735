"""Histories of one event, with listeners which use the event while they are called."""
import gc
import random
import sys
from nion.utils import Event
from vf import api, explore


class Owner:
    pass


class FalsyOwner(list):
    __hash__ = object.__hash__


class Raised(Exception):
    pass


class Session:
    def __init__(self, cfg, choice):
        self.cfg = cfg
        self.ch = choice
        self.log = []
        self.event = Event.Event(trace=True) if cfg.get("trace") else Event.Event()
        self.tokens = {}
        self.weak = {}
        self.owners = {}
        self.n_listeners = 0
        self.n_owners = 0
        self.depth = 0
        self.ops = cfg["ops"]
        self.fires = 0
        self.over = False
        self.n_raised = 0
        self.raised = []

    def ev(self, **kw):
        self.log.append(kw)
        if len(self.log) > self.cfg.get("max_log", 400):
            raise api.Hang()

    def fn(self, id):
        def listener(*args, **kwargs):
            self.ev(e="call", id=id, arg=repr(args) + repr(sorted(kwargs.items())))
            rets = self.cfg["rets"]
            if self.depth < self.cfg["depth"]:
                self.depth += 1
                self.some_ops(self.cfg["inner"])
                self.depth -= 1
            v = rets[self.ch(len(rets))]
            self.ev(e="ret", v=v)
            if v == "raise":
                self.n_raised += 1
                self.raised[-1].append("listener failure %d." % self.n_raised)
                raise Raised(self.raised[-1][-1])
            return {"true": [True, 1, "x"], "false": [False, None, 0]}[v][id % 3]
        return listener

    def some_ops(self, most):
        for _ in range(most):
            opts = self.options()
            k = self.ch(len(opts) + 1)
            if k == 0:
                return
            self.do(*opts[k - 1])

    def options(self):
        if self.ops <= 0:
            return []
        c = self.cfg
        o = []
        if self.fires < c["fires"] and self.depth < c["depth"]:
            for kind in c["kinds"]:
                o.append(("fire", kind))
        if self.n_listeners < c["listeners"]:
            o.append(("listen", 0))
            if c.get("owners"):
                for k in sorted(self.owners):
                    o.append(("listen", k))
        if c.get("owners"):
            if self.n_owners < c["owners"]:
                o.append(("owner",))
            for k in sorted(self.owners):
                o.append(("drop", k))
        for id in sorted(self.tokens):
            o.append(("close", id))
            if c.get("release"):
                o.append(("release", id))
        return o

    def do(self, op, a=None):
        self.ops -= 1
        if op == "fire":
            self.fire(a)
        elif op == "listen":
            self.n_listeners += 1
            id = self.n_listeners
            import weakref
            if a:
                tok = self.event.listen(self.fn(id), owner=self.owners[a])
            else:
                tok = self.event.listen(self.fn(id))
            self.tokens[id] = tok
            self.weak[id] = weakref.ref(tok)
            del tok
            self.ev(e="listen", id=id, o=a or 0, callable=True)
        elif op == "owner":
            self.n_owners += 1
            self.owners[self.n_owners] = FalsyOwner() if self.n_owners % 2 == 0 else Owner()
            self.ev(e="owner", o=self.n_owners)
        elif op == "drop":
            del self.owners[a]
            gc.collect()
            self.ev(e="drop", o=a)
        elif op == "close":
            if a % 3 == 2:
                lost = a % 2 == 1
                try:
                    with self.tokens[a] as x:
                        if x is not self.tokens[a]:
                            self.ev(e="exc", what="with")
                        if lost:
                            raise api.Gone()
                except api.Gone:
                    lost = False
                if lost:
                    self.ev(e="exc", what="the exception was lost")
                del x
            else:
                self.tokens[a].close()
            self.ev(e="close", id=a)
        elif op == "release":
            del self.tokens[a]
            gc.collect()
            self.ev(e="release", id=a)

    def fire(self, kind):
        self.fires += 1
        n = self.fires
        args = [(), (n,), (n, None), ("a", [n]), (n, n, n), tuple(range(n, n + 9))][n % 6]
        kwargs = [{}, {"k": n}, {}, {"x": None, "args": 3}, {"p%d" % k: k for k in range(9)}, {}, {"fire": 1, "listener": n}][n % 7]
        self.ev(e="fire", kind=kind, arg=repr(args) + repr(sorted(kwargs.items())))
        self.depth += 1
        self.raised.append([])
        r = getattr(self.event, {"fire": "fire", "any": "fire_any", "all": "fire_all"}[kind])(*args, **kwargs)
        self.depth -= 1
        out = sys.stderr.getvalue()
        self.ev(e="end", result=repr(r) if kind != "fire" else "", reported=all(x in out for x in self.raised.pop()))

    def look(self):
        ids = []
        for x in self.event.listeners:
            ids.append(next((i for i, w in self.weak.items() if w() is x and x is not None), 0))
        x = None
        self.ev(e="look", count=self.event.listener_count, ids=ids)

    def run(self):
        try:
            with api.time_limit(api.STEP_LIMIT):
                while self.ops > 0:
                    opts = self.options()
                    if not opts:
                        break
                    k = self.ch(len(opts))
                    self.do(*opts[k])
                    if self.cfg.get("look"):
                        self.look()
                if self.fires < self.cfg["fires"] + 1:
                    self.fire(self.cfg["kinds"][0])
                if self.cfg.get("look"):
                    self.look()
        except api.Machinery:
            raise
        except api.Hang:
            self.log.append({"e": "hang"})
        except Exception as e:
            self.log.append({"e": "exc", "what": repr(e)[:200]})
        return {"cfg": {"ops": self.cfg["ops"]}, "evs": self.log}


def rec(p):
    api.quiet()
    gc.collect()
    gc.freeze()
    res = []
    complete = []
    for cfg in p["exhaustive"]:
        done = False
        n = 0
        for r in explore.all_choices(lambda ch: Session(cfg, ch).run(), cfg["limit"]):
            api.flush_quiet()
            if r is None:
                done = True
            else:
                n += 1
                res.append(r)
        complete.append({"cfg": cfg, "histories": n, "complete": done})
    for cfg in p["random"]:
        for n in range(cfg["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(cfg)))
            res.append(Session(cfg, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res), "complete": complete}
