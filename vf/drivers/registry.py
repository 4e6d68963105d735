"""Histories of the component registry (spec/Registry.tla)."""
import random
from nion.utils import Registry
from vf import api, explore

serial = [0]


def scaled(prio):
    """priorities are given in quarters"""
    return prio // 4 if prio % 4 == 0 else prio / 4


class Component:
    def __init__(self, k, prio):
        self.k = k
        if prio != -1:
            self.priority = scaled(prio)


class Session:
    def __init__(self, cfg, ch):
        self.cfg, self.ch = cfg, ch
        self.log = []
        serial[0] += 1
        self.types = ["t%d-%d" % (serial[0], k) for k in range(cfg["types"])]
        self.comps = [Component(k + 1, p) for k, p in enumerate(cfg["prio"])]
        self.budget = cfg["inner"]
        self.depth = 0

    def ev(self, **kw):
        self.log.append(kw)
        if len(self.log) > 2000:
            raise api.Hang()

    def ty(self, types):
        r = []
        for x in types:
            r.append(self.types.index(x) + 1 if x in self.types else -1)
        return sorted(r)

    def note(self, k, c, types):
        if not isinstance(c, Component) or c not in self.comps:
            self.ev(e="note", k=k, c=-1, types=[])
            return
        self.ev(e="note", k=k, c=c.k, types=self.ty(types))
        if self.cfg["looks"]:
            self.look()
        if self.budget > 0 and self.depth < self.cfg["depth"]:
            opts = self.options()
            n = self.ch(len(opts) + 1)
            if n:
                self.budget -= 1
                self.op(*opts[n - 1])

    def look(self):
        sets, best = [], []
        for t in self.types:
            s = Registry.get_components_by_type(t)
            sets.append(sorted(c.k for c in s))
            s.clear()      # a result is the caller's own
            b = Registry.get_component(t)
            best.append(0 if b is None else b.k)
        self.ev(e="look", sets=sets, best=best)

    def options(self):
        o = []
        for c in self.comps:
            for m in self.cfg["sets"]:
                o.append(("register", c.k, m))
                o.append(("unregister", c.k, m))
            o.append(("unregister all", c.k, []))
            if self.cfg["prios"]:
                o.append(("prio", c.k, []))
        o.append(("existing", 0, [1]))
        return o

    def op(self, op, c, types):
        if op == "prio":
            v = [-1, 0, 200, 202, 199, 280][self.ch(6)]
            self.ev(e="prio", c=c, v=v)
            comp = self.comps[c - 1]
            if hasattr(comp, "priority"):
                del comp.priority
            if v != -1:
                comp.priority = scaled(v)
            return
        self.ev(e="call", op=op, c=c, types=types)
        self.depth += 1
        comp = self.comps[c - 1]
        names = {self.types[k - 1] for k in types}
        try:
            if op == "register":
                Registry.register_component(comp, names)
            elif op == "unregister":
                Registry.unregister_component(comp, names)
            elif op == "unregister all":
                Registry.unregister_component(comp)
            elif op == "existing":
                Registry.fire_existing_component_registered_events(self.types[types[0] - 1])
            res = "ok"
        except (AssertionError, KeyError, ValueError):
            res = "fails"
        names.clear()      # the argument is the caller's own
        self.depth -= 1
        self.ev(e="ret", res=res)

    def run(self):
        a = Registry.listen_component_registered_event(lambda c, types: self.note(1, c, types))
        b = Registry.listen_component_unregistered_event(lambda c, types: self.note(2, c, types))
        try:
            with api.time_limit(api.STEP_LIMIT):
                for _ in range(self.cfg["ops"]):
                    opts = self.options()
                    self.op(*opts[self.ch(len(opts))])
                    self.look()
        except api.Machinery:
            raise
        except api.Hang:
            self.log.append({"e": "hang"})
        except Exception as e:
            self.log.append({"e": "exc", "what": repr(e)[:200]})
        finally:
            a.close()
            b.close()
            for c in self.comps:
                try:
                    Registry.unregister_component(c)
                except Exception:
                    pass
        return {"cfg": {"prio": self.cfg["prio"]}, "evs": self.log}


def rec(p):
    api.quiet()
    res, complete = [], []
    for q in p["exhaustive"]:
        n, done = 0, False
        for r in explore.all_choices(lambda ch: Session(q, ch).run(), q["limit"]):
            api.flush_quiet()
            if r is None:
                done = True
            else:
                n += 1
                res.append(r)
        complete.append(dict(q, histories=n, complete=done))
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            c = dict(q, prio=[rng.choice([-1, 0, 2, 196, 199, 200, 201, 203, 204, 400]) for _ in range(rng.randint(1, 5))])
            res.append(Session(c, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res), "complete": complete}
