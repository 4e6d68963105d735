"""Recorders of trees of persistent observable objects (spec/Recorder.tla)."""
import copy
import random
from nion.utils import Observable, Persistence, Recorder
from vf import api, explore

PROPS = ["p", "q", "n", "r"]
RELS = ["i", "j", "s", "t"]


def value(p, v):
    return None if v == -1 else v if p == 1 else [[v]]


def number(p, v):
    if v is None:
        return -1
    try:
        return v if p == 1 and type(v) is int else v[0][0] if len(v) == 1 and len(v[0]) == 1 else -99
    except Exception:
        return -99


class Leaf(Observable.Observable, Persistence.PersistentObject):
    """nothing below it"""
    def __init__(self):
        super().__init__()
        self.define_type("l")
        ch = lambda name, v: self.notify_property_changed(name)
        self.define_property("p", value(1, 0), changed=ch)
        self.define_property("q", value(2, 0), changed=ch, key="q_key")
        self.define_property("n", value(3, 0), changed=ch, recordable=False)
        self.define_property("r", value(4, 0), changed=ch, read_only=True)


class Obj(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_type("o")
        ch = lambda name, v: self.notify_property_changed(name)
        self.define_property("p", value(1, 0), changed=ch)
        self.define_property("q", value(2, 0), changed=ch, key="q_key")
        self.define_property("n", value(3, 0), changed=ch, recordable=False)
        self.define_property("r", value(4, 0), changed=ch, read_only=True)
        self.define_item("i", lambda lookup: Obj(), self.item_changed)
        self.define_item("j", lambda lookup: Obj(), self.item_changed)
        ins = lambda name, i, x: self.notify_insert_item(name, x, i)
        rem = lambda name, i, x: self.notify_remove_item(name, x, i)
        self.define_relationship("s", lambda lookup: Obj(), ins, rem)
        self.define_relationship("t", lambda lookup: Obj(), ins, rem, key="t_key")

    def item_changed(self, name, old, new):
        if new is None:
            self.notify_clear_item(name)
        else:
            self.notify_set_item(name, new)


def tree(o):
    if not isinstance(o, (Obj, Leaf)):
        return [[-98] * 4, [[]] * 4]
    rels = []
    if isinstance(o, Leaf):
        return [[number(k + 1, getattr(o, p)) for k, p in enumerate(PROPS)], [[], [], [], []]]
    for name in RELS[:2]:
        x = o.get_item(name)
        rels.append([tree(x)] if x is not None else [])
    for name in RELS[2:]:
        rels.append([tree(x) for x in getattr(o, name)])
    return [[number(k + 1, getattr(o, p)) for k, p in enumerate(PROPS)], rels]


def scramble(o, ch, fresh):
    """changes a copy thoroughly"""
    o.p = fresh()
    if o.q is not None:
        o.q[0][0] = fresh()
        o._get_persistent_property_value("q").append(3)
    if isinstance(o, Leaf):
        return
    for name in RELS[2:]:
        for x in getattr(o, name):
            scramble(x, ch, fresh)
        if getattr(o, name) and ch(2):
            o.remove_item(name, getattr(o, name)[0])
        else:
            o.append_item(name, Obj())
    for name in RELS[:2]:
        if o.get_item(name) is not None:
            scramble(o.get_item(name), ch, fresh)
            if ch(2):
                o.set_item(name, None)


class Session:
    def __init__(self, cfg, ch):
        self.cfg, self.ch = cfg, ch
        self.log = []
        self.objs = []
        self.parent = {}
        self.recs = []       # (recorder, copies)
        self.closed = set()
        self.serial = 0

    def ev(self, **kw):
        self.log.append(kw)

    def fresh(self):
        self.serial += 1
        return self.serial

    def new(self):
        o = Leaf() if len(self.objs) > 1 and self.ch(4) == 0 else Obj()
        props = [self.fresh() for _ in PROPS]
        for k, p in enumerate(PROPS):
            o._set_persistent_property_value(p, value(k + 1, props[k]))
        self.objs.append(o)
        self.ev(e="new", props=props)
        return o

    def in_tree(self, top, x):
        while x is not None:
            if x is top:
                return True
            x = self.parent.get(x)
        return False

    def free(self, o):
        return [y for y in self.objs if self.parent.get(y) is None and not self.in_tree(y, o)]

    def start(self, o):
        copies = [copy.deepcopy(o) for _ in range(self.cfg["copies"])]
        self.recs.append((Recorder.Recorder(o), copies))
        self.ev(e="start", x=self.id(o))

    def id(self, o):
        return self.objs.index(o) + 1

    def apply(self, r):
        recorder, copies = self.recs[r]
        if not copies:
            return
        c = copies.pop()
        recorder.apply(c)
        self.ev(e="applied", r=r + 1, tree=tree(c))
        if self.ch(2):
            scramble(c, self.ch, self.fresh)

    def options(self):
        o = []
        if len(self.objs) < self.cfg["objs"]:
            o.append("new")
        o += ["touch", "prop", "prop", "ins", "ins", "rem", "item", "clear", "apply"]
        if len(self.recs) < self.cfg["recs"]:
            o.append("start")
        if self.ch(6) == 0:
            o.append("close")
        return o

    def step(self):
        ch = self.ch
        op = ch.pick(self.options())
        wide = self.cfg.get("wide", 0)
        x = self.objs[ch(2)] if ch(4) < wide else ch.pick(self.objs)
        if op == "new":
            self.new()
        elif op == "prop":
            p = ch(4)
            v = ch.pick([-1, 0, 1]) if ch(2) else self.fresh()
            if p == 3:
                x._set_persistent_property_value("r", value(4, v))
            else:
                setattr(x, PROPS[p], value(p + 1, v))
            self.ev(e="prop", x=self.id(x), p=p + 1, v=v)
        elif op == "touch":   # in place, nobody is notified
            p, v = 1 + ch(2), self.fresh()
            if getattr(x, PROPS[p]) is None:
                return
            getattr(x, PROPS[p])[0][0] = v
            self.ev(e="touch", x=self.id(x), p=p + 1, v=v)
        elif op == "ins":
            free = self.free(x)
            if not free or isinstance(x, Leaf):
                return
            y, r = ch.pick(free), 2 + (0 if wide else ch(2))
            i = ch(len(getattr(x, RELS[r])) + 1)
            self.parent[y] = x
            if i == len(getattr(x, RELS[r])) and ch(2):
                x.append_item(RELS[r], y)
            else:
                x.insert_item(RELS[r], i, y)
            self.ev(e="ins", x=self.id(x), r=r + 1, i=i, y=self.id(y))
        elif op == "rem":
            if isinstance(x, Leaf):
                return
            r = 2 + (0 if wide else ch(2))
            items = getattr(x, RELS[r])
            if not items:
                return
            i = ch(len(items))
            self.parent[items[i]] = None
            x.remove_item(RELS[r], items[i])
            self.ev(e="rem", x=self.id(x), r=r + 1, i=i + 1)
        elif op in ("item", "clear"):
            if isinstance(x, Leaf):
                return
            r = ch(2)
            free = self.free(x)
            y = ch.pick(free) if op == "item" and free else None
            old = x.get_item(RELS[r])
            if old is not None:
                self.parent[old] = None
            if y is not None:
                self.parent[y] = x
            x.set_item(RELS[r], y)
            self.ev(e="item", x=self.id(x), r=r + 1, y=0 if y is None else self.id(y))
        elif op == "start":
            self.start(x)
        elif self.recs:
            r = ch(len(self.recs))
            if op == "apply":
                self.apply(r)
            elif r not in self.closed:
                self.closed.add(r)
                self.recs[r][0].close()
                self.ev(e="close", r=r + 1)

    def run(self):
        try:
            with api.time_limit(api.STEP_LIMIT):
                for _ in range(self.cfg["first"]):
                    self.new()
                for _ in range(self.cfg["before"]):
                    self.step_quiet()
                self.start(self.objs[0])
                for _ in range(self.cfg["ops"]):
                    self.step()
                for r in range(len(self.recs)):
                    self.apply(r)
                for x in self.objs:
                    if self.parent.get(x) is None:
                        self.ev(e="seen", x=self.id(x), tree=tree(x))
        except api.Machinery:
            raise
        except api.Hang:
            self.log.append({"e": "hang"})
        except Exception as e:
            self.log.append({"e": "exc", "what": repr(e)[:200]})
        for r, (recorder, copies) in enumerate(self.recs):
            if r not in self.closed:
                try:
                    recorder.close()
                except Exception as e:
                    self.log.append({"e": "exc", "what": repr(e)[:200]})
        return {"cfg": {"x": 0}, "evs": self.log}

    def step_quiet(self):
        # before recording: build a tree
        self.step()


def rec(p):
    api.quiet()
    res = []
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            res.append(Session(q, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res)}
