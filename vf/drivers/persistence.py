"""Trees of persistent objects in contexts (spec/Persistence.tla)."""
import copy
import functools
import json
import random
import uuid
from nion.utils import Persistence
from vf import api


class Conv:
    def convert(self, v):
        return None if v is None else v + 100

    def convert_back(self, v):
        return None if v is None else v - 100


class M:
    def __init__(self):
        self.n = [-1]

    def read_dict(self, d):
        self.n = list(d["n"])
        return self

    def write_dict(self):
        return {"n": self.n[:]}


def w_reader(prop, properties):
    v = properties.get(prop.key)
    return None if v is None else v - 1000


def w_writer(prop, properties, value):
    if value is not None:
        properties[prop.key] = value + 1000


def clamp(v):
    return None if v is None else min(v, 5)


# value kinds of the properties: i number, l list, m object
KINDS = {"a": {"p": "l", "q": "i", "v": "i", "c": "l", "r": "i", "h": "l", "m": "m", "w": "i"}, "b": {"p": "l", "x": "i"}, "c": {"p": "l"}, "d": {}}
KEYS = {"a": [["p", "p"], ["q", "q_key"], ["v", "v"], ["c", "c_key"], ["r", "r"], ["h", "hh"], ["m", "m_key"], ["w", "w_key"]], "b": [["p", "pp"], ["x", "x"]], "c": [["p", "pk"]], "d": []}
ITEMS = {"a": ["i", "hi"], "b": ["j"], "c": ["i"], "d": []}
RELS = {"a": [["s", "s"], ["t", "t_key"]], "b": [["s", "ss"]], "c": [["s", "ss"]], "d": []}
HIDDEN = {"h"}


# equal values which are different
ALIKE = {3: True, 4: 1, 5: 1.0}


def pv(kind, n):
    if n == -1:
        return None
    if kind == "i":
        return n
    if kind == "l":
        if n in ALIKE:
            return ALIKE[n]
        return ([n],) if n == 2 else [[n]] if n else []
    m = M()
    m.n = [n]
    return m


def un(kind, v):
    if v is None:
        return -1
    try:
        if kind == "i":
            return v if type(v) is int else -99
        if kind == "l":
            if isinstance(v, (bool, int, float)):
                return next((n for n, x in ALIKE.items() if type(x) is type(v) and x == v), -99)
            return 0 if v == [] else v[0][0] if len(v) == 1 and len(v[0]) == 1 and v[0][0] else -99
        return v.n[0] if len(v.n) == 1 else -99
    except Exception:
        return -99


def un_json(kind, v):
    if kind == "m":
        return v["n"][0] if isinstance(v, dict) and list(v) == ["n"] and len(v["n"]) == 1 else -99
    return un(kind, v)


def scramble(v):
    if isinstance(v, list):
        for x in v:
            scramble(x)
        v.append([1234])
    elif isinstance(v, tuple):
        for x in v:
            scramble(x)
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v["zz"] = 1
    elif isinstance(v, M):
        v.n.append(3)


def make(lookup_id):
    if lookup_id("none") is not None or lookup_id("none", 5) != 5 or not lookup_id("uuid"):
        raise AssertionError("lookup")
    return CLASSES[lookup_id("type")]()


class Base(Persistence.PersistentObject):
    calls = None
    told = None

    def begin_reading(self):
        super().begin_reading()
        self.__dict__.setdefault("_reading", []).append("begin" if self.persistent_object_context is None or self.__dict__.get("_load") else "?")

    def read_from_dict(self, properties):
        self.__dict__.setdefault("_reading", []).append("read" if self._is_reading else "?")
        super().read_from_dict(properties)

    def finish_reading(self):
        super().finish_reading()
        self.__dict__.setdefault("_reading", []).append("finish" if not self._is_reading else "?")

    def _changed(self, name, value):
        if Base.calls is not None:
            Base.calls.append((self, name, un(KINDS[self.cls][name], value), 0))

    def _item(self, name, old, new):
        if Base.calls is not None:
            Base.calls.append((self, name, old, new if self.get_item(name) is new else -9))

    def persistent_object_context_changed(self):
        super().persistent_object_context_changed()
        c = self.persistent_object_context
        if Base.told is not None and c is not self.__dict__.get("_last"):
            Base.told.append(self)
        self.__dict__["_last"] = c

    def _inserted(self, name, index, item):
        if Base.calls is not None:
            v = getattr(self, name)
            Base.calls.append((self, name, index, item if len(v) > index and v[index] is item else -9))

    def _removed(self, name, index, item):
        if Base.calls is not None:
            Base.calls.append((self, name, index, item if not any(x is item for x in getattr(self, name)) else -9))


class A(Base):
    cls = "a"

    def __init__(self):
        super().__init__()
        self.define_type("a")
        ch = self._changed
        self.define_property("p", changed=ch)
        self.define_property("q", 3, key="q_key", converter=Conv(), changed=ch)
        self.define_property("v", 0, validate=clamp, changed=ch)
        self.define_property("c", key="c_key", copy_on_read=True, changed=ch)
        self.define_property("r", 7, read_only=True, changed=ch)
        self.define_property("h", key="hh", hidden=True, changed=ch)
        self.define_property("m", key="m_key", make=M, changed=ch)
        self.define_property("w", key="w_key", reader=w_reader, writer=w_writer, changed=ch)
        self.define_item("i", make, self._item)
        self.define_item("hi", make, self._item, hidden=True)
        self.define_relationship("s", make, self._inserted, self._removed)
        self.define_relationship("t", make, insert=self._inserted, remove=self._removed, key="t_key")


class B(Base):
    cls = "b"

    def __init__(self):
        super().__init__()
        self.define_type("b")
        self.define_property("p", pv("l", 1), key="pp", changed=self._changed)
        self.define_item("j", make, item_changed=self._item)
        self.define_relationship("s", make, insert=self._inserted, remove=self._removed, key="ss")
        self._x = 0

    # a property which the object keeps itself
    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, x):
        self._x = x
        self._update_persistent_property("x", x)

    def deepcopy_from(self, item, memo):
        super().deepcopy_from(item, memo)
        self.x = item.x

    def read_from_dict(self, properties):
        super().read_from_dict(properties)
        self._x = properties["x"]

    def write_to_dict(self):
        d = super().write_to_dict()
        d["x"] = self._x
        return d


class C(Base):
    cls = "c"

    def __init__(self):
        super().__init__()
        self.define_type("c")
        self.define_property("p", key="pk", changed=self._changed)
        self.define_item("i", make, self._item)
        self.define_relationship("s", make, insert=self._inserted, remove=self._removed, key="ss")


class D0(Base):
    """nothing to store"""
    cls = "d"

    def __init__(self):
        super().__init__()
        self.define_type("d")


CLASSES = {"a": A, "b": B, "c": C, "d": D0}


class Storage:
    """in memory; the way an application does it"""
    def __init__(self, d):
        self.properties = d
        self.got = []

    # what else a context asks for
    def read_external_data(self, item, name):
        self.got.append(("read_external_data", item, name))
        return ["data", id(self)]

    def write_external_data(self, item, name, value):
        self.got.append(("write_external_data", item, name, value))

    def enter_write_delay(self, item):
        self.got.append(("enter_write_delay", item))

    def exit_write_delay(self, item):
        self.got.append(("exit_write_delay", item))

    def is_write_delayed(self, item):
        self.got.append(("is_write_delayed", item))
        return ["delayed", id(self)]

    def rewrite_item(self, item):
        self.got.append(("rewrite_item", item))

    def get_storage_property(self, item, name):
        self.got.append(("get_storage_property", item, name))
        return ["property", id(self)]

    def dict_of(self, object):
        parent = object.persistent_object_parent
        if not parent:
            return self.properties
        return object.get_accessor_in_parent()(self.dict_of(parent.parent))

    def set_property(self, object, name, value):
        self.dict_of(object)[name] = copy.deepcopy(value)
        scramble(value)

    def clear_property(self, object, name):
        self.dict_of(object).pop(name, None)

    def insert_item(self, parent, name, before_index, item):
        d = self.dict_of(parent)
        d.setdefault(name, list()).insert(before_index, copy.deepcopy(item.write_to_dict()))
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, index, item):
        del self.dict_of(parent)[name][index]

    def set_item(self, parent, name, item):
        d = self.dict_of(parent)
        if item:
            d[name] = copy.deepcopy(item.write_to_dict())
            item.persistent_object_context = parent.persistent_object_context
        else:
            d.pop(name, None)


class Storage2(Storage):
    """tells the properties of each object"""
    def get_properties(self, object):
        return self.dict_of(object)


class D(api.Driver):
    def __init__(self, cfg):
        self.cfg = cfg
        self.objs = []
        self.uuids = {}
        self.stores = []   # root, on, storage
        self.contexts = [Persistence.PersistentObjectContext() for _ in range(2)]
        self.events = []
        self.told = []
        self.subs = 0
        self.readback = set()
        self.listeners = []
        for c, ctx in enumerate(self.contexts):
            self.listeners.append(ctx.registration_event.listen(functools.partial(self.registered, c + 1)))
        for _ in range(cfg.get("n", 0)):
            self.reg(C())

    def registered(self, c, added, removed):
        if added is not None:
            self.events.append([c, 1, added, 1 if self.contexts[c - 1].get_registered_object(added.uuid) is added else 0])
        if removed is not None:
            self.events.append([c, -1, removed, 1])
        if added is None and removed is None or added is not None and removed is not None:
            self.events.append([c, 0, None, 0])

    def find(self, o):
        for k, x in enumerate(self.objs):
            if x is o:
                return k + 1
        return 0

    def reg(self, o):
        k = self.find(o)
        if k:
            return k
        self.objs.append(o)
        k = len(self.objs)
        for n in ITEMS[o.cls]:
            x = o.get_item(n)
            if x is not None:
                self.reg(x)
        for n, _ in RELS[o.cls]:
            for x in getattr(o, n):
                self.reg(x)
        return k

    def uuid_of(self, u):
        return self.uuids.setdefault(str(u), len(self.uuids) + 1)

    def value(self, o, n):
        if n == "x":
            return un("i", o.x)
        v = o._get_persistent_property_value(n)
        if n not in HIDDEN and un(KINDS[o.cls][n], getattr(o, n)) != un(KINDS[o.cls][n], v):
            return -98
        return un(KINDS[o.cls][n], v)

    def enc(self, d):
        """written dict"""
        d = dict(d)
        cls = d.pop("type", "?")
        if cls not in KEYS:
            return ["?", 0, [["?", 0]], [], []]
        u = self.uuid_of(d.pop("uuid", "?"))
        props = []
        for n, k in KEYS[cls]:
            if k in d:
                props.append([k, un_json(KINDS[cls][n], d.pop(k))])
        items = []
        for n in ITEMS[cls]:
            if n in d:
                items.append([n, self.enc(d.pop(n))])
        rels = []
        for n, k in RELS[cls]:
            rels.append([k, [self.enc(x) for x in d.pop(k, [])]])
        for k in sorted(d):
            props.append([str(k), -99])
        return [cls, u, props, items, rels]

    def look(self):
        res = []
        k = 0
        while k < len(self.objs):
            o = self.objs[k]
            p = o.persistent_object_parent
            named = (o.type, o.property_names, o.key_names, o.item_names, o.relationship_names)
            keys = [n for n in KEYS[o.cls] if n[0] != "x"]
            ok = named == (o.cls, [n for n, _ in keys], [n for _, n in keys], ITEMS[o.cls], [n for n, _ in RELS[o.cls]])
            for n in ITEMS[o.cls]:      # what is hidden is no attribute
                ok = ok and (not hasattr(o, n) if n == "hi" else getattr(o, n) is o.get_item(n))
            ok = ok and not hasattr(o, "h") and not hasattr(o, "zz")
            res.append({"cls": o.cls if ok else "?", "uuid": self.uuid_of(o.uuid), "parent": self.find(p.parent) if p else 0,
                        "slot": (p.item_name or p.relationship_name or "?") if p else "", "props": [self.value(o, n) for n, _ in KEYS[o.cls]],
                        "items": [self.reg(o.get_item(n)) if o.get_item(n) is not None else 0 for n in ITEMS[o.cls]],
                        "rels": [[self.reg(x) for x in getattr(o, n)] for n, _ in RELS[o.cls]]})
            k += 1
        return res

    def step(self, i):
        self.events = []
        self.told = []
        before = [(o.modified_count, o.modified_state, o.modified) for o in self.objs]
        Base.calls = calls = []
        nobj = len(self.objs)
        op = i["op"]
        out = {"val": 0, "refused": False, "dict": [], "times": True}
        Base.told = []
        o = self.objs[i["o"] - 1] if "o" in i else None
        if op == "new":
            self.reg(CLASSES[i["cls"]]())
        elif op == "setp":
            v = pv(KINDS[o.cls][i["name"]], i["x"])
            if i["name"] in HIDDEN or i["name"] == "r" or i.get("via") and i["name"] != "x":
                o._set_persistent_property_value(i["name"], v)
            else:
                setattr(o, i["name"], v)
            scramble(v)
            for s in self.stores:
                if s[0] == i["o"] and s[1] and s[3] == dict(KEYS[o.cls])[i["name"]]:
                    s[3] = ""
        elif op == "setro":
            try:
                setattr(o, "r", i["x"])
            except AttributeError:
                out["refused"] = True
        elif op == "get":
            v = o._get_persistent_property_value(i["name"]) if i["name"] in HIDDEN or i.get("via") and i["name"] != "x" else getattr(o, i["name"])
            out["val"] = un(KINDS[o.cls][i["name"]], v)
            if i["name"] == "c":
                scramble(v)
        elif op == "seti":
            o.set_item(i["name"], self.objs[i["x"] - 1] if i["x"] else None)
        elif op == "ins":
            x = self.objs[i["x"] - 1]
            if i["i"] == len(getattr(o, i["name"])) and i.get("via"):
                if i["via"] == 1:
                    o.append_item(i["name"], x)
                else:
                    o.extend_items(i["name"], [x])
            else:
                o.insert_item(i["name"], i["i"], x)
            if o.item_index(i["name"], x) != i["i"] or o.item_count(i["name"]) != len(getattr(o, i["name"])):
                out["dict"] = ["index"]
        elif op == "ext":
            o.extend_items(i["name"], [self.objs[x - 1] for x in i["xs"]])
        elif op == "rem":
            o.remove_item(i["name"], self.objs[i["x"] - 1])
        elif op == "ctx":
            if i["c"]:
                st = (Storage2 if len(self.stores) % 2 else Storage)(copy.deepcopy(o.write_to_dict()))
                self.contexts[i["c"] - 1]._set_persistent_storage_for_object(o, st)
                if i["miss"]:
                    st.properties.pop(i["miss"])
                self.stores.append([i["o"], True, st, i["miss"]])
                o.persistent_object_context = self.contexts[i["c"] - 1]
            else:
                for s in self.stores:
                    if s[0] == i["o"]:
                        s[1] = False
                c = o.persistent_object_context
                o.persistent_object_context = None
                c._set_persistent_storage_for_object(o, None)
        elif op == "req":
            out["val"] = self.request(o, i["k"])
        elif op == "sub":
            def subscribe(k, nest):
                def registered(x):
                    self.told.append([k, "r", x])
                    if nest:
                        subscribe(k + 1, False)
                self.contexts[i["c"] - 1].subscribe(o.uuid, registered if i["r"] else None,
                                                    (lambda x: self.told.append([k, "u", x])) if i["u"] else None)
            k = self.subs + 1
            self.subs += 2 if i["nest"] else 1
            subscribe(k, i["nest"])
        elif op == "write":
            d = o.write_to_dict()
            out["dict"] = self.enc(d)
            scramble(d)
        elif op == "read":
            d = o.write_to_dict()
            self.stamp(o, d)
            d = copy.deepcopy(d) if i.get("via") else json.loads(json.dumps(d))
            f = type(o)()
            self.read(f, d)
            out["dict"] = self.enc(f.write_to_dict())
            out["times"] = self.stamped(o, f)
            k = self.reg(f)
            self.readback |= set(range(k, len(self.objs) + 1))
        elif op == "load":
            # the application is started again: an object for what is in storage
            c = self.contexts[i["c"] - 1]
            old = self.stores[i["k"] - 1]
            st = (Storage2 if len(self.stores) % 2 else Storage)(copy.deepcopy(old[2].properties))
            f = CLASSES[st.properties["type"]]()
            if i["via"]:
                f.__dict__["_load"] = True
                c._set_persistent_storage_for_object(f, st)
                f.persistent_object_context = c
                self.read(f, c.get_properties(f))
            else:
                self.read(f, json.loads(json.dumps(st.properties)))
                c._set_persistent_storage_for_object(f, st)
                f.persistent_object_context = c
            k = self.reg(f)
            self.stores.append([k, True, st, ""])
            out["times"] = all(x.__dict__["_reading"] == ["begin", "read", "finish"] for x in self.below(f))
            out["dict"] = self.enc(f.write_to_dict())
        elif op == "copy":
            f = copy.deepcopy(o)
            self.reg(f)
            out["dict"] = self.enc(f.write_to_dict())
        Base.calls = None
        own = [[self.find(x), self.context_of(x)] for x in Base.told if self.find(x)]
        Base.told = None
        more = []
        odd = []
        for k, (mc, ms, md) in enumerate(before):
            x = self.objs[k]
            if x.modified_count > mc and x.modified_state > ms and x.modified >= md:
                more.append(k + 1)
            elif (x.modified_count, x.modified_state, x.modified) != (mc, ms, md):
                odd.append(k + 1)
        out.update(objs=self.look(), rcalls=[[self.find(x), n, self.ref(v), self.ref(w)] for x, n, v, w in calls if self.find(x) > nobj and n not in KINDS[x.cls]] if op in ("read", "load") else [], more=more, odd=odd, calls=[[self.find(x), n, self.ref(v), self.ref(w)] for x, n, v, w in calls if 0 < self.find(x) <= nobj],
                   ctxs=[self.context_of(x) for x in self.objs], own=sorted(own),
                   regd=[[k + 1 for k, x in enumerate(self.objs) if c.get_registered_object(x.uuid) is x] for c in self.contexts],
                   events=sorted([c, k, self.find(x), r] for c, k, x, r in self.events), told=sorted([k, w, self.find(x)] for k, w, x in self.told),
                   stores=[{"root": r, "on": on, "dict": self.enc(copy.deepcopy(s.properties)), "miss": m} for r, on, s, m in self.stores])
        return out

    def read(self, f, d):
        f.begin_reading()
        f.read_from_dict(d)
        f.finish_reading()
        scramble(d)

    def context_of(self, x):
        return (self.contexts.index(x.persistent_object_context) + 1) if x.persistent_object_context is not None else 0

    def stamp(self, o, d):
        """modified times as applications store them"""
        d["modified"] = o.modified.isoformat()
        for n in ITEMS[o.cls]:
            if o.get_item(n) is not None:
                self.stamp(o.get_item(n), d[n])
        for n, k in RELS[o.cls]:
            for x, e in zip(getattr(o, n), d[k]):
                self.stamp(x, e)

    def stamped(self, o, f):
        r = f.modified == o.modified and f.__dict__["_reading"] == ["begin", "read", "finish"]
        for n in ITEMS[o.cls]:
            if o.get_item(n) is not None:
                r = r and self.stamped(o.get_item(n), f.get_item(n))
        for n, k in RELS[o.cls]:
            r = r and all(self.stamped(x, y) for x, y in zip(getattr(o, n), getattr(f, n)))
        return r

    def ref(self, v):
        return 0 if v is None else v if isinstance(v, int) else self.find(v) or -8

    def above(self, o):
        p = o.persistent_object_parent
        return [o] + (self.above(p.parent) if p else [])

    def request(self, o, k):
        """the storage which gets a request of an object, through the context"""
        c = o.persistent_object_context
        name = ["read_external_data", "write_external_data", "enter_write_delay", "exit_write_delay", "is_write_delayed", "rewrite_item", "get_storage_property", "get_properties"][k]
        args = {0: (o, "data"), 1: (o, "data", 7), 6: (o, "some")}.get(k, (o,))
        r = getattr(c, name)(*args)
        res = 0
        if k == 7:
            for n, (k2, on, st, _) in enumerate(self.stores):
                if on and isinstance(st, Storage2):
                    if self.objs[k2 - 1] in self.above(o) and r == st.dict_of(o) and r is not st.dict_of(o):
                        scramble(r)
                        return n + 1
                elif on and st.properties == r and r is not st.properties:
                    u = st.properties.get("uuid")
                    root = o
                    while root.persistent_object_parent:
                        root = root.persistent_object_parent.parent
                    if u == str(root.uuid):
                        scramble(r)
                        return n + 1
            return -1
        for n, (_, _, st, _) in enumerate(self.stores):
            if st.got:
                if st.got != [(name,) + args] or res or r != {0: ["data", id(st)], 4: ["delayed", id(st)], 6: ["property", id(st)]}.get(k):
                    return -1
                res = n + 1
                st.got = []
        return res

    # ------------------------------------------------------------- random histories
    def gen(self, rng):
        for _ in range(40):
            r = self.gen1(rng)
            if r:
                return r
        return None

    def below(self, o):
        r = [o]
        for n in ITEMS[o.cls]:
            if o.get_item(n) is not None:
                r += self.below(o.get_item(n))
        for n, _ in RELS[o.cls]:
            for x in getattr(o, n):
                r += self.below(x)
        return r

    def gen1(self, rng):
        n = len(self.objs)
        op = rng.choices(["new", "setp", "setro", "get", "seti", "ins", "rem", "ctx", "sub", "write", "read", "copy", "req", "load"], self.cfg["weights"])[0]
        wide = self.cfg.get("wide", 0)
        if n < 3 + wide or op == "new":
            return {"op": "new", "cls": rng.choice("bd" if n > 3 and wide else "aaaabbd")} if n < 12 + wide else None
        k = rng.randrange(3 if wide and rng.random() < 0.6 else n) + 1
        o = self.objs[k - 1]
        free = [j + 1 for j, x in enumerate(self.objs) if x.persistent_object_parent is None and x.persistent_object_context is None]
        via = rng.randrange(3)
        if op == "req":
            return {"op": op, "o": k, "k": rng.randrange(8)} if o.persistent_object_context is not None else None
        if op in ("setp", "get"):
            if o.cls == "d":
                return None
            name = rng.choice(KEYS[o.cls])[0]
            r = {"op": op, "o": k, "name": name, "via": via % 2}
            if op == "setp":
                r["x"] = rng.choice([0, 1, 2] if name == "x" else [-1, 0, 0, 1, 2, 9, 3, 4, 5] if KINDS[o.cls][name] == "l" else [-1, 0, 0, 1, 2, 9])
                # what it is already
                if rng.random() < 0.25:
                    if o.persistent_object_context is not None:
                        miss = [s[3] for s in self.stores if s[0] == k and s[1]]
                        r["name"] = next((n for n, key in KEYS[o.cls] if key in miss), r["name"])
                    r["x"] = self.value(o, r["name"])
            return r
        if op == "load":
            if n > 14 + wide:
                return None
            off = [j + 1 for j, s in enumerate(self.stores) if not s[1] and not s[3] and self.whole(s[2].properties) and not self.used(s[2].properties)]
            if not off:
                on = [s[0] for s in self.stores if s[1] and not s[3] and self.whole(s[2].properties)]
                return {"op": "ctx", "o": rng.choice(on), "c": 0} if on and rng.random() < 0.5 else None
            return {"op": op, "k": rng.choice(off), "c": rng.randrange(2) + 1, "via": via % 2}
        if op == "setro":
            return {"op": op, "o": k, "x": 3} if o.cls == "a" else None
        if op == "seti":
            if o.cls == "d":
                return None
            name = rng.choice(ITEMS[o.cls])
            c = [x for x in free if o not in self.below(self.objs[x - 1])]
            c = [x for x in c if not self.clash(o, x)]
            if o.get_item(name) is not None:
                c += [0, 0]
            return {"op": op, "o": k, "name": name, "x": rng.choice(c)} if c else None
        if op == "ins":
            if o.cls == "d":
                return None
            name = rng.choice(RELS[o.cls])[0]
            c = [x for x in free if o not in self.below(self.objs[x - 1])]
            c = [x for x in c if not self.clash(o, x)]
            if c and rng.random() < 0.2:
                xs = []
                for x in rng.sample(c, len(c)):
                    if not {str(y.uuid) for y in self.below(self.objs[x - 1])} & {str(y.uuid) for x2 in xs for y in self.below(self.objs[x2 - 1])}:
                        xs.append(x)
                return {"op": "ext", "o": k, "name": name, "xs": xs[:rng.choice([0, 2, 2, 3, 9] if not wide else [2, 12, 20])]}
            return {"op": op, "o": k, "name": name, "i": rng.randint(0, len(getattr(o, name))), "x": rng.choice(c), "via": via} if c else None
        if op == "rem":
            c = [(j + 1, nm, self.find(x)) for j, y in enumerate(self.objs) for nm, _ in RELS[y.cls] for x in getattr(y, nm)]
            if not c:
                return None
            k, nm, x = rng.choice(c)
            return {"op": op, "o": k, "name": nm, "x": x}
        if op == "ctx":
            if o.persistent_object_parent is not None:
                return None
            if o.persistent_object_context is not None:
                return {"op": op, "o": k, "c": 0} if rng.random() < 0.3 else None
            c = rng.randrange(2) + 1
            us = {str(x.uuid) for x in self.below(o)}
            if any(str(x.uuid) in us and x.persistent_object_context is not None for x in self.objs) or len(us) < len(self.below(o)):
                return None
            present = [key for n, key in KEYS[o.cls] if n != "x" and self.value(o, n) not in (-1, -98, -99)]
            return {"op": op, "o": k, "c": c, "miss": rng.choice(present) if present and rng.random() < 0.4 else ""}
        if op == "sub":
            if sum(1 for x in self.objs if x.uuid == o.uuid) > 1:
                return None
            r = rng.random() < 0.8
            return {"op": op, "o": k, "c": rng.randrange(2) + 1, "r": r, "u": rng.random() < 0.8, "nest": r and rng.random() < 0.3}
        if op in ("read", "copy") and n + len(self.below(o)) > 14 + wide * 2:
            return None
        return {"op": op, "o": k, "via": via % 2}

    def whole(self, d):
        """can a dict be loaded? nothing is missing that has a default"""
        us = []

        def walk(d):
            us.append(d["uuid"])
            cls = d["type"]
            keys = {"a": ["q_key", "v", "r"], "b": ["pp"]}.get(cls, [])
            return all(k in d for k in keys) and all(walk(d[n]) for n in ITEMS[cls] if n in d) and all(walk(x) for _, k in RELS[cls] for x in d.get(k, []))
        if not walk(d) or len(us) > (40 if self.cfg.get("wide") else 8) or len(set(us)) < len(us):
            return False
        return True

    def used(self, d):
        t = json.dumps(d)
        return any(str(x.uuid) in t and x.persistent_object_context is not None for x in self.objs)

    def clash(self, o, x):
        """would two objects of one uuid meet in one context or tree?"""
        root = o
        while root.persistent_object_parent:
            root = root.persistent_object_parent.parent
        us = {str(y.uuid) for y in self.below(self.objs[x - 1])}
        if any(str(y.uuid) in us for y in self.below(root)):
            return True
        if root.persistent_object_context is None:
            return False
        return any(str(y.uuid) in us and y.persistent_object_context is not None for y in self.objs)


def rec(p):
    api.quiet()
    r = api.record(D, [{"weights": p["weights"]}], p["seed"], p["traces"], p["length"])
    r += api.record(D, [{"weights": p["weights"], "wide": 20}], p["seed"], p.get("wide", 0), 70)
    for t in r:
        t["cfg"] = {"n": 0}
    return r


def rep(p):
    api.quiet()
    n = p["n"]
    init = [[{"cls": "c", "uuid": k + 1, "parent": 0, "slot": "", "props": [-1], "items": [0], "rels": [[]]} for k in range(n)], [0] * n, []]
    return [api.replay(D, {"n": n}, p["edges"], init, seed=p["seed"])]
