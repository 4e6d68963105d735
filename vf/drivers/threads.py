"""Classes used by several threads, under a controlled scheduler (spec/RefCount, Promises, Tasks, Pool, Dispatcher, ThreadedEvents)."""
import asyncio
import random
from vf import api, explore, sched
sched.install()
from nion.utils import Event
from nion.utils import ListModel
from nion.utils import Process
from nion.utils import Promise
from nion.utils import ReferenceCounting
from nion.utils import Stream
from nion.utils import ThreadPool


class Quit(BaseException):
    pass


class Scenario:
    """programs: one list of operations per thread. Nested calls (made by a function that thread t runs) are those of thread n + t."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        self.n = len(cfg["programs"])
        self.nested = {}

    def ev(self, **kw):
        self.log.append(kw)
        if len(self.log) > 3000:
            raise api.Hang()

    def th(self):
        """number of the running thread"""
        t = self.s.me() if self.s else None
        k = self.ids.get(t.name) if t else self.n * 2 + 1
        if k is None:
            k = self.service(t.name)
        return k + (self.n if self.nested.get(k) else 0)

    def service(self, name):
        raise api.Machinery("unknown thread " + name)

    def call(self, op, fn, **kw):
        th = self.th()
        self.ev(th=th, e="call", op=op, **kw)
        try:
            res = fn()
        except (Exception, Quit) as e:
            res = self.raised(op, e)
        self.ev(th=th, e="ret", res=res)

    def raised(self, op, e):
        return "exception " + repr(e)[:100]

    def setup(self):
        pass

    def finale(self):
        pass

    def end(self, stuck):
        self.ev(e="end", stuck=len(stuck))

    def spec_cfg(self):
        return {"threads": self.n * 3 + 1}

    def run(self, chooser):
        self.s = None
        with sched.Sched(chooser) as s:
            self.s = s
            self.ids = {"t%d" % (k + 1): k + 1 for k in range(self.n)}
            try:
                self.setup()
                for k, p in enumerate(self.cfg["programs"]):
                    def body(p=p):
                        for o in p:
                            self.op(o)
                    s.spawn("t%d" % (k + 1), body)
                r = s.run()
                for t in s.tasks:
                    if t.error is not None:
                        if isinstance(t.error, (api.Machinery, api.Hang)):
                            raise t.error
                        self.ev(e="died", what=repr(t.error)[:200])
                if r == "limit":
                    self.ev(e="hang")
                else:
                    stuck = [self.ids[x] for x in s.stuck]
                    self.end(stuck)
                    sched.current = None
                    self.s = None
                    if not stuck:
                        self.finale()
            except api.Hang:
                self.ev(e="hang")
        return {"cfg": self.spec_cfg(), "evs": self.log}


class Counted(ReferenceCounting.ReferenceCounted):
    def __init__(self, sc):
        super().__init__()
        self.sc = sc

    def about_to_delete(self):
        sc = self.sc
        th = sc.th()
        sc.ev(th=th, e="delete", n=self.ref_count)
        if sc.cfg["inside"] and th <= sc.n:
            sc.nested[th] = True
            for o in sc.cfg["inside"]:
                sc.op(o)
            sc.nested[th] = False
        super().about_to_delete()


class RefCount(Scenario):
    def setup(self):
        self.o = Counted(self)
        for _ in range(self.cfg["count"]):
            self.o.add_ref()

    def spec_cfg(self):
        return dict(super().spec_cfg(), count=self.cfg["count"])

    def raised(self, op, e):
        return -1 if isinstance(e, AssertionError) and op in ("remove", "uncheck") else super().raised(op, e)

    def op(self, o):
        if o == "add":
            self.call("add", lambda: 0 if self.o.add_ref() is self.o else -9)
        elif o == "remove":
            self.call("remove", lambda: self.o.remove_ref() or 0)
        elif o == "uncheck":
            self.call("uncheck", lambda: self.o.remove_ref(check=False) or 0)
        elif o == "count":
            self.call("count", lambda: self.o.ref_count)
        elif o in ("block", "raise"):
            th = self.th()
            self.ev(th=th, e="call", op="add")
            res = 0
            try:
                with self.o.ref():
                    self.ev(th=th, e="ret", res=0)
                    self.ev(th=th, e="call", op="remove")
                    if o == "raise":
                        raise ValueError()
            except AssertionError:
                res = -1
            except ValueError:
                res = 0
            else:
                if o == "raise":
                    res = -8   # the exception was lost
            self.ev(th=th, e="ret", res=res)

    def end(self, stuck):
        self.ev(e="end", n=self.o.ref_count, stuck=len(stuck))


class Promises(Scenario):
    def setup(self):
        self.results = list(self.cfg["results"])

        def fn():
            th = self.th()
            self.ev(th=th, e="start")
            self.s and self.s.point()
            if self.cfg.get("inside"):
                self.nested[th] = True
                self.op("opt")
                self.op("has")
                self.nested[th] = False
            v = self.results.pop(0) if self.results else 7
            self.ev(th=th, e="finish", v=v)
            self.s and self.s.point()
            if v == -2:
                raise (Quit if len(self.results) % 2 else ValueError)("fn")
            return None if v == -1 else v
        self.p = Promise.Promise(fn)

    def raised(self, op, e):
        return -2 if isinstance(e, (Quit, ValueError)) and e.args == ("fn",) and op == "value" else super().raised(op, e)

    def op(self, o):
        def num(v):
            return -1 if v is None else v
        if o == "value":
            self.call("value", lambda: num(self.p.value))
        elif o == "opt":
            self.call("opt", lambda: num(self.p.opt_value))
        else:
            self.call("has", lambda: {True: 1, False: 0}[self.p.has_value])

    def finale(self):
        self.op("has")
        self.op("opt")
        self.op("value")
        self.op("has")
        self.op("opt")


class Failed(Exception):
    pass


class FalsyTask:
    """a function with no truth value"""
    def __init__(self, fn):
        self.fn = fn

    def __call__(self):
        return self.fn()

    def __bool__(self):
        return False


TASK_KEYS = {1: None, 2: 0, 3: "", 4: (), 5: 1.5}


class Tasks(Scenario):
    def setup(self):
        self.q = Process.TaskQueue()
        self.ts = Process.TaskSet()
        self.next = 0

    def spec_cfg(self):
        return dict(super().spec_cfg(), keys=self.cfg.get("keys", 3))

    def raised(self, op, e):
        return -1 if isinstance(e, Failed) and op == "perform" else super().raised(op, e)

    def task(self, o):
        self.next += 1
        k = self.next

        def task():
            th = self.th()
            self.ev(th=th, e="run", task=k)
            self.s and self.s.point()
            if len(o) > 3 and th <= self.n:
                self.nested[th] = True
                for x in o[3]:
                    self.op(x)
                self.nested[th] = False
            self.ev(th=th, e="ran", task=k, res=-1 if o[2] else 0)
            if o[2]:
                raise Failed()
        return k, FalsyTask(task) if k % 3 == 2 else task

    def op(self, o):
        if isinstance(o, str):
            o = [o, 1, 0]
        op, key = o[0], o[1]
        if op == "put":
            k, task = self.task(o)
            self.call("put", lambda: self.q.put(task) or 0, a=k, k=1)
        elif op == "perform":
            self.call("perform", lambda: self.q.perform_tasks() or 0, a=0, k=1)
        elif op == "clear":
            self.call("clear", lambda: self.q.clear_tasks() or 0, a=0, k=1)
        elif op == "join":
            self.call("join", lambda: self.q.join() or 0, a=0, k=1)
        elif op == "sadd":
            k, task = self.task(o)
            self.call("sadd", lambda: self.ts.add_task(TASK_KEYS.get(key, "k%d" % key), task) or 0, a=k, k=key)
        elif op == "sclear":
            self.call("sclear", lambda: self.ts.clear_task(TASK_KEYS.get(key, "k%d" % key)) or 0, a=0, k=key)
        elif op == "sperform":
            self.call("sperform", lambda: self.ts.perform_tasks() or 0, a=0, k=1)

    def end(self, stuck):
        self.ev(e="end", size=self.q.qsize(), unfinished=self.q.unfinished_tasks, stuck=stuck)

    def finale(self):
        for _ in range(4):
            self.op("perform")
        self.op("sperform")
        self.op("sperform")


class Pool(Scenario):
    def setup(self):
        self.pool = ThreadPool.ThreadPool()
        self.services = {}
        self.met = 0
        self.next = 0
        for count in self.cfg.get("starts", [self.cfg["workers"]] if self.cfg["workers"] else []):
            self.pool.start(count) if count != 16 else self.pool.start()

    def spec_cfg(self):
        return {"threads": self.n * 2 + 4 + self.cfg["workers"] * 2, "workers": self.cfg["workers"]}

    def service(self, name):
        return self.n * 2 + 4 + self.cfg["workers"] + self.services.setdefault(name, len(self.services) + 1)

    def op(self, o):
        op = o[0]
        if op == "queue":
            self.next += 1
            k = self.next

            def fn():
                th = self.th()
                self.ev(th=th, e="run", task=k)
                self.s and self.s.point()
                if o[2]:
                    # calls from the function: those of another thread number
                    me = self.n * 2 + 2
                    for x in o[2]:
                        self.call_as(me, x)
                if o[1] == 2:       # waits for others to be running, too
                    self.met += 1
                    self.s and self.s.block_until(lambda: self.met >= self.cfg["workers"])
                self.ev(th=th, e="ran", task=k)
                if o[1] == 1:
                    raise Failed()
            self.do("queue", lambda: self.pool.queue_fn(fn, *(["task"] if k % 2 else [])) or 0, k)
        elif op == "close":
            self.do("close", lambda: self.pool.close() or 0, 0)
        elif op == "runall":
            self.do("runall", lambda: self.pool.run_all() or 0, 0)
        elif op == "runone":
            self.do("runone", lambda: self.pool.run_one() or 0, 0)

    alias = None

    def do(self, op, fn, a):
        th = self.alias or self.th()
        self.alias = None
        self.ev(th=th, e="call", op=op, a=a)
        try:
            res = fn()
        except Exception as e:
            res = "exception " + repr(e)[:100]
        self.ev(th=th, e="ret", res=res)

    def call_as(self, me, x):
        while me in self.busy:
            me = me + 1
        self.busy.add(me)
        self.alias = me
        self.op(x)
        self.busy.discard(me)

    def __init__(self, cfg):
        super().__init__(cfg)
        self.busy = set()

    def end(self, stuck):
        self.ev(e="end", stuck=len(stuck))

    def finale(self):
        if not self.cfg["workers"]:
            self.op(["runone"])
            self.op(["runall"])


TICKS = 1024


class Dispatcher(Scenario):
    def setup(self):
        self.runs = 0

        def fn():
            self.runs += 1
            k = self.runs
            self.ev(e="run", at=self.now())
            self.s.point()
            if self.cfg["sleep"] and k % 2:
                sched.virtual_sleep(self.cfg["sleep"] / TICKS)
            if k in self.cfg["again"]:
                self.service_call("trigger")
            self.ev(e="ran", at=self.now())
            if k in self.cfg["fails"]:
                raise Failed()
        self.d = ThreadPool.ThreadDispatcher(fn, self.cfg["interval"] / TICKS)
        self.d.start()

    def service_call(self, op):
        self.ev(th=self.n * 3 + 1, e="call", op=op)
        self.d.trigger()
        self.ev(th=self.n * 3 + 1, e="ret", res=0)

    def now(self):
        x = (self.s.clock - 1000) * TICKS
        return int(x) if x == int(x) else -7

    def spec_cfg(self):
        return {"threads": self.n * 3 + 1, "interval": self.cfg["interval"]}

    def op(self, o):
        if o == "trigger":
            self.call("trigger", lambda: self.d.trigger() or 0)
        elif o == "wait":
            self.call("wait", lambda: self.d.trigger(wait=True) or 0)
        elif o == "close":
            self.call("close", lambda: self.d.close() or 0)
        elif o[0] == "sleep":
            sched.virtual_sleep(o[1] / TICKS)


class Events(Scenario):
    def setup(self):
        self.event = Event.Event()
        self.tokens = {}
        self.next = 0
        for _ in range(self.cfg["start"]):
            self.op("listen")

    def spec_cfg(self):
        return {"threads": self.n * 3 + 1, "listeners": self.next + 1}

    def listener(self, k, react):
        def called(v):
            th = self.th()
            self.ev(th=th, e="called", k=k)
            if v != 17:
                self.ev(e="wrong argument")
            self.s and self.s.point()
            base = th if th <= self.n else None
            if react and base:
                self.nested[base] = True
                self.op(react.pop(0))
                self.nested[base] = False
        return called

    def call_k(self, op, fn, k):
        th = self.th()
        self.ev(th=th, e="call", op=op, k=k)
        try:
            res = fn() or 0
        except Exception as e:
            res = "exception " + repr(e)[:100]
        self.ev(th=th, e="ret", res=res)

    def op(self, o):
        if isinstance(o, str):
            o = [o, None, []]
        op = o[0]
        if op == "listen":
            self.next += 1
            k = self.next

            def listen():
                self.tokens[k] = self.event.listen(self.listener(k, list(o[2])))
            self.call_k("listen", listen, k)
        elif op == "fire":
            self.call_k("fire", lambda: self.event.fire(17), 0)
        else:
            ks = sorted(self.tokens)
            if not ks:
                return
            k = ks[o[1] % len(ks)]
            token = [self.tokens.pop(k)]
            if op == "close":
                self.keep = getattr(self, "keep", [])
                self.keep.append(token[0])
                self.call_k("close", token[0].close, k)
            elif op == "release":
                self.call_k("release", lambda: token.pop() and None, k)

    def finale(self):
        self.op("fire")
        self.op("listen")
        self.op("fire")


class Lists(Scenario):
    """the source is changed with a lock (of the user) held"""
    def setup(self):
        from vf.drivers import lists
        self.lists = lists
        self.items = [lists.Item(k + 1, k % 3, (k * 7) % 5) for k in range(8)]
        self.attr = [[x.f, x.s] for x in self.items]
        self.source = ListModel.ListModel("items")
        self.model = ListModel.FilteredListModel(container=self.source, items_key="items")
        self.inserted = self.model.item_inserted_event.listen(lambda key, x, i: self.ev(e="note", k="ins", i=i, x=x.vid))
        self.removed = self.model.item_removed_event.listen(lambda key, x, i: self.ev(e="note", k="rem", i=i, x=x.vid))
        self.lock = sched.Lock()
        for o in self.cfg["start"]:
            self.op(o)

    def spec_cfg(self):
        return dict(super().spec_cfg(), attr=self.attr)

    def do(self, op, fn, i=0, x=0):
        th = self.th()
        self.ev(th=th, e="call", op=op, i=i, x=x)
        try:
            res = fn() or []
        except Exception as e:
            res = "exception " + repr(e)[:100]
        self.ev(th=th, e="ret", res=res)

    def op(self, o):
        op, a, b = o
        m = self.model
        if op == "insert":
            x = self.items[a]
            with self.lock:
                if x in self.source.items:
                    i = self.source.items.index(x)
                    self.do("remove", lambda: self.source.remove_item(i), i, x.vid)
                else:
                    i = b % (len(self.source.items) + 1)
                    self.do("insert", lambda: self.source.insert_item(i, x), i, x.vid)
        elif op in ("f", "s"):
            x = self.items[a]

            def change():
                if op == "f":
                    x.f = b % 3
                else:
                    x.s = b
                if a % 2:
                    x.item_changed_event.fire()
            with m.changes():
                self.do(op, change, b % 3 if op == "f" else b, x.vid)
        elif op == "filter":
            def set_filter():
                m.filter = self.lists.FILTERS[a]()
            self.do("filter", set_filter, a)
        elif op == "sort":
            def set_sort():
                m.sort_key = self.lists.SORTS[a]
            self.do("sort", set_sort, a)
        elif op == "reverse":
            def set_reverse():
                m.sort_reverse = bool(a)
            self.do("reverse", set_reverse, a)
        elif op == "items":
            self.do("items", lambda: [x.vid for x in m.items])
        elif op == "mark":
            self.do("mark", m.mark_changed)
        elif op == "set":
            self.do("begin", m.begin_change)
            for x in b:
                self.op(x)
            self.do("end", m.end_change)
        elif op == "with":
            with m.changes():
                for x in b:
                    self.op(x)

    def end(self, stuck):
        self.ev(e="end", items=[x.vid for x in self.model.items] if not stuck else [], stuck=len(stuck))


# ---------------------------------------------------------------- programs
def gen_lists(rng, big):
    def one(depth=0):
        x = rng.random()
        if x < 0.35:
            return ["insert", rng.randrange(8), rng.randrange(8)]
        if x < 0.5:
            return ["filter", rng.randrange(6), 0]
        if x < 0.6:
            return ["sort", rng.randrange(6), 0]
        if x < 0.65:
            return ["reverse", rng.randrange(2), 0]
        if x < 0.75:
            return [rng.choice(["f", "s"]), rng.randrange(8), rng.randrange(5)]
        if x < 0.8:
            return ["items", 0, 0]
        if x < 0.85 or depth:
            return ["mark", 0, 0]
        return [rng.choice(["set", "with"]), 0, [one(1) for _ in range(rng.randint(0, 2))]]
    n = rng.choice([2, 2, 3])
    return {"start": [["insert", k, 0] for k in range(rng.choice([0, 2, 4]))] + [one(1) for _ in range(2)],
            "programs": [[one() for _ in range(rng.randint(1, 2 + big))] for _ in range(n)]}


class Sampling(Scenario):
    """the first thread runs the loop, the others change the input of a sample stream"""
    PERIOD = 8

    def setup(self):
        from vf.drivers import timed
        self.tick_len = timed.TICK * self.PERIOD
        self.loop = timed.Loop()
        self.failed = []
        self.loop.set_exception_handler(lambda loop, context: self.failed.append(context))
        self.input = timed.Input(0).add_ref()
        self.stream = Stream.SampleStream(self.input, self.tick_len, self.loop).add_ref()
        self.listener = self.stream.value_stream.listen(self.fired)
        self.open = True
        self.at = 0

    def fired(self, v):
        self.ev(e="fire", v=v, held=self.stream.value)

    def op(self, o):
        if o[0] == "change":
            self.call("change", lambda: self.input.set(o[1]) or 0, v=o[1])
        elif o[0] == "tick":
            self.ev(e="tick")
            self.at += 1
            self.run_to(self.at * self.tick_len)
            self.ev(e="ticked", held=self.stream.value if self.open else 0)
        elif o[0] == "close" and self.open:
            self.ev(e="close")
            self.open = False
            self.stream.remove_ref()

    def run_to(self, time):
        def there():
            self.loop.call_soon(lambda: self.loop.call_soon(lambda: self.loop.call_soon(self.loop.call_soon, self.loop.stop)))
        self.loop.call_at(time, there)
        self.loop.run_forever()

    def end(self, stuck):
        self.stuck = stuck

    def finale(self):
        pass

    def run(self, chooser):
        try:
            r = super().run(chooser)
            if not any(e["e"] in ("hang", "died") for e in self.log):
                if not self.stuck:
                    self.op(["tick"])
                    self.op(["tick"])
                    if self.failed:
                        self.ev(e="died", what=repr(self.failed[0])[:300])
                tasks = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
                self.ev(e="end", stuck=len(self.stuck), tasks=0 if self.open else len(tasks))
        finally:
            self.listener = None
            if not self.loop.is_running():
                for t in asyncio.all_tasks(self.loop):
                    t.cancel()
                self.loop.call_soon(lambda: self.loop.call_soon(self.loop.stop))
                self.loop.run_forever()
                self.loop.close()
        return r


def gen_sampling(rng, big):
    k = [0]

    def change():
        k[0] += 1
        return ["change", k[0]]
    loop = [["tick"] for _ in range(rng.randint(1, 3 + big))]
    if rng.random() < 0.4:
        loop.insert(rng.randint(0, len(loop)), ["close"])
    return {"programs": [loop] + [[change() for _ in range(rng.randint(1, 3 + big))] for _ in range(rng.choice([1, 1, 2]))]}


def gen_pool(rng, big):
    n = rng.choice([2, 2, 3])
    workers = rng.choice([0, 1, 1, 2, 3])

    def queue(depth=0):
        return ["queue", int(rng.random() < 0.2), [queue(1)] if depth == 0 and rng.random() < 0.25 else []]
    programs = [[queue() for _ in range(rng.randint(0, 2 + big))] for _ in range(n)]
    if workers > 1 and rng.random() < 0.3:
        for _ in range(workers):
            rng.choice(programs).append(["queue", 2, []])
    elif rng.random() < 0.6:
        programs[0].insert(rng.randint(0, len(programs[0])), ["close"])
    if not workers:
        for _ in range(rng.randint(1, 3)):
            programs[1].insert(rng.randint(0, len(programs[1])), [rng.choice(["runone", "runall"])])
    return {"programs": programs, "workers": workers}


def gen_dispatcher(rng, big):
    n = rng.choice([2, 2, 3])
    ops = ["trigger", "wait", "trigger", "wait", ["sleep", 3], ["sleep", 40]]
    programs = [[rng.choice(ops) for _ in range(rng.randint(1, 3 + big))] for _ in range(n)]
    if rng.random() < 0.5:
        programs[0].insert(rng.randint(0, len(programs[0])), "close")
        if rng.random() < 0.5:
            programs[0] = programs[0][:programs[0].index("close") + 1]
    return {"programs": programs, "interval": rng.choice([0, 1, 16, 16]), "sleep": rng.choice([0, 0, 5, 20]),
            "again": rng.choice([[], [], [1], [2]]), "fails": rng.choice([[], [], [1], [1, 2]])}


def gen_events(rng, big):
    n = rng.choice([2, 2, 3])

    def one(depth=0):
        x = rng.random()
        if x < 0.4:
            return ["fire", 0, []]
        if x < 0.65:
            return ["listen", 0, [one(1) for _ in range(rng.choice([0, 0, 1, 2]))] if depth == 0 else []]
        return [rng.choice(["close", "release"]), rng.randrange(4), []]
    return {"start": rng.choice([0, 1, 2, 3]), "programs": [[one() for _ in range(rng.randint(1, 3 + big))] for _ in range(n)]}


def gen_refcount(rng, big):
    n = rng.choice([2, 2, 3])
    ops = ["add", "remove", "remove", "uncheck", "count", "block", "raise"]
    return {"count": rng.choice([0, 1, 2]), "programs": [[rng.choice(ops) for _ in range(rng.randint(1, 3 + big))] for _ in range(n)],
            "inside": rng.choice([[], [], ["add", "remove"], ["count"], ["block"], ["remove"]])}


def gen_promises(rng, big):
    n = rng.choice([2, 2, 3])
    return {"programs": [[rng.choice(["value", "value", "opt", "has"]) for _ in range(rng.randint(1, 3 + big))] for _ in range(n)],
            "results": rng.choice([[5], [-1, 5], [-2, 5], [-2, -2, -1], [0], [-2, -2, 0], [-2, 0]]), "inside": rng.random() < 0.3}


def gen_tasks(rng, big):
    n = rng.choice([2, 2, 3])
    kind = rng.choice(["queue", "queue", "set"])

    def put(depth):
        inner = [put(depth + 1) for _ in range(rng.choice([0, 0, 1]))] if depth < 2 else []
        if kind == "queue":
            if inner and rng.random() < 0.3:
                inner.append("clear")
            return ["put", 1, int(rng.random() < 0.2), inner]
        return ["sadd", rng.choice([1, 2, 3]), 0, inner + ([["sclear", rng.choice([1, 2]), 0]] if inner and rng.random() < 0.4 else [])]

    def one():
        x = rng.random()
        if kind == "queue":
            return put(0) if x < 0.5 else "perform" if x < 0.8 else "clear" if x < 0.9 else "join"
        return put(0) if x < 0.55 else ["sclear", rng.choice([1, 2, 3]), 0] if x < 0.7 else "sperform"
    return {"programs": [[one() for _ in range(rng.randint(1, 3 + big))] for _ in range(n)]}


KINDS = {"refcount": (RefCount, gen_refcount), "promises": (Promises, gen_promises), "tasks": (Tasks, gen_tasks), "pool": (Pool, gen_pool),
         "dispatcher": (Dispatcher, gen_dispatcher), "events": (Events, gen_events), "lists": (Lists, gen_lists), "sampling": (Sampling, gen_sampling)}


def rec(p):
    api.quiet()
    cls, gen = KINDS[p["kind"]]
    res = []
    stats = []
    hangs = 0
    long = p.get("long", [])
    for n in range(p["programs"] + len(p["fixed"]) + len(long)):
        rng = random.Random("%s/%s/%s" % (p["seed"], n, p["kind"]))
        fixed = n < len(p["fixed"])
        rest = n - len(p["fixed"])
        few = 0 <= rest < len(long)
        cfg = p["fixed"][n] if fixed else long[rest] if few else gen(rng, p.get("big", 0))
        seen = set()

        def scenario(ch):
            return cls(cfg).run(ch)
        for r in sched.schedules(scenario, rng, p["fixed_bound"] if fixed else p["bound"], p["fixed_limit"] if fixed else 12 if few else p["limit"], 4 if few else p["randoms"]):
            api.flush_quiet()
            if "systematic" in r:
                if fixed:
                    stats.append(dict(r, histories=len(seen), cfg=cfg))
                continue
            key = api.canon(r)
            if key not in seen:
                seen.add(key)
                res.append(r)
            hangs += any(e.get("e") == "hang" for e in r["evs"])
            if hangs >= 3:
                break
        if hangs >= 3:      # a violation in any case
            break
    return {"traces": explore.dedupe(res), "fixed": stats}
