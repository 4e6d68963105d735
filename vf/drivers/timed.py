"""Debounced and sampled streams in virtual time (spec/Timed.tla)."""
import asyncio
import random
import selectors
from nion.utils import Event
from nion.utils import Stream
from vf import api, explore

TICK = 1 / 64


class Selector(selectors.DefaultSelector):
    clock = 0.0

    def select(self, timeout=None):
        if timeout is None:
            raise api.Machinery("the loop has nothing to wait for")
        if timeout > 0:
            self.clock += timeout
        return super().select(0)


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.sel = Selector()
        super().__init__(self.sel)

    def time(self):
        return self.sel.clock


class Input(Stream.AbstractStream):
    """passes on equal values, too"""
    def __init__(self, v):
        super().__init__()
        self.v = v
        self.value_stream = Event.Event()

    @property
    def value(self):
        return self.v

    def set(self, v):
        self.v = v
        self.value_stream.fire(v)


class Session:
    def __init__(self, cfg, ch):
        self.cfg = cfg
        self.ch = ch
        self.log = []
        self.streams = []
        self.listeners = []
        self.reactions = cfg["reactions"]
        self.v = 0          # None

    def ev(self, **kw):
        self.log.append(dict(kw, at=self.now()))
        if len(self.log) > 2000:
            raise api.Hang()

    def now(self):
        x = self.loop.time() / TICK
        if x != int(x):
            x = -5 - int(x)     # no time of the specification
        return int(x)

    def make(self, kind, period):
        self.ev(e="make", kind=kind, period=period)
        s = (Stream.DebounceStream if kind == "deb" else Stream.SampleStream)(self.input, period * TICK, self.loop).add_ref()
        self.streams.append([s, True])
        k = len(self.streams)
        self.listeners.append(s.value_stream.listen(lambda v: self.fired(k, v)))

    def fired(self, k, v):
        self.ev(e="fire", s=k, v=v or 0, held=self.streams[k - 1][0].value or 0)
        if self.reactions > 0:
            opts = ["no", "change"] + (["close"] if self.cfg["close"] and self.streams[k - 1][1] else [])
            o = opts[self.ch(len(opts))]
            if o != "no":
                self.reactions -= 1
            if o == "change":
                self.change()
            elif o == "close":
                self.close(k)

    def change(self, same=False):
        if not same:
            self.v = (self.v + 1) % self.cfg.get("cycle", 10 ** 6)
        self.ev(e="change", v=self.v)
        self.input.set(self.v or None)

    def close(self, k):
        self.ev(e="close", s=k)
        self.streams[k - 1][1] = False
        self.streams[k - 1][0].remove_ref()

    def look(self):
        open_ = [s for s, o in self.streams if o]
        self.ev(e="look", vals=[(s.value or 0) if o else -1 for s, o in self.streams], tasks=0 if open_ else len([t for t in asyncio.all_tasks(self.loop) if not t.done()]))

    def run_to(self, tick, fn=None):
        """the loop runs until the time is tick and does fn then"""
        def there():
            try:
                if fn:
                    fn()
            finally:
                # what is ready now is done first
                self.loop.call_soon(lambda: self.loop.call_soon(lambda: self.loop.call_soon(self.loop.call_soon, self.loop.stop)))
        self.loop.call_at(tick * TICK, there)
        self.loop.run_forever()

    def run(self):
        c = self.cfg
        self.loop = Loop()
        failed = []
        self.loop.set_exception_handler(lambda loop, context: failed.append(context))
        try:
            with api.time_limit(api.STEP_LIMIT):
                self.input = Input(None).add_ref()
                at = 0
                for kind, period in c["streams"]:
                    self.make(kind, period)
                for _ in range(c["ops"]):
                    opts = [("wait", None), ("change", None)]
                    if c["same"]:
                        opts.append(("same", None))
                    if c["close"]:
                        opts += [("close", k + 1) for k, (s, o) in enumerate(self.streams) if o]
                    op, arg = opts[self.ch(len(opts))]
                    at += c["gaps"][self.ch(len(c["gaps"]))]
                    fn = {"wait": None, "change": self.change, "same": lambda: self.change(True), "close": lambda: self.close(arg)}[op]

                    def guarded(fn=fn, op=op):
                        if op == "close" and not self.streams[arg - 1][1]:
                            return
                        fn()
                    if fn is None:
                        self.run_to(at)
                    elif c["inside"] and self.ch(2):
                        self.run_to(at, guarded)
                    else:
                        self.run_to(at)
                        guarded()
                        if self.ch(2):
                            continue
                        self.run_to(at)
                    self.look()
                at += 3 * max(p for k, p in c["streams"])
                self.run_to(at)
                self.look()
                for k, (s, o) in enumerate(self.streams):
                    if o:
                        self.close(k + 1)
                self.run_to(at)
                self.look()
                self.run_to(at + 3 * max(p for k, p in c["streams"]))
                self.look()
                if failed:
                    self.log.append({"e": "failed", "what": repr(failed[0])[:300]})
        except api.Machinery:
            raise
        except api.Hang:
            self.log.append({"e": "hang"})
        except Exception as e:
            self.log.append({"e": "exc", "what": repr(e)[:200]})
        finally:
            self.listeners = []
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            self.loop.call_soon(lambda: self.loop.call_soon(self.loop.stop))
            self.loop.run_forever()
            self.loop.close()
        return {"cfg": {"v": 0}, "evs": self.log}


def rec(p):
    api.quiet()
    res = []
    complete = []
    for q in p["exhaustive"]:
        n, done = 0, False
        for r in explore.all_choices(lambda ch: Session(q, ch).run(), q["limit"]):
            api.flush_quiet()
            if r is None:
                done = True
            else:
                n += 1
                res.append(r)
        complete.append(dict(q, histories=n, complete=done))
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            c = dict(q, streams=[[rng.choice(["deb", "samp"]), rng.choice(q["periods"])] for _ in range(rng.choice(q["count"]))])
            if n % 3 == 0:
                c["cycle"] = 2 + n % 2
            res.append(Session(c, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res), "complete": complete}
