"""Models of streams of functions (spec/FuncModel.tla). The functions wait in their threads until they are let go."""
import asyncio
import random
import threading
import time
from nion.utils import Model, Stream
from vf import api, explore


ODD = [(2, 0), (3, None), (4, "")]     # numbers which stand for other values


def real(v):
    return next((x for k, x in ODD if k == v), v)


def number(x):
    return next((k for k, y in ODD if x is y or (type(x) is type(y) and x == y)), x if type(x) is int and x not in (2, 3, 4) else -99)


class Session:
    def __init__(self, cfg, ch):
        self.cfg, self.ch = cfg, ch
        self.log = []
        self.lock = threading.Lock()
        self.gates = []
        self.done = []
        self.oks = []
        self.noted = 0
        self.budget = cfg["inner"]

    def ev(self, **kw):
        with self.lock:
            self.log.append(kw)

    def function(self):
        k = len(self.gates) + 1
        gate, done = threading.Event(), threading.Event()
        self.gates.append(gate)
        self.done.append(done)
        v = self.ch.pick(self.cfg["values"]) if self.cfg["values"] else k
        ok = self.ch(self.cfg["fail"] + 1) == 0 or self.cfg["fail"] == 0
        self.oks.append(ok)
        self.ev(e="receive", v=v, ok=ok)
        lazy = self.ch(self.cfg["free"] + 1) if self.cfg["free"] else 0   # lazy: does not wait
        calls = []

        def fn():
            if not lazy:
                gate.wait(20)
            calls.append(1)
            self.ev(e="done" if len(calls) == 1 else "again", k=k)
            done.set()
            if not ok:
                raise ValueError("function fails")
            return real(v)
        return fn

    def pump(self, seconds):
        self.loop.run_until_complete(asyncio.sleep(seconds))

    def note(self, key):
        if key != "value":
            return
        self.noted += 1
        self.ev(e="note", v=number(self.model.value))
        if self.budget > 0 and self.ch(2) == 0:
            self.budget -= 1
            self.stream.value = self.function()

    def release(self, k):
        self.gates[k].set()
        if self.ch(8):
            self.pump(0)      # so that it has been started
            self.done[k].wait(0.05)
        # most probably, the model takes the value now
        end = time.monotonic() + (0.03 if self.oks[k] else 0.002)
        n = self.noted
        if self.ch(4):
            self.pump(0)
            while self.noted == n and time.monotonic() < end and not all(self.oks[j] is False or j < k for j in range(len(self.oks)) if self.done[j].is_set()):
                self.pump(0.0005)

    def run(self):
        self.loop = asyncio.new_event_loop()
        self.loop.set_exception_handler(lambda loop, context: None)
        try:
            with api.time_limit(api.STEP_LIMIT):
                m = self.cfg.get("mod", 0)
                self.stream = Stream.ValueStream(self.function())
                self.model = Model.FuncStreamValueModel(self.stream, self.loop, value=real(self.cfg["init"]), **({"cmp": lambda a, b: a % m == b % m} if m else {}))
                listener = self.model.property_changed_event.listen(self.note)
                self.ev(e="read", v=number(self.model.value))
                for _ in range(self.cfg["ops"]):
                    waiting = [k for k in range(len(self.gates)) if not self.gates[k].is_set()]
                    o = self.ch(3)
                    if o == 0 and len(self.gates) < self.cfg["fns"]:
                        self.stream.value = self.function()
                    elif o == 1 and waiting:
                        self.release(self.ch.pick(waiting))
                    else:
                        self.pump(0)
                        self.ev(e="read", v=number(self.model.value))
                while True:
                    waiting = [k for k in range(len(self.gates)) if not self.gates[k].is_set()]
                    if not waiting:
                        break
                    self.pump(0)
                    self.release(self.ch.pick(waiting))
                self.budget = 0
                for g in self.gates:
                    g.set()
                if self.ch(2) and hasattr(self.model, "_run_until_complete"):
                    self.model._run_until_complete()
                    self.ev(e="complete", v=number(self.model.value))
                while any(not g.is_set() for g in self.gates) or asyncio.all_tasks(self.loop):
                    for g in self.gates:
                        g.set()
                    self.pump(0.0005)
                if hasattr(self.model, "_run_until_complete"):
                    self.model._run_until_complete()
                self.ev(e="complete", v=number(self.model.value))
                listener.close()
                self.model.close()
        except api.Machinery:
            raise
        except api.Hang:
            self.ev(e="hang")
        except Exception as e:
            self.ev(e="exc", what=repr(e)[:200])
        finally:
            for g in self.gates:
                g.set()
            try:
                self.loop.run_until_complete(self.loop.shutdown_default_executor())
                self.loop.close()
            except Exception:
                pass
        return {"cfg": {"init": self.cfg["init"], "mod": self.cfg.get("mod", 0)}, "evs": self.log}


def rec(p):
    api.quiet()
    import logging
    logging.disable(logging.CRITICAL)
    res = []
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            res.append(Session(q, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res)}
