"""close_event_loop with outstanding tasks (spec/LoopClose.tla)."""
import asyncio
import concurrent.futures
import random
import threading
import time
from nion.utils import Process
from vf import api, explore


class Session:
    def __init__(self, cfg, ch):
        self.cfg, self.ch = cfg, ch
        self.log = []
        self.lock = threading.Lock()
        self.tasks = []
        self.futures = []
        self.cancelled = set()
        self.works = 0
        self.pool = concurrent.futures.ThreadPoolExecutor(2)

    def ev(self, **kw):
        with self.lock:
            self.log.append(kw)

    def work(self, j, ms, fail):
        def fn():
            time.sleep(ms / 1000)
            self.ev(e="finish", j=j)
            if fail:
                raise ValueError("work fails")
        return fn

    async def run_task(self, k, prog, params):
        how = "ok"
        try:
            for i, s in enumerate(prog):
                if s[0] == "exec":
                    self.works += 1
                    j = self.works
                    self.ev(e="exec", k=k, i=i + 1, j=j)
                    ms, fail, own = params[i]
                    try:
                        await asyncio.get_running_loop().run_in_executor(self.pool if own else None, self.work(j, ms, fail))
                    except ValueError:
                        pass
                    continue
                self.ev(e="step", k=k, i=i + 1)
                if s[0] == "yield":
                    await asyncio.sleep(0)
                elif s[0] == "sleep":
                    await asyncio.sleep(params[i][0] / 1000)
                elif s[0] == "wait":
                    await asyncio.wait([self.tasks[s[1] - 1]])
                elif s[0] == "fail":
                    raise RuntimeError("task fails")
        except asyncio.CancelledError:
            how = "cancelled"
            await asyncio.sleep(0.003 if k % 2 else 0)      # it cleans up
            raise
        except RuntimeError:
            how = "failed"
            raise
        finally:
            self.ev(e="end", k=k, how=how)

    def spawn(self):
        n = len(self.tasks)
        kinds = ["yield", "sleep", "exec"] + (["wait"] if n else [])
        prog, params = [], []
        for _ in range(self.ch(self.cfg["steps"] + 1)):
            s = self.ch.pick(kinds)
            prog.append([s, 0] if s == "exec" else [s, 1 + self.ch(n)] if s == "wait" else [s])
            params.append((self.ch(4), self.ch(3) == 0, self.ch(3) == 0))
        if self.ch(3) == 0:
            prog.append(["fail"])
            params.append(None)
        self.ev(e="spawn", prog=prog)
        self.tasks.append(self.loop.create_task(self.run_task(n + 1, prog, params)))

    def run(self):
        self.loop = asyncio.new_event_loop()
        self.loop.set_exception_handler(lambda loop, context: None)
        try:
            with api.time_limit(api.STEP_LIMIT):
                for _ in range(self.cfg.get("burst", 0)):
                    self.spawn()
                for _ in range(self.ch(self.cfg["ops"] + 1)):
                    o = self.ch(6)
                    if o < 3 and len(self.tasks) < self.cfg["tasks"]:
                        self.spawn()
                    elif o == 3:
                        self.loop.run_until_complete(asyncio.sleep(self.ch.pick([0, 0, 0.001, 0.002])))
                    elif o == 4 and self.tasks:
                        k = self.ch(len(self.tasks))
                        if not self.tasks[k].done() and k not in self.cancelled:
                            self.cancelled.add(k)
                            self.ev(e="cancel", k=k + 1)
                            self.tasks[k].cancel()
                    elif o == 5 and self.cfg["submit"]:
                        self.works += 1
                        self.ev(e="submit")
                        f = self.loop.run_in_executor(None, self.work(self.works, self.ch(8), self.ch(3) == 0))
                        self.futures.append(f)
                if self.cfg["current"]:
                    asyncio.set_event_loop(self.loop)
                self.ev(e="call")
                Process.close_event_loop(self.loop)
                self.ev(e="ret", closed=self.loop.is_closed(), done=all(t.done() for t in self.tasks))
        except api.Machinery:
            raise
        except api.Hang:
            self.ev(e="hang")
        except BaseException as e:
            self.ev(e="exc", what=repr(e)[:200])
        finally:
            asyncio.set_event_loop(None)
            self.pool.shutdown()
            for f in self.futures:
                if f.done() and not f.cancelled():
                    f.exception()
            if not self.loop.is_closed():
                try:
                    self.loop.run_until_complete(self.loop.shutdown_default_executor())
                    self.loop.close()
                except Exception:
                    pass
        n = len(self.log)
        return {"cfg": {"x": 0}, "evs": self.log[:n]}


def rec(p):
    api.quiet()
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    res = []
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            res.append(Session(q, explore.RandomChoice(rng)).run())
            api.flush_quiet()
    return {"traces": explore.dedupe(res)}
