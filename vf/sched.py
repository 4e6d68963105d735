"""A scheduler for the threads of the code under test: one runs at a time, and it can be preempted before every
bytecode of nion.utils that touches shared state and at every operation of a lock, condition, event or queue. The
primitives of `threading` and the clock are replaced (install(), before nion.utils is imported). Time is virtual."""
import dis
import gc
import os
import random
import sys
import threading
import time
import _thread
from vf import api

_real_get_ident = threading.get_ident

current = None   # the Sched which is running
SCOPE = None


class Abort(BaseException):
    pass


class Task:
    def __init__(self, name, fn, client):
        self.name = name
        self.fn = fn
        self.client = client
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.traced = False    # in a trace function, where no exception may be raised (CPython crashes)
        self.error = None


class Sched:
    def __init__(self, chooser, limit=60000):
        self.chooser = chooser
        self.tasks = []
        self.cur = None
        self.clock = 1000.0
        self.steps = 0
        self.limit = limit
        self.aborting = False
        self.result = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.by_ident = {}

    # ------------------------------------------------------------ tasks
    def spawn(self, name, fn, client=True):
        t = Task(name, fn, client)
        self.tasks.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.gate.acquire()
        self.by_ident[_real_get_ident()] = t
        try:
            if not self.aborting:
                sys.settrace(tracer)
                t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
        t.done = True
        if self.aborting:
            self.main.release()
            return
        self._next(None)

    def me(self):
        return self.by_ident.get(_real_get_ident())

    def enabled(self):
        r = []
        for t in self.tasks:
            if not t.done and (t.pred is None or t.timed_out or t.pred()):
                r.append(t)
        return r

    def _finish(self, result):
        self.result = result
        self.main.release()

    def _next(self, me):
        """choose who goes on; me: the caller, None if it has ended"""
        self.steps += 1
        if self.steps > self.limit:
            self._finish("limit")
            self._wait(me)
            return
        en = self.enabled()
        while not en:
            waiting = [t for t in self.tasks if not t.done and t.deadline is not None and not t.timed_out]
            if not waiting:
                self._finish("quiet")
                self._wait(me)
                return
            self.pass_time(min(t.deadline for t in waiting))
            en = self.enabled()
        t = self.chooser.choose(self, me, en)
        self.cur = t
        if t is not me:
            t.gate.release()
            self._wait(me)

    def pass_time(self, to):
        self.clock = max(self.clock, to)
        for t in self.tasks:
            if not t.done and t.deadline is not None and t.deadline <= self.clock:
                t.timed_out = True

    def _wait(self, me):
        if me is None:
            return
        me.gate.acquire()
        if self.aborting:
            raise Abort()

    def point(self):
        """a place where the running thread can be preempted"""
        if self.aborting:
            return
        me = self.me()
        if me is not None:
            self._next(me)

    def block_until(self, pred, timeout=None):
        me = self.me()
        if self.aborting:
            if me is None or pred():
                return True
            raise Abort()
        if me is None:
            if not pred():
                raise api.Machinery("the driver itself would block")
            return True
        me.pred = pred
        me.timed_out = False
        me.deadline = None if timeout is None else self.clock + max(0, timeout)
        if me.deadline is not None and me.deadline <= self.clock:
            me.timed_out = True
        self._next(me)
        me.pred = None
        me.deadline = None
        me.timed_out = False
        return pred()

    def run(self):
        """until no thread can go on; "quiet" or "limit" """
        global current
        if not self.tasks:
            return "quiet"
        self._next_from_main()
        self.main.acquire()
        stuck = [t for t in self.tasks if not t.done]
        self.stuck = [t.name for t in stuck if t.client]
        self.aborting = True
        for t in stuck:
            if t.traced:
                continue       # left where it is
            t.gate.release()
            self.main.acquire()
        return self.result

    def _next_from_main(self):
        en = self.enabled()
        t = self.chooser.choose(self, None, en)
        self.cur = t
        t.gate.release()

    def __enter__(self):
        global current
        if current is not None:
            raise api.Machinery("nested schedulers")
        current = self
        gc.disable()
        return self

    def __exit__(self, *a):
        global current
        current = None
        gc.enable()


# ---------------------------------------------------------------- choosers
class Stay:
    """runs a thread as long as possible, except at the given steps: {step: name of a thread}; notes alternatives"""
    def __init__(self, deviations, horizon=0, time_moves=False):
        self.dev = dict(deviations)
        self.last = max(self.dev, default=-1)
        self.alts = []
        self.n = 0

    def choose(self, s, me, en):
        k = self.n
        self.n += 1
        default = me if me in en else en[0]
        if k in self.dev:
            if self.dev[k] == "#time":       # time passes although a thread could go on
                s.pass_time(min(self.deadlines(s), default=s.clock))
                return default
            for t in en:
                if t.name == self.dev[k]:
                    return t
            return default
        if k > self.last:
            self.alts += [(k, t.name) for t in en if t is not default]
            if self.deadlines(s):
                self.alts.append((k, "#time"))
        return default

    def deadlines(self, s):
        return [t.deadline for t in s.tasks if not t.done and t.deadline is not None and not t.timed_out]


class Random:
    def __init__(self, rng, p, time_p=0.0):
        self.rng, self.p, self.time_p = rng, p, time_p

    def choose(self, s, me, en):
        if self.time_p and self.rng.random() < self.time_p:
            w = [t.deadline for t in s.tasks if not t.done and t.deadline is not None and not t.timed_out]
            if w:
                s.pass_time(min(w))
                en = s.enabled()
        if me in en and (len(en) == 1 or self.rng.random() >= self.p):
            return me
        others = [t for t in en if t is not me] or en
        return others[self.rng.randrange(len(others))]


class Pct:
    """priorities, with a few random points at which the running thread gets the lowest"""
    def __init__(self, rng, depth, length):
        self.rng = rng
        self.points = {rng.randrange(max(1, length)) for _ in range(depth)}
        self.prio = {}
        self.low = 0
        self.n = 0

    def choose(self, s, me, en):
        self.n += 1
        for t in en:
            if t.name not in self.prio:
                self.prio[t.name] = 1 + self.rng.random()
        if self.n in self.points and me is not None:
            self.low -= 1
            self.prio[me.name] = self.low
        return max(en, key=lambda t: self.prio[t.name])


# ---------------------------------------------------------------- tracing
SHARED = {"LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR", "DELETE_ATTR", "CALL", "CALL_FUNCTION_EX", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "FOR_ITER",
          "CONTAINS_OP", "STORE_GLOBAL", "STORE_DEREF", "BINARY_SLICE", "STORE_SLICE", "LOAD_SUPER_ATTR"}
_offsets = {}


def offsets(code):
    r = _offsets.get(code)
    if r is None:
        r = _offsets[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname in SHARED)
    return r


def tracer(frame, event, arg):
    if event == "call":
        code = frame.f_code
        if code.co_filename.startswith(SCOPE):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            offs = offsets(code)

            def local(frame, event, arg):
                if event == "opcode" and frame.f_lasti in offs and current is not None and not current.aborting:
                    me = current.me()
                    if me is not None:
                        me.traced = True
                        current.point()
                        me.traced = False
                return local
            return local
    return None


# ---------------------------------------------------------------- primitives
class Lock:
    def __init__(self):
        self.owner = None

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        s = current
        if s is None:
            if self.owner is not None and blocking:
                raise api.Machinery("the driver itself would block")
            ok = self.owner is None
        else:
            s.point()
            if self.owner is None:
                ok = True
            elif not blocking:
                ok = False
            else:
                ok = s.block_until(self._free, None if timeout is None or timeout < 0 else timeout)
        if ok:
            self.owner = _real_get_ident()
        return ok

    def release(self):
        if self.owner is None:
            if current is not None and current.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if current is not None:
            current.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self.owner = None
        self.count = 0

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _real_get_ident()
        if self.owner == me:
            self.count += 1
            return True
        s = current
        if s is None:
            if self.owner is not None and blocking:
                raise api.Machinery("the driver itself would block")
            ok = self.owner is None
        else:
            s.point()
            if self.owner is None:
                ok = True
            elif not blocking:
                ok = False
            else:
                ok = s.block_until(self._free, None if timeout is None or timeout < 0 else timeout)
        if ok:
            self.owner = me
            self.count = 1
        return ok

    def release(self):
        if self.owner != _real_get_ident():
            if current is not None and current.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if current is not None:
                current.point()

    def _is_owned(self):
        return self.owner == _real_get_ident()

    def _release_save(self):
        r = self.count
        self.count = 1
        self.release()
        return r

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiters = []

    def __enter__(self):
        self.lock.acquire()
        return True

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        if self.lock.owner != _real_get_ident():
            if current is not None and current.aborting:
                raise Abort()
            raise RuntimeError("cannot wait on un-acquired lock")
        if current is None:
            raise api.Machinery("the driver itself would block")
        token = [False]
        self.waiters.append(token)
        n = self.lock._release_save() if isinstance(self.lock, RLock) else self.lock.release()
        try:
            got = current.block_until(lambda: token[0], timeout)
        finally:
            if not current.aborting:
                if isinstance(self.lock, RLock):
                    self.lock._acquire_restore(n)
                else:
                    self.lock.acquire()
                if token in self.waiters:
                    self.waiters.remove(token)
        return got

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else current.clock + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - current.clock
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        if self.lock.owner != _real_get_ident():
            if current is not None and current.aborting:
                return
            raise RuntimeError("cannot notify on un-acquired lock")
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self._cond = Condition(Lock())
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            signaled = self._flag
            if not signaled:
                signaled = self._cond.wait(timeout)
            return signaled


class Semaphore:
    def __init__(self, value=1):
        self._cond = Condition(Lock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            if self._value == 0 and not blocking:
                return False
            if not self._cond.wait_for(lambda: self._value > 0, timeout):
                return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Thread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        Thread._n += 1
        self.name = name or "Thread-%d" % Thread._n
        self.daemon = bool(daemon)
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self._task = None
        self.ident = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        if current is None:
            raise api.Machinery("a thread started outside the scheduler")
        self._task = current.spawn("%s#%d" % (current.service_name, len(current.tasks)) if hasattr(current, "service_name") else "service#%d" % len(current.tasks), self.run, client=False)
        current.point()

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if current is not None:
            if current.me() is self._task:
                raise RuntimeError("cannot join current thread")
            current.block_until(lambda: self._task.done, timeout)

    def is_alive(self):
        return self._task is not None and not self._task.done

    isAlive = is_alive

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name


def virtual_time():
    return current.clock if current is not None else 1000.0


def virtual_sleep(d):
    if current is not None:
        current.block_until(lambda: False, d)


def install():
    """replace the primitives; before nion.utils is imported"""
    global SCOPE
    if any(m.startswith("nion.utils.") for m in sys.modules):
        raise api.Machinery("nion.utils was imported too early")
    import logging, queue, traceback, concurrent.futures, asyncio, weakref, tempfile  # noqa: these use the real ones
    threading.Lock, threading.RLock, threading.Condition, threading.Event = Lock, RLock, Condition, Event
    threading.Semaphore = threading.BoundedSemaphore = Semaphore
    threading.Thread = Thread
    time.time = time.monotonic = time.perf_counter = virtual_time
    time.sleep = virtual_sleep
    queue.time = virtual_time
    sys.unraisablehook = lambda *a: None
    import nion.utils
    from nion.utils import Event as E
    SCOPE = os.path.dirname(E.__file__) + os.sep


# ---------------------------------------------------------------- exploration
def schedules(scenario, rng, bound, limit, randoms):
    """scenario(chooser) -> trace (with "steps"). All schedules with at most `bound` deviations from running each thread as long as
    possible (at most `limit` runs, those with fewer deviations first), then random ones. Yields traces; returns statistics."""
    stats = {"systematic": 0, "bound": bound, "complete": True, "random": 0, "steps": 0}
    todo = [()]
    length = 1
    for depth in range(bound + 1):
        nxt = []
        for k, dev in enumerate(todo):
            if stats["systematic"] >= limit:
                stats["complete"] = False
                break
            ch = Stay(dev)
            yield scenario(ch)
            stats["systematic"] += 1
            length = max(length, ch.n)
            if depth < bound:
                nxt += [dev + (a,) for a in ch.alts]
        if not stats["complete"]:
            break
        if len(nxt) > limit:
            rng.shuffle(nxt)
        todo = nxt
    stats["steps"] = length
    for k in range(randoms):
        m = k % 4
        ch = Random(rng, [0.02, 0.1, 0.3][m], time_p=0.02 if k % 8 > 3 else 0) if m < 3 else Pct(rng, rng.randint(1, 4), length)
        yield scenario(ch)
        stats["random"] += 1
    yield stats
