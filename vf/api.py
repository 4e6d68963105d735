"""Used by drivers (which run in a subprocess, on the real code)."""
import contextlib
import io
import json
import random
import signal
import sys


class Machinery(Exception):
    pass


class Broken(Exception):
    """The code under test did something no behaviour of the specification does."""
    def __init__(self, message, replay=None):
        super().__init__(message)
        self.message = message
        self.replay = replay or {}


class Gone(Exception):
    """leaves a with statement"""


class Hang(BaseException):
    pass


def canon(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"))


def _alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def time_limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


STEP_LIMIT = 30.0


def guarded(fn, *args):
    """Call fn; its result, or a description of the exception or hang which is then the observation."""
    try:
        with time_limit(STEP_LIMIT):
            return fn(*args)
    except Hang:
        return {"exc": "Hang"}
    except Machinery:
        raise
    except Exception as e:
        return {"exc": type(e).__name__ + ": " + str(e)[:200]}


def quiet():
    """Drop what the code under test prints (tracebacks of listeners)."""
    sys.stderr = io.StringIO()


def flush_quiet():
    if isinstance(sys.stderr, io.StringIO):
        sys.stderr.seek(0)
        sys.stderr.truncate()


def record(cls, cfgs, seed, traces, length, **kw):
    """Random histories: [{"cfg":…, "evs":[{"in":…, "out":…}]}]."""
    res = []
    seen = set()
    for n in range(traces):
        rng = random.Random("%s/%s/%s" % (seed, n, cls.__name__))
        cfg = cfgs[n % len(cfgs)]
        evs = run_one(cls, cfg, rng, length, **kw)
        tr = {"cfg": cfg, "evs": evs}
        key = canon(tr)
        if key not in seen:
            seen.add(key)
            res.append(tr)
        flush_quiet()
    return res


def make(cls, cfg, **kw):
    d = guarded(lambda: cls(cfg, **kw))
    if isinstance(d, dict):
        raise Broken("setting up %s with %s: %s" % (cls.__name__, canon(cfg), d["exc"]), {"cfg": cfg})
    return d


def run_one(cls, cfg, rng, length, **kw):
    d = make(cls, cfg, **kw)
    evs = []
    try:
        for _ in range(rng.randint(max(1, length // 3), length)):
            inp = d.gen(rng)
            if inp is None:
                break
            out = guarded(d.step, inp)
            evs.append({"in": inp, "out": out})
            if "exc" in out:
                break
    finally:
        guarded(d.close)
    return evs


class Driver:
    def close(self):
        pass


class Graph:
    """State graph of a specification, as dumped by TLC: edges [state, {"in", "out"}, next state]."""
    def __init__(self):
        self.adj = {}
        self.edges = 0
        self.targets = set()

    def load(self, path, only=None):
        with open(path) as f:
            for line in f:
                s, ev, s2 = json.loads(line)
                if only is not None and canon(s[0]) != only:
                    continue
                self.add(canon(s), ev["in"], ev["out"], canon(s2))

    def add(self, s, i, o, s2):
        d = self.adj.setdefault(s, {})
        d.setdefault(canon(i), {}).setdefault(canon(o), set()).add(s2)
        self.edges += 1
        self.targets.add(s2)


def replay(cls, cfg, edges_path, initial, *, max_steps=2000000, max_walk=400, seed=1, only=None, **kw):
    """Walk the real code through every (state, input) of the graph; what it shows must label an edge."""
    g = Graph()
    g.load(edges_path, only)
    todo = {s: dict.fromkeys(d.keys()) for s, d in g.adj.items()}
    remaining = sum(len(x) for x in todo.values())
    total = remaining
    steps = walks = 0
    rng = random.Random(seed)
    init = canon(initial)
    if init not in g.adj:
        raise Machinery("initial state %s is not in the graph" % init)
    observed = {}  # (state, input) -> next states which this implementation has chosen so far

    def path_to_todo(s):
        # shortest path of inputs from s to a state with an uncovered input
        if todo.get(s):
            return []
        seen = {s: None}
        q = [s]
        for u in q:
            for i, outs in g.adj.get(u, {}).items():
                known = observed.get((u, i))
                for o, ts in outs.items():
                    for v in known if known is not None else ts:
                        if v not in seen:
                            seen[v] = (u, i)
                            if todo.get(v):
                                p = []
                                while seen[v] is not None:
                                    v, i2 = seen[v]
                                    p.append(i2)
                                return p[::-1]
                            q.append(v)
        return None

    fails = 0
    while remaining and steps < max_steps:
        d = make(cls, cfg, **kw)
        walks += 1
        states = {init}
        hist = []
        walk_new = 0
        plan = []
        while len(hist) < max_walk:
            s = min(states)
            if not plan:
                own = todo.get(s)
                if own:
                    plan = [next(iter(own))]
                else:
                    p = path_to_todo(s)
                    if p is None:
                        break
                    plan = p
            i = plan.pop(0)
            inp = json.loads(i)
            out = guarded(d.step, inp)
            steps += 1
            co = canon(out)
            hist.append({"in": inp, "out": out})
            nxt = set()
            allowed = set()
            for u in states:
                outs = g.adj.get(u, {}).get(i, {})
                allowed |= set(outs)
                nxt |= outs.get(co, set())
            if not nxt:
                guarded(d.close)
                exp = [json.loads(x) for x in sorted(allowed)][:3]
                raise Broken("after %d steps, %s shows %s; the specification allows %s" % (len(hist), i, co[:400], canon(exp)[:600]),
                             {"kind": "replay", "cfg": cfg, "history": hist, "allowed": exp})
            for u in states:
                x = g.adj.get(u, {}).get(i, {}).get(co)
                if x:
                    observed.setdefault((u, i), set()).update(x)
                if i in todo.get(u, ()):
                    del todo[u][i]
                    remaining -= 1
                    walk_new += 1
            states = nxt
            if len(states) > 1 or (plan and plan[0] not in g.adj.get(min(states), {})):
                plan = []
        guarded(d.close)
        flush_quiet()
        if walk_new == 0:
            fails += 1
            if fails > 20:
                break  # what is left cannot be reached by this implementation (it resolves a free choice differently)
        else:
            fails = 0
    return {"pairs": total, "covered": total - remaining, "steps": steps, "walks": walks, "edges": g.edges, "states": len(g.adj)}
