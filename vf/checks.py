"""One function per property."""
import json
import os
from vf.core import Violation, MachineryError

CHECKS = {}
NOTES = {}


def check(prop):
    def deco(fn):
        CHECKS[prop] = fn
        return fn
    return deco


def trace_cfg(extra="", inv=True):
    return "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Reached\nPOSTCONDITION Accept\n%s%s" % ("INVARIANT TInv\n" if inv else "", extra)


class EdgeFile:
    def __init__(self, ctx, name):
        self.path = os.path.join(ctx.tmp, name + ".edges")
        self.f = open(self.path, "w")
        self.n = 0

    def __call__(self, edge):
        self.f.write(json.dumps(edge) + "\n")
        self.n += 1

    def done(self):
        self.f.close()
        return self.path


def note_replay(ctx, what, module, res):
    for r in res if isinstance(res, list) else [res]:
        ctx.coverage["conformance"].append(dict(what=what + " (replay of every state and input of the model)", module=module, **r))
        ctx.coverage["traces_validated_against_impl"] += r["walks"]


@check("C11")
def c11(ctx):
    edges = EdgeFile(ctx, "selection")
    n = ctx.pick(3, 4)
    ctx.model_check("SelectionMC", "SPECIFICATION Spec\nCONSTANT N = %d\nVIEW St\nCONSTRAINT Bounded\nACTION_CONSTRAINT Emit\nINVARIANT StyleOk\n"
                    "PROPERTY KeepSingle\nPROPERTY FireIffChanged\nCHECK_DEADLOCK FALSE" % n, edges=edges, timeout=800)
    note_replay(ctx, "IndexedSelection", "SelectionMC", ctx.drive("selection:rep", {"edges": edges.done(), "seed": ctx.seed}))
    traces = ctx.drive("selection:rec", {"seed": ctx.seed, "traces": ctx.pick(1200, 6000), "length": ctx.pick(40, 80), "n": 9})
    ctx.validate("SelectionTrace", trace_cfg(), traces, what="IndexedSelection")


def event_models(ctx, runs):
    for kinds, rets, l, o, d, f in runs:
        ctx.model_check("EventsMC", "SPECIFICATION Spec\nCONSTANTS MaxL = %d MaxO = %d MaxD = %d MaxF = %d\nKinds = {%s}\nRets = {%s}\n"
                        "INVARIANTS TypeOk Snapshots CallOnce\nPROPERTIES EndComplete NoCallWhenClosed\nCHECK_DEADLOCK FALSE" % (
                            l, o, d, f, ", ".join('"%s"' % x for x in kinds), ", ".join('"%s"' % x for x in rets)), timeout=800)


def event_check(ctx, what, exhaustive, rnd):
    r = ctx.drive("events:rec", {"seed": ctx.seed, "exhaustive": exhaustive, "random": rnd})
    ctx.coverage["conformance"].append({"what": what + " (all histories of bounded size)", "enumerated": r["complete"]})
    ctx.validate("EventsTrace", trace_cfg(), r["traces"], what=what)


@check("C01")
def c01(ctx):
    event_models(ctx, [(["fire"], ["true"], 3, 0, 2, 3)] + ctx.pick([], [(["fire"], ["true"], 4, 1, 3, 4)]))
    base = dict(kinds=["fire"], rets=["true"], release=False)
    event_check(ctx, "Event.fire with listeners using the event",
                [dict(base, ops=5, listeners=3, fires=2, depth=2, inner=1, limit=ctx.pick(4000, 40000))],
                [dict(base, ops=16, listeners=6, fires=6, depth=4, inner=2, n=ctx.pick(2700, 9000)),
                 dict(base, ops=40, listeners=12, fires=10, depth=6, inner=3, n=ctx.pick(600, 3000)),
                 dict(base, ops=60, listeners=3, fires=30, depth=24, inner=1, n=ctx.pick(200, 1000)),
                 dict(base, ops=14, listeners=5, fires=5, depth=3, inner=2, trace=1, n=ctx.pick(180, 600)),
                 dict(base, release=True, ops=16, listeners=6, fires=6, depth=4, inner=2, n=ctx.pick(1200, 4000))])


@check("C02")
def c02(ctx):
    event_models(ctx, [(["any", "all", "fire"], ["true", "false", "raise"], 3, 0, 1, 2)] + ctx.pick([], [(["any", "all", "fire"], ["true", "false", "raise"], 3, 0, 2, 3)]))
    base = dict(kinds=["any", "all", "fire"], rets=["true", "false", "raise"], release=False)
    event_check(ctx, "fire_any, fire_all and failing listeners",
                [dict(base, ops=4, listeners=3, fires=2, depth=1, inner=0, limit=ctx.pick(6000, 40000)),
                 dict(base, kinds=["any", "all"], rets=["true", "false"], ops=5, listeners=3, fires=2, depth=1, inner=0, limit=ctx.pick(6000, 40000))],
                [dict(base, ops=14, listeners=6, fires=6, depth=2, inner=1, n=ctx.pick(600, 8000)),
                 dict(base, rets=["true", "true", "true", "true", "false"], kinds=["all"], ops=14, listeners=6, fires=6, depth=2, inner=1, n=ctx.pick(300, 4000)),
                 dict(base, rets=["false", "false", "false", "false", "true"], kinds=["any"], ops=14, listeners=6, fires=6, depth=2, inner=1, n=ctx.pick(300, 4000)),
                 dict(base, rets=["true"] * 18 + ["false"], kinds=["all"], ops=40, listeners=16, fires=12, depth=1, inner=0, n=ctx.pick(150, 1500)),
                 dict(base, rets=["false"] * 18 + ["true"], kinds=["any"], ops=40, listeners=16, fires=12, depth=1, inner=0, n=ctx.pick(150, 1500)),
                 dict(base, ops=14, listeners=6, fires=6, depth=2, inner=1, trace=1, n=ctx.pick(60, 600)),
                 dict(base, release=True, ops=16, listeners=6, fires=6, depth=2, inner=1, n=ctx.pick(300, 3000))])


@check("C03")
def c03(ctx):
    event_models(ctx, [(["fire"], ["true"], 3, 1, 1, 2)] + ctx.pick([], [(["fire"], ["true"], 3, 2, 2, 3)]))
    base = dict(kinds=["fire"], rets=["true"], release=True, owners=2, look=True)
    event_check(ctx, "lifetime of listeners",
                [dict(base, ops=5, owners=1, listeners=2, fires=1, depth=1, inner=0, limit=ctx.pick(3000, 30000))],
                [dict(base, ops=16, listeners=6, fires=4, depth=1, inner=0, n=ctx.pick(700, 7000)),
                 dict(base, ops=16, owners=4, listeners=6, fires=5, depth=3, inner=2, n=ctx.pick(500, 5000)),
                 dict(base, ops=60, owners=16, listeners=36, fires=8, depth=1, inner=0, n=ctx.pick(100, 1000))])


# ------------------------------------------------------------------------------------------------ lists
EDITS = {"insert": 6, "append": 3, "remove": 5, "clear": 0.3, "noise": 0.5}
CONTENT = {"attr": 6, "touch": 1}
KIDS = {"kid+": 6, "kid-": 4}
SETTINGS = {"filter": 2, "sort": 2, "reverse": 1, "mark": 0.5}
BLOCKS = {"begin": 1.5, "end": 2.2}
LONG = {"begin": 1, "end": 0.8}    # many edits between begin and end
MANY = {"insert": 6, "append": 3, "remove": 4, "attr": 2, "touch": 3}
SOURCES = {"source": 1, "close": 0.15}


def lists_check(ctx, clauses, what, runs, **kw):
    """runs: (topologies, weights, traces quick, traces thorough, length); also with big lists"""
    big = sorted({t for r in runs for t in r[0]}, key=len)
    bigs = [(big, W(*[r[1] for r in runs], begin=2.2, end=1.8) if any("begin" in r[1] for r in runs) else W(*[r[1] for r in runs]), 3 * len(big), 40 * len(big), 30)]
    for k, (topos, weights, q, th, length) in enumerate(runs + bigs):
        traces = ctx.drive("lists:rec", {"seed": ctx.seed * 31 + k, "topos": topos, "weights": weights, "traces": ctx.pick(2 * q, th),
                                         "length": ctx.pick(length, length * 2), "big": k >= len(runs), **kw})
        ctx.validate("ListsTrace", trace_cfg("CONSTANT Clauses = {%s}\n" % ", ".join('"%s"' % c for c in clauses)), traces, what=what)


def W(*ds, **kw):
    r = {}
    for d in ds:
        r.update(d)
    r.update(kw)
    return r


def lists_consts(clauses, items, attr, filters, sorts, kids, level, flat):
    return "CONSTANTS\nClauses = {%s}\nMItems = {%s}\nMAttr = {%s}\nMFilters = {%s}\nMSorts = {%s}\nMKids = {%s}\nMaxLevel = %d\nFlat = %s\n" % (
        ", ".join('"%s"' % c for c in clauses), items, attr, filters, sorts, kids, level, "TRUE" if flat else "FALSE")


def lists_model(ctx, clauses, *configs):
    """the update algorithms satisfy the clauses"""
    for c in configs:
        ctx.model_check("ListsMC", "SPECIFICATION Spec\n" + lists_consts(clauses, *c) + "INVARIANT Ok\nCHECK_DEADLOCK FALSE", timeout=850)


def lists_replay(ctx, what, clauses, items, attr, filters, sorts, kids, level, flat):
    edges = EdgeFile(ctx, "lists")
    ctx.model_check("ListsGen", "SPECIFICATION Spec\n" + lists_consts(clauses, items, attr, filters, sorts, kids, level, flat) +
                    "VIEW St\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE", edges=edges, timeout=800)
    a = min(int(x) for x in attr.split(","))
    n = max(int(x) for x in (items + ("," + kids if kids else "")).split(","))
    init = [[[], []], [[a // 10, a % 10]] * n, [[]] * 9, [0, 0], [0, 0], [False, False], [0, 0]]
    note_replay(ctx, what, "ListsGen", ctx.drive("lists:rep", {"cfg": {"flat": flat, "f": a // 10, "s": a % 10}, "edges": edges.done(), "initial": init,
                                                              "seed": ctx.seed}, timeout=600))


FILTERED = ("1, 2", "1, 11, 12", "0, 1", "0, 1", "", 1, False)
FILTERED3 = ("1, 2, 3", "1, 12", "0, 1", "0, 1", "", 1, False)
FLAT = ("1, 2", "1", "", "", "10, 11, 12", 0, True)
FLAT3 = ("1, 2, 3", "1", "", "", "10, 11, 12", 0, True)


@check("C05")
def c05(ctx):
    lists_model(ctx, ["edit"], ctx.pick(FILTERED, FILTERED3), ctx.pick(FLAT, FLAT3))
    lists_check(ctx, ["edit"], "notifications of lists", [
        (["F", "FF", "FM", "F"], W(MANY, LONG), 300, 4000, 40),
        (["F", "FF", "M", "L", "FM", "LF"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 500, 6000, 30),
        (["FFF", "MM", "MF", "FMF", "FL", "LM", "FLF", "F+F"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 500, 6000, 30)])


@check("C06")
def c06(ctx):
    lists_model(ctx, ["filtered"], ctx.pick(FILTERED, FILTERED3))
    lists_replay(ctx, "filtered list", ["filtered"], "1, 2, 3", ctx.pick("1, 12", "1, 11, 12"), "0, 1", "0, 1", "", 0, False)
    lists_replay(ctx, "filtered list with sets of changes", ["filtered"], *ctx.pick(("1, 2", "1, 12", "0, 1", "0, 1", "", 2, False), FILTERED3))
    lists_check(ctx, ["filtered"], "filtered lists", [
        (["F", "FF", "MF", "F"], W(MANY, LONG), 300, 4000, 40),
        (["F", "F", "FF", "MF", "LF"], W(EDITS, CONTENT, SETTINGS), 400, 6000, 30),
        (["F", "FF", "FFF", "MF", "LF", "FMF", "FLF", "F+F"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 700, 9000, 30)])


@check("C07")
def c07(ctx):
    lists_model(ctx, ["mapped"], ctx.pick(FILTERED, FILTERED3))
    lists_check(ctx, ["mapped"], "mapped lists", [
        (["FM", "FMF"], W(MANY, LONG), 200, 3000, 40),
        (["M", "MM", "FM", "LM"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 500, 6000, 30),
        (["MM", "FMF", "FLF", "F+F"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 400, 6000, 30)])


@check("C08")
def c08(ctx):
    lists_model(ctx, ["flattened"], ctx.pick(FLAT, FLAT3))
    lists_replay(ctx, "flattened list", ["flattened"], *ctx.pick(FLAT, FLAT3))
    lists_check(ctx, ["flattened"], "flattened lists", [
        (["L"], W(EDITS, KIDS, SOURCES), 500, 6000, 30),
        (["L", "FL", "LF", "FLF"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 500, 6000, 30)])


@check("C09")
def c09(ctx):
    lists_model(ctx, ["bracket"], ctx.pick(FILTERED, FILTERED3))
    lists_check(ctx, ["bracket"], "begin and end change events", [
        (["F", "FF", "FM"], W(MANY, LONG), 200, 3000, 40),
        (["F", "FF", "M", "FM", "MF"], W(EDITS, CONTENT, SETTINGS, BLOCKS, SOURCES), 500, 6000, 30),
        (["FFF", "MM", "FMF", "LF", "LM", "FLF", "F+F"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES), 500, 6000, 30)])


@check("C10")
def c10(ctx):
    sel = {"make": 2, "select": 6, "release": 0.3}
    lists_check(ctx, ["selection"], "selections of lists", [
        (["F", "M", "L"], W(EDITS, CONTENT, KIDS, sel, touch=0), 300, 6000, 40),
        (["FF", "FM", "MF", "LF", "FL", "LM", "FLF", "FMF"], W(EDITS, CONTENT, KIDS, sel, touch=0), 400, 6000, 40),
        (["F", "FM", "LF", "M", "L", "FL", "FMF"], W(EDITS, CONTENT, KIDS, SETTINGS, BLOCKS, SOURCES, sel), 400, 6000, 40)], preset=True, given=True)


@check("C12")
def c12(ctx):
    edges = EdgeFile(ctx, "filters")
    ctx.model_check("FiltersMC", "SPECIFICATION Spec\nVIEW St\nACTION_CONSTRAINT Emit\nINVARIANT Laws\nCHECK_DEADLOCK FALSE", edges=edges)
    note_replay(ctx, "filters of depth 2", "FiltersMC", ctx.drive("filters:rep", {"edges": edges.done(), "seed": ctx.seed}))
    traces = ctx.drive("filters:rec", {"seed": ctx.seed, "traces": ctx.pick(1500, 12000), "length": ctx.pick(15, 30)})
    ctx.validate("FiltersTrace", trace_cfg(), traces, what="filters")


@check("C13")
def c13(ctx):
    edges = EdgeFile(ctx, "bindings")
    ctx.model_check("BindingsMC", "SPECIFICATION Spec\nVIEW St\nACTION_CONSTRAINT Emit\nPROPERTIES RoundTrip Quiet\nCHECK_DEADLOCK FALSE", edges=edges)
    note_replay(ctx, "one binding", "BindingsMC", ctx.drive("bindings:rep", {"edges": edges.done(), "seed": ctx.seed}))
    traces = ctx.drive("bindings:rec", {"seed": ctx.seed, "traces": ctx.pick(2400, 10000), "length": ctx.pick(30, 50)})
    ctx.validate("BindingsTrace", trace_cfg(), traces, what="bindings")


def sessions(ctx, driver, module, what, payload):
    r = ctx.drive(driver, dict(payload, seed=ctx.seed))
    if r["complete"]:
        ctx.coverage["conformance"].append({"what": what + " (all histories of bounded size)", "enumerated": r["complete"]})
    ctx.validate(module, trace_cfg(), r["traces"], what=what)


@check("C14")
def c14(ctx):
    ctx.model_check("ModelsMC", "SPECIFICATION Spec\nCONSTANTS MaxSets = %d MaxDepth = %d\nINVARIANTS Settled LastWins Follows\nCHECK_DEADLOCK FALSE" % ctx.pick((3, 2), (5, 3)))
    sessions(ctx, "models:rec", "ModelsTrace", "property and stream value models", {
        "exhaustive": [{"values": [-1, 0, 1, 10], "sets": 2, "depth": 2, "other": 0, "limit": ctx.pick(400, 4000)}],
        "random": [{"values": [-1, 0, 0, 1, 2, 10, 11, 20, 30], "sets": 8, "depth": 3, "other": 6, "n": ctx.pick(1500, 15000)}]})


def structured(ctx, clause, what, weights):
    for items, closed in ctx.pick([(2, 3)], [(2, 4), (3, 0)]):
        edges = EdgeFile(ctx, "structured")
        ctx.model_check("StructuredMC", "SPECIFICATION Spec\nCONSTANTS Clauses = {\"events\", \"dict\"}\nMaxItems = %d\nMaxClosed = %d\nVIEW St\nACTION_CONSTRAINT Emit\nINVARIANT RoundTrip\nPROPERTY Upward\nCHECK_DEADLOCK FALSE" % (items, closed), edges=edges, timeout=1800)
        if clause == "events":
            note_replay(ctx, what, "StructuredMC", ctx.drive("structured:rep", {"edges": edges.done(), "seed": ctx.seed}))
    traces = ctx.drive("structured:rec", {"seed": ctx.seed, "traces": ctx.pick(2100, 7000), "length": ctx.pick(40, 70), "weights": weights})
    ctx.validate("StructuredTrace", trace_cfg('CONSTANT Clauses = {"%s"}\n' % clause), traces, what=what)


@check("C15")
def c15(ctx):
    structured(ctx, "events", "changes of structured models", [3, 0.5, 0, 10, 5, 2, 3, 2, 0.5, 2, 0.7, 0])


@check("C16")
def c16(ctx):
    structured(ctx, "dict", "structured models and dicts", [6, 4, 3, 6, 4, 0, 2, 0, 0.3, 6, 0.3, 2])


def persistence(ctx, clause, what, weights, replay=True):
    n, values = ctx.pick((3, "2"), (3, "0, 2"))
    edges = EdgeFile(ctx, "persistence")
    ctx.model_check("PersistenceMC", 'SPECIFICATION Spec\nCONSTANTS Clauses = {"storage", "registry", "modified", "roundtrip"}\nN = %d\nValues = {%s}\nVIEW St\n'
                    'ACTION_CONSTRAINT Emit\nINVARIANTS Mirrors Tree\nCHECK_DEADLOCK FALSE' % (n, values), edges=edges, timeout=800)
    if replay:
        note_replay(ctx, what, "PersistenceMC", ctx.drive("persistence:rep", {"edges": edges.done(), "seed": ctx.seed, "n": n, "values": values}, timeout=800))
    traces = ctx.drive("persistence:rec", {"seed": ctx.seed, "traces": ctx.pick(900, 5000), "length": ctx.pick(55, 90), "weights": weights, "wide": ctx.pick(24, 200)})
    ctx.validate("PersistenceTrace", trace_cfg('CONSTANT Clauses = {"%s"}\n' % clause), traces, what=what)


# weights: new, setp, setro, get, seti, ins, rem, ctx, sub, write, read, copy, req, load
@check("C17")
def c17(ctx):
    persistence(ctx, "storage", "storage of persistent objects", [4, 10, 0, 0, 4, 8, 4, 2, 0, 0, 0.3, 0.5, 2, 2])


@check("C18")
def c18(ctx):
    persistence(ctx, "roundtrip", "writing, reading and copying persistent objects", [3, 8, 0, 0, 4, 6, 2, 1, 0, 2, 3, 3, 0, 2], replay=False)


@check("C19")
def c19(ctx):
    persistence(ctx, "registry", "contexts of persistent objects", [3, 1, 0, 0, 4, 7, 4, 3, 4, 0, 0, 0.5, 0, 2])


@check("C20")
def c20(ctx):
    persistence(ctx, "modified", "modification of persistent objects", [3, 10, 1, 5, 3, 6, 3, 1, 0, 1, 0.3, 0.5, 0, 1])


def streams(ctx, clause, what, payload):
    ctx.model_check("StreamsMC", 'SPECIFICATION Spec\nCONSTANTS Clauses = {"values", "refs"}\nMaxOps = %d\nINVARIANTS Consistent Alive\nCHECK_DEADLOCK FALSE' % ctx.pick(2, 3), timeout=850)
    r = ctx.drive("streams:rec", dict(payload, seed=ctx.seed))
    ctx.coverage["conformance"].append({"what": what + " (all histories of bounded size)", "enumerated": r["complete"]})
    ctx.validate("StreamsTrace", trace_cfg('CONSTANT Clauses = {"%s"}\n' % clause), r["traces"], what=what)


@check("C21")
def c21(ctx):
    kinds = ["map", "comb", "comb", "prop", "concat", "concat"]
    ex = dict(obj=[3, 4], values=True, refs=False, props=False, range=[-1, 1, 3], ops=3, limit=ctx.pick(700, 5000))
    streams(ctx, "values", "values of derived streams", {
        "exhaustive": [dict(ex, plan=[["value", [], 0, 1, False], ["value", [], 0, -1, False], ["map", [1], 0, -1, False], ["comb", [3, 1, 2], 0, -1, False], ["concat", [2, 1, 3], 1, -1, False]]),
                       dict(ex, props=True, plan=[["value", [], 0, 1, True], ["prop", [1], 0, -1, False], ["prop", [-1], 0, -1, False], ["comb", [2, 3], 1, -1, False]])],
        "random": [dict(kinds=kinds, sizes=[2, 3, 4], ops=12, values=True, refs=False, n=ctx.pick(1400, 7000)),
                   dict(kinds=kinds, sizes=[3, 5, 6], deep=1, ops=12, values=True, refs=True, n=ctx.pick(1400, 7000)),
                   dict(kinds=["comb", "comb", "concat"], sizes=[1, 2], wide=4, ops=20, values=True, refs=False, n=ctx.pick(200, 1500))]})


@check("C23")
def c23(ctx):
    kinds = ["map", "comb", "prop", "concat", "concat", "model", "deb", "samp"]
    streams(ctx, "refs", "references of streams", {
        "exhaustive": [dict(obj=[3, 4], values=False, refs=True, props=False, range=[-1, 1, 2], ops=4, limit=ctx.pick(700, 5000),
                            plan=[["value", [], 0, 1, False], ["value", [], 0, -1, False], ["map", [1], 0, -1, False], ["concat", [2, 1, 3], 1, -1, False]])],
        "random": [dict(kinds=kinds, sizes=[2, 3, 4, 6], ops=14, values=False, refs=True, n=ctx.pick(3000, 15000)),
                   dict(kinds=["concat", "concat", "map", "model"], sizes=[2, 3], ops=14, values=False, refs=True, n=ctx.pick(1000, 5000)),
                   dict(kinds=["comb", "concat"], sizes=[1, 2], wide=4, ops=30, values=False, refs=True, n=ctx.pick(200, 1500))]})


@check("C22")
def c22(ctx):
    ctx.model_check("TimedMC", 'SPECIFICATION Spec\nCONSTANTS MaxTime = %d\nPeriod = 3\nMaxStreams = %d\nINVARIANTS InTime Delivered OnePerPeriod Progress\nPROPERTY AfterClose\n'
                    'CHECK_DEADLOCK FALSE' % ctx.pick((6, 1), (6, 2)), timeout=850)
    ex = dict(ops=3, reactions=2, close=True, same=True, inside=True, gaps=[0, 5, 8, 11], limit=ctx.pick(1500, 15000))
    r = ctx.drive("timed:rec", {"seed": ctx.seed, "exhaustive": [dict(ex, streams=[["deb", 8]]), dict(ex, streams=[["samp", 8]])],
                                "random": [dict(periods=[8, 16, 64], count=[1], ops=12, reactions=4, close=True, same=True, inside=True, gaps=[0, 1, 3, 8, 8, 20, 70], n=ctx.pick(1000, 10000)),
                                           dict(periods=[8, 12, 16, 64], count=[2, 3], ops=14, reactions=5, close=True, same=True, inside=True, gaps=[0, 1, 3, 4, 8, 20], n=ctx.pick(700, 7000)),
                                           dict(periods=[8, 12, 64], count=[1, 2], ops=30, reactions=12, close=False, same=True, inside=True, gaps=[0, 1, 3, 4, 8, 20], n=ctx.pick(300, 3000)),
                                           dict(periods=[8, 200, 640, 4096], count=[1, 2], ops=12, reactions=4, close=True, same=True, inside=True, gaps=[0, 1, 60, 200, 640, 5000], n=ctx.pick(200, 2000))]})
    ctx.coverage["conformance"].append({"what": "debounced and sampled streams (all histories of bounded size)", "enumerated": r["complete"]})
    ctx.validate("TimedTrace", trace_cfg(), r["traces"], what="debounced and sampled streams")
    ctx.model_check("SamplingMC", "SPECIFICATION Spec\nCONSTANTS NThreads = %d\nMaxCalls = %d\nINVARIANTS Same Fires Delivered\nCHECK_DEADLOCK FALSE" % ctx.pick((2, 3), (3, 5)), timeout=800)
    threaded(ctx, "sampling", "SamplingTrace", "sampled streams changed by threads", [
        {"programs": [[["tick"], ["tick"]], [["change", 1], ["change", 2]]]},
        {"programs": [[["tick"], ["close"]], [["change", 1]]]}], scale=0.6)


def threaded(ctx, kind, module, what, fixed, constants="", scale=1.0, long=()):
    """programs of several threads, each under many schedules; long: longer programs under few schedules"""
    s = lambda q, t: max(1, int(ctx.pick(q, t) * scale))
    r = ctx.drive("threads:rec", {"seed": ctx.seed, "kind": kind, "fixed": fixed, "long": list(long), "fixed_bound": ctx.pick(2, 3), "fixed_limit": s(800, 8000),
                                  "programs": s(110, 500), "bound": 1, "limit": s(60, 200), "randoms": s(25, 80), "big": ctx.pick(0, 1)}, timeout=800)
    ctx.coverage["conformance"].append({"what": what + " (schedules of fixed programs)", "enumerated": r["fixed"]})
    ctx.validate(module, trace_cfg(constants), r["traces"], what=what)


@check("C24")
def c24(ctx):
    ctx.model_check("RefCountMC", "SPECIFICATION Spec\nCONSTANTS NThreads = 3\nMaxCalls = %d\nStart = 1\nINVARIANTS Counts Once\nCHECK_DEADLOCK FALSE" % ctx.pick(5, 7), timeout=800)
    threaded(ctx, "refcount", "RefCountTrace", "reference counting by threads", [
        {"count": 1, "programs": [["add", "remove"], ["remove", "count"]], "inside": []},
        {"count": 2, "programs": [["remove"], ["remove"], ["block"]], "inside": []},
        {"count": 1, "programs": [["remove"], ["block", "count"]], "inside": ["add", "remove"]}],
        long=[{"count": 1, "programs": [["add"] * 40 + ["count"] + ["remove"] * 40 + ["count", "remove", "count"]], "inside": []},
              {"count": 30, "programs": [["remove"] * 15 + ["count"], ["remove"] * 15 + ["count"]], "inside": []},
              {"count": 0, "programs": [["add", "add", "remove"] * 10 + ["remove"] * 8, ["block"] * 12], "inside": []}])


@check("C28")
def c28(ctx):
    ctx.model_check("PromisesMC", "SPECIFICATION Spec\nCONSTANTS NThreads = 3\nMaxCalls = %d\nINVARIANTS Once Kept\nPROPERTY Same\nCHECK_DEADLOCK FALSE" % ctx.pick(4, 6), timeout=800)
    threaded(ctx, "promises", "PromisesTrace", "promises read by threads", [
        {"programs": [["value", "has"], ["value", "opt"]], "results": [5], "inside": False},
        {"programs": [["value"], ["opt", "has", "value"]], "results": [-2, 6], "inside": False},
        {"programs": [["value", "value"], ["value"]], "results": [-1], "inside": False}],
        long=[{"programs": [["value"] * 9 + ["has", "opt"] + ["value"] * 9], "results": [-2] * 7 + [0], "inside": True},
              {"programs": [["value", "has"] * 5, ["value", "opt"] * 5], "results": [-2] * 6 + [5], "inside": False},
              {"programs": [["value", "opt"]] * 5, "results": [-2, -2, 0], "inside": False}])


@check("C25")
def c25(ctx):
    for kind, calls in (("queue", ctx.pick(4, 5)), ("set", ctx.pick(4, 6))):
        ctx.model_check("TasksMC", 'SPECIFICATION Spec\nCONSTANTS NThreads = %d\nMaxCalls = %d\nKind = "%s"\nINVARIANTS Once NotDropped Kept\nCHECK_DEADLOCK FALSE' % (ctx.pick(2, 3), calls, kind), timeout=800)
    p, f = ["put", 1, 0], ["put", 1, 1]
    threaded(ctx, "tasks", "TasksTrace", "task queues and sets used by threads", [
        {"programs": [[p, p, "perform"], [p, "perform"]]},
        {"programs": [[p, f, p, "perform"], ["clear"], ["join"]]},
        {"programs": [[["sadd", 1, 0], ["sadd", 1, 0], "sperform"], [["sadd", 1, 0], ["sclear", 1, 0], "sperform"]]}],
        long=[{"programs": [[p] * 40 + ["perform"]]}, {"programs": [[p] * 30 + ["clear"] + [p] * 20 + ["perform", "join"]]},
              {"programs": [[p] * 6 + ["perform"] * 2, [p] * 6 + ["join"]]}, {"programs": [[p] * 25 + [f] + [p] * 5 + ["perform", "perform"]]},
              {"programs": [[["sadd", k, 0] for k in range(1, 31)] + [["sclear", 25, 0], ["sadd", 20, 0], "sperform", "sperform"]], "keys": 30}])


@check("C26")
def c26(ctx):
    for w, n, c in ctx.pick([(0, 2, 4), (2, 2, 4)], [(0, 2, 5), (1, 2, 5), (2, 2, 5)]):
        ctx.model_check("PoolMC", "SPECIFICATION Spec\nCONSTANTS NThreads = %d\nNWorkers = %d\nMaxCalls = %d\nINVARIANTS Once None Quiet\nPROPERTY Complete\nCHECK_DEADLOCK FALSE" % (n, w, c), timeout=800)
    f, r = ["queue", 0, []], ["queue", 1, []]
    threaded(ctx, "pool", "PoolTrace", "thread pools", [
        {"workers": 1, "programs": [[f, ["close"]], [f]]},
        {"workers": 2, "programs": [[r, f], [f]]},
        {"workers": 2, "programs": [[["queue", 2, []], f], [["queue", 2, []]]]},
        {"workers": 1, "programs": [[["close"], f], [["queue", 0, [f]]]]},
        {"workers": 0, "programs": [[f, f, ["close"]], [["runone"], ["runall"]]]}], scale=0.7,
        long=[{"workers": 0, "programs": [[f] * 25 + [["runone"]] * 3 + [["runall"]]]}, {"workers": 1, "programs": [[f] * 14]},
              {"workers": 2, "programs": [[f, r, f] * 2]}, {"workers": 1, "programs": [[f] * 10 + [["close"]] + [f] * 2]},
              {"workers": 4, "programs": [[["queue", 2, []]] * 4]}, {"workers": 6, "programs": [[["queue", 2, []]] * 6]},
              {"workers": 4, "starts": [1, 3], "programs": [[["queue", 2, []]] * 4]}, {"workers": 0, "programs": [[r] * 20 + [["runall"]]]}])


@check("C27")
def c27(ctx):
    ctx.model_check("DispatcherMC", "SPECIFICATION Spec\nCONSTANTS NThreads = 2\nMaxCalls = %d\nInterval = 2\nMaxTime = %d\nINVARIANTS Order Quiet\nPROPERTY AfterClose\nCHECK_DEADLOCK FALSE" % ctx.pick((4, 4), (5, 6)), timeout=800)
    d = dict(interval=16, sleep=0, again=[], fails=[])
    threaded(ctx, "dispatcher", "DispatcherTrace", "thread dispatchers", [
        dict(d, programs=[["wait", "close"], ["trigger"]]),
        dict(d, programs=[["trigger", "close"], ["wait"]], fails=[1]),
        dict(d, programs=[["trigger", "wait"], ["trigger", "wait"]], sleep=5),
        # a trigger or close just when the interval ends
        dict(d, programs=[["trigger", ["sleep", 1], "trigger", ["sleep", 15], "close"]]),
        dict(d, programs=[["wait", "trigger", ["sleep", 16], "trigger", ["sleep", 5]], [["sleep", 16], "wait", "close"]])], scale=0.7,
        long=[dict(d, programs=[["trigger", ["sleep", 5]] * 20 + ["wait", "close"]]), dict(d, programs=[["trigger"] * 25 + ["wait"] * 6]),
              dict(d, programs=[["wait"] * 12], fails=[2, 3, 9]), dict(d, programs=[["wait"] * 10 + ["trigger", "wait", "close"]], fails=list(range(1, 10))),
              dict(d, programs=[["wait"]] * 6), dict(d, programs=[["wait", ["sleep", 3]] * 6, ["trigger", ["sleep", 7]] * 8], sleep=20)])


@check("C04")
def c04(ctx):
    ctx.model_check("ThreadedEventsMC", "SPECIFICATION Spec\nCONSTANTS NThreads = 2\nNListeners = %d\nMaxCalls = %d\nCHECK_DEADLOCK FALSE" % ctx.pick((3, 5), (3, 6)), timeout=800)
    f, li, c, r = ["fire", 0, []], ["listen", 0, []], ["close", 0, []], ["release", 0, []]
    threaded(ctx, "events", "ThreadedEventsTrace", "events used by threads", [
        {"start": 2, "programs": [[f, f], [li, c]]},
        {"start": 2, "programs": [[f], [r, li]]},
        {"start": 1, "programs": [[r], [f, li], [f]]}],
        long=[{"start": 24, "programs": [[f, c, f], [["close", 20, []], f, li]]}, {"start": 0, "programs": [[li] * 30 + [f, f], [f, ["release", 3, []]]]},
              {"start": 12, "programs": [[c] * 10 + [f], [f] * 3]}])


@check("C35")
def c35(ctx):
    ctx.model_check("ThreadedListsMC", "SPECIFICATION Spec\nCONSTANTS NThreads = 2\nNItems = %d\nMaxCalls = %d\nINVARIANTS Calm Level\nCHECK_DEADLOCK FALSE" % ctx.pick((2, 4), (2, 5)), timeout=800)
    start = [["insert", 0, 0], ["insert", 1, 0], ["insert", 2, 0]]
    threaded(ctx, "lists", "ThreadedListsTrace", "filtered lists used by threads", [
        {"start": start, "programs": [[["filter", 1, 0]], [["insert", 4, 3]]]},
        {"start": start, "programs": [[["set", 0, [["filter", 1, 0]]]], [["with", 0, [["insert", 4, 3]]]]]},
        {"start": start + [["sort", 1, 0]], "programs": [[["s", 1, 4]], [["insert", 5, 3], ["reverse", 1, 0]]]}], scale=0.7,
        long=[])


@check("C29")
def c29(ctx):
    for d, c in ctx.pick([(1, 5), (3, 3)], [(1, 7), (3, 4)]):
        ctx.model_check("RegistryMC", "SPECIFICATION Spec\nCONSTANTS NC = 2\nNT = 2\nMaxDepth = %d\nMaxCalls = %d\nINVARIANTS Told BestOk Undo\nCHECK_DEADLOCK FALSE" % (d, c), timeout=800)
    r = ctx.drive("registry:rec", {"seed": ctx.seed,
                                   "exhaustive": [dict(prio=[-1, 240], types=2, sets=[[1], [1, 2]], prios=False, ops=3, inner=1, depth=2, looks=True, limit=ctx.pick(3000, 30000))],
                                   "random": [dict(types=3, sets=[[1], [2], [1, 2], [1, 2, 3]], prios=True, ops=25, inner=0, depth=1, looks=True, n=ctx.pick(900, 3000)),
                                              dict(types=3, sets=[[1], [2], [1, 3], [2, 3]], prios=True, ops=25, inner=12, depth=3, looks=True, n=ctx.pick(1500, 5000))]})
    ctx.coverage["conformance"].append({"what": "registry (all histories of bounded size)", "enumerated": r["complete"]})
    ctx.validate("RegistryTrace", trace_cfg(), r["traces"], what="component registry")


@check("C30")
def c30(ctx):
    for n, m in ctx.pick([(2, 5), (3, 4)], [(2, 6), (3, 5), (4, 4)]):
        ctx.model_check("RecorderMC", "SPECIFICATION Spec\nCONSTANTS NObjs = %d\nMaxOps = %d\nINVARIANTS Reproduces Forest\nCHECK_DEADLOCK FALSE" % (n, m), timeout=800)
    r = ctx.drive("recorder:rec", {"seed": ctx.seed,
                                   "random": [dict(first=2, objs=4, before=0, ops=6, recs=2, copies=3, n=ctx.pick(3000, 20000)),
                                              dict(first=3, objs=8, before=10, ops=25, recs=3, copies=4, n=ctx.pick(800, 6000)),
                                              dict(first=5, objs=8, before=12, ops=20, recs=1, copies=4, wide=3, n=ctx.pick(600, 5000)),
                                              dict(first=6, objs=14, before=40, ops=60, recs=4, copies=8, n=ctx.pick(120, 1000)),
                                              dict(first=24, objs=30, before=30, ops=140, recs=1, copies=4, wide=3, n=ctx.pick(50, 400))]})
    ctx.validate("RecorderTrace", trace_cfg(), r["traces"], what="recorders")


@check("C31")
def c31(ctx):
    for mod in (0, 10):
        ctx.model_check("FuncModelMC", "SPECIFICATION FairSpec\nCONSTANTS MaxFns = %d\nMod = %d\nINVARIANT EndsUp\nPROPERTIES Forward Ends\nCHECK_DEADLOCK FALSE" % (ctx.pick(3, 4), mod), timeout=1800)
    r = ctx.drive("funcmodel:rec", {"seed": ctx.seed,
                                    "random": [dict(init=1000, fns=3, ops=5, inner=0, fail=0, free=0, values=[], n=ctx.pick(150, 2000)),
                                               dict(init=1000, fns=4, ops=10, inner=1, fail=1, free=2, values=[], n=ctx.pick(300, 4000)),
                                               dict(init=1, fns=6, ops=14, inner=2, fail=2, free=0, values=[1, 2, 3], n=ctx.pick(200, 3000)),
                                               dict(init=11, fns=5, ops=12, inner=1, fail=1, free=1, mod=10, values=[11, 12, 21, 22], n=ctx.pick(150, 2000)),
                                               dict(init=3, fns=5, ops=12, inner=1, fail=2, free=1, values=[1, 2, 3, 4, 6], n=ctx.pick(150, 2000))]})
    ctx.validate("FuncModelTrace", trace_cfg(), r["traces"], what="function stream models")


@check("C34")
def c34(ctx):
    ctx.model_check("LoopCloseMC", "SPECIFICATION Spec\nCONSTANTS MaxTasks = %d\nMaxLen = %d\nINVARIANT AtEnd\nPROPERTY Closes\nCHECK_DEADLOCK FALSE" % ctx.pick((2, 1), (2, 2)), timeout=800)
    r = ctx.drive("loopclose:rec", {"seed": ctx.seed,
                                    "random": [dict(tasks=3, steps=2, ops=6, submit=0, current=False, n=ctx.pick(1200, 5000)),
                                               dict(tasks=5, steps=4, ops=12, submit=1, current=False, n=ctx.pick(900, 4000)),
                                               dict(tasks=3, steps=2, ops=5, submit=1, current=True, n=ctx.pick(300, 2000)),
                                               dict(tasks=60, burst=50, steps=4, ops=6, submit=0, current=False, n=ctx.pick(20, 200))]})
    ctx.validate("LoopCloseTrace", trace_cfg(), r["traces"], what="closing event loops")


@check("C32")
def c32(ctx):
    ctx.model_check("GeometryMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nM = %d\nINVARIANTS Inter Unite Smallest MeetLaw CenterLaw MoveLaw Commutes Absorbs\nCHECK_DEADLOCK FALSE" % ctx.pick((1, 3), (2, 4)), timeout=800)
    r = ctx.drive("geometry:small", {"n": ctx.pick(2, 3), "half": ctx.pick(True, False)})
    ctx.validate("GeometryTrace", trace_cfg(), r["traces"], what="small rectangles")
    n = ctx.pick(60, 600)
    r = ctx.drive("geometry:rec", {"seed": ctx.seed, "random": [dict(kind=k, span=s, signed=g, events=200, n=n) for k in ("int", "float") for s, g in ((4, False), (40, True), (350, True))]})
    ctx.validate("GeometryTrace", trace_cfg(), r["traces"], what="geometry")


@check("C33")
def c33(ctx):
    ctx.model_check("ConvertersMC", "SPECIFICATION Spec\nCONSTANT MaxInt = %d\nINVARIANT Undo\nCHECK_DEADLOCK FALSE" % ctx.pick(300, 3000), timeout=800)
    r = ctx.drive("converters:rec", {"seed": ctx.seed, "n": ctx.pick(400, 3000), "events": 120})
    ctx.validate("ConvertersTrace", trace_cfg(), r["traces"], what="converters")


@check("C36")
def c36(ctx):
    ctx.model_check("TickersMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nStep = 100\nINVARIANTS Chosen Cover Count Least\nCHECK_DEADLOCK FALSE" % ctx.pick(50, 250), timeout=800)
    n = ctx.pick(150, 1000)
    r = ctx.drive("tickers:rec", {"seed": ctx.seed, "random": [dict(spans=s, exps=e, events=60, n=n) for s, e in (
        ([12], [0, -1, -2, -3]), ([99, 1000], [-14, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20]), ([100000, 1000000], [-12, -8, -7, -6, -3, 0, 3, 9]))]})
    ctx.validate("TickersTrace", trace_cfg(), r["traces"], what="tickers")


@check("C37")
def c37(ctx):
    objs = [0, 1]
    edges = EdgeFile(ctx, "observables")
    ctx.model_check("ObservablesMC", "SPECIFICATION Spec\nCONSTANTS MaxListeners = %d\nNObjs = 2\nVIEW St\nACTION_CONSTRAINT Emit\nPROPERTY Each\nCHECK_DEADLOCK FALSE" % ctx.pick(2, 3), edges=edges, timeout=800)
    note_replay(ctx, "observable objects", "ObservablesMC", ctx.drive("observables:rep", {"edges": edges.done(), "seed": ctx.seed, "objs": objs}))
    traces = ctx.drive("observables:rec", {"seed": ctx.seed, "traces": ctx.pick(2100, 6000), "length": ctx.pick(60, 120)})
    ctx.validate("ObservablesTrace", trace_cfg(), traces, what="observable objects")
