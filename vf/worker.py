"""Subprocess that exercises the real code. usage: python -m vf.worker module:function in.json out.json timeout"""
import faulthandler
import importlib
import json
import os
import sys
import threading
import traceback


def raised_by_code(e):
    """whether the exception comes out of a call of the code under test"""
    ours = os.path.dirname(os.path.realpath(__file__)) + os.sep
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    last = None
    for frame, _ in traceback.walk_tb(e.__traceback__):
        f = os.path.realpath(frame.f_code.co_filename)
        if f.startswith(ours):
            last = "ours"
        elif f.startswith(repo):
            last = "code"
    return last == "code"


def lines_covered(where):
    """development only: note the lines of the code under test which are executed"""
    m, seen = sys.monitoring, set()
    m.use_tool_id(1, "vf")

    def line(code, n):
        if "/nion/utils/" in code.co_filename:
            seen.add("%s:%d" % (os.path.basename(code.co_filename), n))
        return m.DISABLE
    m.register_callback(1, m.events.LINE, line)
    m.set_events(1, m.events.LINE)
    real = os._exit

    def leave(rc):
        with open(os.path.join(where, "%d.txt" % os.getpid()), "w") as f:
            f.write("\n".join(sorted(seen)))
        real(rc)
    os._exit = leave


def main():
    func, inp, out, timeout = sys.argv[1:5]
    real_timer = threading.Timer

    def too_long():
        faulthandler.dump_traceback(all_threads=True)
        os._exit(97)

    t = real_timer(float(timeout), too_long)
    t.daemon = True
    t.start()
    with open(inp) as f:
        payload = json.load(f)
    from vf import api
    if os.environ.get("VF_COV"):
        lines_covered(os.environ["VF_COV"])
    mod = None
    try:
        modname, fname = func.split(":")
        import nion.utils
        p = list(nion.utils.__path__)[0]
        repo = os.environ.get("VERIF_REPO", "/repo")
        if not os.path.realpath(p).startswith(os.path.realpath(repo) + os.sep):
            raise api.Machinery("nion.utils comes from " + p)
        mod = importlib.import_module("vf.drivers." + modname)
        res = {"status": "ok", "result": getattr(mod, fname)(payload)}
    except api.Broken as e:
        res = {"status": "violation", "message": e.message, "replay": e.replay}
    except BaseException as e:
        res = {"status": "machinery", "error": traceback.format_exc()}
        if mod is not None and isinstance(e, Exception) and not isinstance(e, (api.Machinery, MemoryError, OSError)):
            # out of a call of the code, or because of what it returned
            what = "an operation raised an exception: %r" if raised_by_code(e) else "an operation returned something unusable: %r"
            res = {"status": "violation", "message": what % e, "replay": {"kind": "exception", "traceback": res["error"]}}
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)
    sys.stdout.flush()
    os._exit(0)


main()
