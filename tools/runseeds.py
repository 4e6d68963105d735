"""Run the checks of planted bugs against scratch copies: python3 tools/runseeds.py [id ...] (development only)."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile


def run(id):
    d = tempfile.mkdtemp(prefix="rs_")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        subprocess.check_call(["git", "-C", d + "/repo", "apply", "/verif/seeded/%s/patch.diff" % id])
        prop = json.load(open("/verif/seeded/%s/meta.json" % id))["property"]
        r = subprocess.run(["python3", "/verif/check.py", prop] + EXTRA, env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED=SEED), capture_output=True, text=True)
        return id, prop, r.returncode, r.stdout.strip()[-400:]
    finally:
        shutil.rmtree(d)


EXTRA = []
SEED = os.environ.get("VERIF_SEED", "1")
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for id, prop, rc, out in ex.map(run, ids):
        print({1: "CAUGHT", 0: "MISSED"}.get(rc, "ERROR"), id, prop, out.splitlines()[0][:200] if rc != 2 else out, flush=True)
