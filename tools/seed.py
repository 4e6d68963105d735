"""Make a planted bug: seed(id, property, [(file, old, new)], demo, needs, breaks). Verified in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile, textwrap

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 "$PY" "$D/demo.py"
'''


def seed(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(d, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for f, old, new in edits:
            p = os.path.join(r, "nion/utils", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        out = os.path.join(d, "out")
        os.makedirs(out)
        open(os.path.join(out, "demo.py"), "w").write(textwrap.dedent(demo).lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "nion"], cwd=r,
                           env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
        assert t.returncode == 0 and "57 passed" in t.stdout, (id, "tests fail", t.stdout[-3000:])
        bad = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r, capture_output=True, text=True)
        assert bad.returncode not in (0, 124), (id, "demo passes with the bug", bad.stdout[-500:], bad.stderr[-1500:])
        good = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        assert good.returncode == 0, (id, "demo fails without", good.stdout[-500:], good.stderr[-2000:])
        dst = "/verif/seeded/" + id
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        open(dst + "/patch.diff", "w").write(patch)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dst + "/meta.json", "w"), indent=1)
        print("ok", id, (bad.stderr.strip().splitlines() or [""])[-1][:120])
    finally:
        shutil.rmtree(d)
