"""build /verif/seeded from defs.py: python3 tools/plants/make.py [id ...] [--keep]
Every bug is tried in a scratch copy of /repo: the tests still pass, the demonstration fails with
the change and passes without it; then this framework's own check is run against the copy."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
import defs  # noqa: E402
try:
    import defs2  # noqa: E402,F401
except ImportError:
    pass


def run(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout + p.stderr


def make(b, detect=True):
    tree = "/tmp/plant-%s" % b["id"]
    dest = os.path.join(VERIF, "seeded", b["id"])
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree("/repo", tree, symlinks=True)
    try:
        os.makedirs(dest, exist_ok=True)
        shutil.copy(os.path.join(HERE, "kit.py"), dest)
        with open(os.path.join(dest, "demo.py"), "w") as f:
            f.write("import os\nimport sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                    "from kit import *\n" + b["demo"].strip("\n") + "\n")
        with open(os.path.join(dest, "demo.sh"), "w") as f:
            f.write("#!/bin/bash\nexec timeout 250 python3 -B \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        demo = ["bash", os.path.join(dest, "demo.sh")]
        rc, out = run(demo, cwd=tree)
        if rc != 0:
            return b["id"], "DEMO FAILS ON CLEAN", out[-300:]
        for name, old, new in b["edits"]:
            path = os.path.join(tree, "src/pyrusgeom", name)
            text = open(path).read()
            if text.count(old) != 1:
                return b["id"], "EDIT DOES NOT APPLY", name
            open(path, "w").write(text.replace(old, new))
        rc, diff = run(["git", "diff"], cwd=tree)
        with open(os.path.join(dest, "patch.diff"), "w") as f:
            f.write(diff)
        rc, out = run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=tree,
                      env={"PYTHONPATH": tree + "/src"})
        m = re.search(r"(\d+) passed", out)
        if not m or int(m.group(1)) < 113:
            return b["id"], "TESTS FAIL", out[-400:]
        rc, out = run(demo, cwd=tree)
        if rc == 0:
            return b["id"], "DEMO PASSES WITH PATCH", out[-300:]
        shown = out.strip().splitlines()[-1][:100] if out.strip() else ""
        with open(os.path.join(dest, "meta.json"), "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        if not detect:
            return b["id"], "ok", shown
        rc, out = run([sys.executable, os.path.join(VERIF, "check.py"), b["prop"], "--no-evidence"],
                      cwd=VERIF, env={"SIM_REPO": tree})
        caught = rc == 1 and "VIOLATION property=%s " % b["prop"] in out
        return b["id"], "caught" if caught else "MISSED rc=%s" % rc, shown if caught else out[-600:]
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(os.path.join(dest, "__pycache__"), ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [b for b in defs.BUGS if not want or b["id"] in want]
    jobs = 1 if "--serial" in sys.argv else 2
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda b: make(b, "--no-detect" not in sys.argv), todo):
            print(*r, sep=" | ", flush=True)
