#!/usr/bin/env python3
"""Create / verify a planted bug: seed.py make ID PROPERTY FILE(json with edits, needs, what) DEMO.py ; seed.py verify [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy_repo():
    d = tempfile.mkdtemp(prefix="seed.")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d, d + "/repo"


def make(sid, prop, edits, needs, what, demo, extra=()):
    d, r = copy_repo()
    out = os.path.join(V, "seeded", sid)
    try:
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) >= 1, (sid, f, "text not found")
            open(p, "w").write(t.replace(old, new, 1))
        subprocess.run(["git", "-C", r, "diff", "--stat"], capture_output=True)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
        if demo.endswith(".cpp"):
            shutil.copy(demo, out + "/demo.cpp")
            shutil.copytree(V + "/sa/nbstub", out + "/nbstub", dirs_exist_ok=True)
            open(out + "/demo.sh", "w").write("""#!/bin/bash
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -pthread -I"$H/nbstub" -I/usr/include/eigen3 -Icpp_source -Wl,--unresolved-symbols=ignore-all "$H/demo.cpp" -o "$T/demo" || exit 99
timeout 120 "$T/demo"
""")
        elif demo.endswith(".sh"):
            shutil.copy(demo, out + "/demo.sh")
        else:
            shutil.copy(demo, out + "/demo.py")
            shutil.copy(V + "/tools/demo/stubs.py", out + "/stubs.py")
            open(out + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        for x in extra:
            shutil.copy(x, out)
        os.chmod(out + "/demo.sh", 0o755)
    finally:
        shutil.rmtree(d)


def verify(sid, tests=True, checks=True):
    s = os.path.join(V, "seeded", sid)
    meta = json.load(open(s + "/meta.json"))
    d, r = copy_repo()
    try:
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        dd = d + "/demo"
        shutil.copytree(s, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a = subprocess.run(["bash", dd + "/demo.sh"], cwd=r, capture_output=True, text=True)
        ap = subprocess.run(["git", "-C", r, "apply", s + "/patch.diff"], capture_output=True, text=True)
        b = subprocess.run(["bash", dd + "/demo.sh"], cwd=r, capture_output=True, text=True)
        ok = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0
        msg = f"demo base={a.returncode} patched={b.returncode} apply={ap.returncode}"
        if a.returncode:
            msg += "\n" + (a.stdout + a.stderr)[-600:]
        if checks and os.path.exists(f"{V}/sa/rules/{meta['property'].lower()}.py"):
            ev = tempfile.mkdtemp(prefix="ev.")
            c = subprocess.run([sys.executable, V + "/check.py", "--property", meta["property"]], capture_output=True, text=True,
                               env=dict(os.environ, IRSPACK_REPO=r, SA_EVIDENCE=ev))
            shutil.rmtree(ev, ignore_errors=True)
            msg += f" check={'CAUGHT' if c.returncode == 1 else 'missed rc=%d' % c.returncode}"
        return ok, meta["property"], msg
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for sid, (ok, p, msg) in zip(ids, ex.map(verify, ids)):
            print(("ok  " if ok else "BAD ") + sid, p, msg)
