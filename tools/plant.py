#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id>/ from the edits in plants.py and
runs the checks against the planted trees (scratch copies under /tmp).

plant.py build [id...]   make patches, demos; verify tests and demos
plant.py check [id...]   run each plant's own check against the planted copy
plant.py cross [id...]   run all other checks, too
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plants

REPO = "/repo"
BASE = "17557a9"
PY = "/opt/venv/bin/python"
PKGS = ["fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs"]
HEAD = '''import os
import sys

ROOT = os.getcwd()
for p in ("fluent.docs", "fluent.pygments", "fluent.runtime", "fluent.syntax"):
    sys.path.insert(0, os.path.join(ROOT, p))
'''
SH = '''#!/bin/sh
# run in the repository's root
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore LANG=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/dev/shm")
    subprocess.run(["git", "clone", "-q", REPO, d + "/r"], check=True)
    return d


def apply(p, d):
    for f, old, new in p["edits"]:
        path = os.path.join(d, "r", f)
        s = open(path, encoding="utf-8").read()
        assert s.count(old) == 1, (p["id"], f, s.count(old), old)
        open(path, "w", encoding="utf-8").write(s.replace(old, new))


def env(d):
    r = d + "/r" if d else REPO
    return dict(os.environ, PYTHONPATH=":".join(r + "/" + p for p in PKGS), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8")


def tests(d):
    bad = []
    for p in PKGS[:3]:
        r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x"], cwd=d + "/r/" + p, env=env(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            bad.append(r.stdout.decode()[-1500:])
    return bad


def demo(where, sdir):
    e = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    r = subprocess.run(["sh", sdir + "/demo.sh"], cwd=where, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode()[-600:]


def build(p):
    d = copy()
    try:
        apply(p, d)
        diff = subprocess.run(["git", "-C", d + "/r", "diff"], stdout=subprocess.PIPE).stdout.decode()
        # removed lines must come from the base commit
        for f in {e[0] for e in p["edits"]}:
            blame = subprocess.run(["git", "-C", REPO, "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode().split("\n")
            fd = subprocess.run(["git", "-C", d + "/r", "diff", "-U0", "--", f], stdout=subprocess.PIPE).stdout.decode()
            removed = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
                n = int(m[2]) if m[2] is not None else 1
                for k in range(int(m[1]), int(m[1]) + n):
                    removed += 1
                    if not blame[k - 1].lstrip("^").startswith(BASE[:7]):
                        if os.environ.get("LOOSE"):
                            removed -= 1
                            continue
                        return "%s: line not from base: %s" % (p["id"], blame[k - 1])
            loose = not removed
            if loose and not os.environ.get("LOOSE"):
                return "%s: changes no original line in %s" % (p["id"], f)
        bad = tests(d)
        if bad:
            return "%s: TESTS FAIL\n%s" % (p["id"], bad[0][-700:])
        s = os.path.join("/dev/shm/loose" if loose else os.path.join(HERE, "seeded"), p["id"])
        os.makedirs(s, exist_ok=True)
        open(s + "/patch.diff", "w").write(diff)
        open(s + "/demo.py", "w").write(HEAD + p["demo"].strip("\n") + "\n")
        open(s + "/demo.sh", "w").write(SH)
        os.chmod(s + "/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        c, o = demo(REPO, s)
        if c:
            shutil.rmtree(s)
            return "%s: demo fails on the clean tree: %s" % (p["id"], o)
        c, o = demo(d + "/r", s)
        if not c:
            shutil.rmtree(s)
            return "%s: demo passes with the bug" % p["id"]
        return ("LOOSE " if loose else None) if "Error" in o else "%s: odd demo failure %s" % (p["id"], o)
    finally:
        shutil.rmtree(d)


def check(p, which=None):
    d = copy()
    try:
        apply(p, d)
        out = {}
        for c in which or [p["property"]]:
            e = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d + "/evidence")
            r = subprocess.run([HERE + "/check", c, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out[c] = (r.returncode, r.stdout.decode())
        return out
    finally:
        shutil.rmtree(d)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    ps = [p for p in plants.ALL if not ids or p["id"] in ids or p["property"] in ids]
    if what == "build":
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for p, r in zip(ps, ex.map(build, ps)):
                print("ok  " + p["id"] if r is None else "BAD " + r, flush=True)
    else:
        allc = ["C%02d" % i for i in range(1, 33)]
        for p in ps:
            if what == "check" and not (os.path.exists(os.path.join(HERE, "seeded", p["id"])) or os.path.exists("/dev/shm/loose/" + p["id"])):
                print("--", p["id"], "not built")
                continue
            for c, (rc, o) in check(p, allc if what == "cross" else None).items():
                lines = o.strip().split("\n")
                if what == "cross" and rc == 0:
                    continue
                caught = rc == 1 and any(l.startswith("VIOLATION property=" + c) for l in lines)
                print("%s %s by %s rc=%d  %s" % ("CAUGHT" if caught else "MISSED", p["id"], c, rc, next((l[:150] for l in lines if l.startswith("counterexample")), lines[-1][:150])), flush=True)


main()
