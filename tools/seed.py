#!/usr/bin/env python3
"""Turn bug definitions into /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) and confirm them.

usage: seed.py DEFS.py [id ...]     DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Confirms in /repo (patch applied, then undone): patch applies, package imports, demo 0 before / nonzero after, stable tests pass.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in bugs:
        if want and b["id"] not in want:
            continue
        out = "/verif/seeded/" + b["id"]
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
        try:
            for f, old, new in b["edits"]:
                p = "/repo/qmat/" + f
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
        except AssertionError as e:
            print("DEF-ERROR", e); continue
        finally:
            sh("git -C /repo checkout -- .")
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\n# cwd: /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1\n'
            'exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        ok = True
        r0 = sh(f"bash {out}/demo.sh", cwd="/repo")
        try:
            a = sh(f"git -C /repo apply {out}/patch.diff")
            r1 = sh(f"bash {out}/demo.sh", cwd="/repo")
            tf = tempfile.mktemp(suffix=".json")
            bu = sh("bash /opt/vp/build.sh")
            sh(f"bash /opt/vp/test.sh {tf}")
            res = json.load(open(tf))
            os.remove(tf)
        finally:
            sh("git -C /repo checkout -- .")
        stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
        passed = set(res.get("passed") or res.get("pass") or [])
        broken = sorted(stable - passed)
        print(b["id"], b["property"], "| demo before", r0.returncode, "after", r1.returncode,
              "| apply", a.returncode, "build", bu.returncode, "| stable", len(stable), "broken", len(broken), broken[:2], flush=True)
        if r0.returncode or not r1.returncode or a.returncode or bu.returncode or broken:
            print("   REJECTED", r0.stderr[-300:], r1.stderr[-200:] if r1.returncode == 0 else "", flush=True)
            shutil.rmtree(out)
        else:
            print("   kept;", r1.stderr.strip().splitlines()[-1][:160] if r1.stderr.strip() else r1.stdout.strip()[-160:], flush=True)
main()
