#!/usr/bin/env python3
"""mkseed.py [ids...]: builds /verif/seeded/<id> from tools/seedspecs/<id>.py and confirms it in a scratch copy of /repo:
the patch applies, the stable tests pass with it, demo.sh passes without and fails with it."""
import os, sys, json, subprocess, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/seedspecs") if f.endswith(".py"))
    for i in ids:
        s = runpy.run_path(f"{V}/tools/seedspecs/{i}.py")
        wt = tempfile.mkdtemp(prefix="seed-"); d = f"{wt}/repo"
        try:
            subprocess.check_call(["cp", "-a", "/repo", d])
            out = f"{V}/seeded/{i}"; os.makedirs(out, exist_ok=True)
            open(out + "/demo.py", "w").write("import sys, os, warnings, logging\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nwarnings.filterwarnings('ignore'); logging.disable(logging.CRITICAL)\n" + s["DEMO"].lstrip("\n"))
            open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\nexec timeout 280 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
            r0 = sh(f"bash {out}/demo.sh", cwd=d)
            for f, a, b in s["EDITS"]:
                t = open(f"{d}/{f}").read()
                assert t.count(a) == 1, (i, f, t.count(a), a)
                open(f"{d}/{f}", "w").write(t.replace(a, b))
            diff = sh("git diff", cwd=d).stdout
            open(out + "/patch.diff", "w").write(diff)
            r1 = sh(f"bash {out}/demo.sh", cwd=d)
            # stable tests with the patch: run the test script against the copy
            t = sh(f"{'PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests'}", cwd=d)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
            ok = r0.returncode == 0 and r1.returncode != 0 and "failed" not in last and "passed" in last
            print(("OK  " if ok else "BAD ") + i, s["PROPERTY"], "clean", r0.returncode, "patched", r1.returncode, last, "" if ok else (r0.stdout[-600:] + "\n---\n" + r1.stdout[-600:] + "\n---\n" + t.stdout[-600:]), flush=True)
        finally: shutil.rmtree(wt, ignore_errors=True)
main()
