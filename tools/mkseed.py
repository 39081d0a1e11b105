#!/usr/bin/env python3
"""mkseed.py ID: (re)builds /verif/seeded/ID from a directory holding edit.py (or a ready patch.diff),
demo.cc, meta.json; see tools/seeds/ID.py.  Copies the demo kit and checks that the demo passes on
/repo and fails with the patch, and that build and stable tests still pass with it."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(i, full):
    spec = importlib.util.spec_from_file_location("s", f"{V}/tools/seeds/{i}.py"); s = importlib.util.module_from_spec(spec); spec.loader.exec_module(s)
    d = f"{V}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    # kept, so that checks rebuild only what differs
    w = "/tmp/seedw"
    os.makedirs(w, exist_ok=True)
    try:
        base = os.environ.get("SEED_BASE", "/repo")
        if not os.path.exists(f"{w}/repo"): sh(f"git clone -q {base} {w}/repo")
        sh(f"git -C {w}/repo remote set-url origin {base}")
        sh(f"git -C {w}/repo fetch -q origin; git -C {w}/repo reset -q --hard FETCH_HEAD")
        for f, edits in s.EDITS.items():
            p = f"{w}/repo/{f}"; t = open(p).read()
            for a, b in edits:
                assert t.count(a) == 1, (f, t.count(a), a)
                t = t.replace(a, b)
            open(p, "w").write(t)
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {w}/repo diff").stdout)
        go = getattr(s, "GO", False)
        client = getattr(s, "CLIENT", False)
        open(f"{d}/demo.mjs" if client else f"{d}/demo.go" if go else f"{d}/demo.cc", "w").write(s.DEMO)
        if client:
            for h in ("build.mjs", "entry.ts", "world.mjs", "mc.mjs"): shutil.copy(f"{V}/clientmc/{h}", d)
            shutil.copytree(f"{V}/clientmc/standin", f"{d}/standin")
        elif go:
            shutil.copytree(f"{V}/gomc/standin", f"{d}/standin")
        elif s.SRC is not None:
            shutil.copytree(f"{V}/shim", f"{d}/shim")
        for h in getattr(s, "HEADERS", []):
            shutil.copy(f"{V}/harness/{h}" if os.path.exists(f"{V}/harness/{h}") else f"{V}/tools/demokit/{h}", d)
        kit = open(f"{V}/tools/demokit/{'clientkit' if client else 'gokit' if go else 'kit'}.sh").read()
        open(f"{d}/demo.sh", "w").write("#!/bin/bash\n" + kit + ("" if go or client else f"{getattr(s, 'PRE', '')}build demo.cc {' '.join(getattr(s, "SRC", None) or [])}\nrun\n"))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=s.PROPERTY, needs=s.NEEDS, what_it_breaks=s.BREAKS), open(f"{d}/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", cwd=base); print("clean:", r.returncode, r.stdout[-1500:])
        r2 = sh(f"bash {d}/demo.sh", cwd=f"{w}/repo"); print("patched:", r2.returncode, r2.stdout[-1500:])
        ok = r.returncode == 0 and r2.returncode not in (0, 77)
        print(i, "DEMO OK" if ok else "DEMO BAD")
        if full:
            env = dict(os.environ, VERIF_REPO=f"{w}/repo")
            c = sh(f"python3 {V}/run.py {s.PROPERTY}", env=env); print("check:", c.returncode, "\n".join(c.stdout.splitlines()[-4:]))
    finally:
        sh(f"git -C {w}/repo reset -q --hard")
main(sys.argv[1], "--check" in sys.argv)
