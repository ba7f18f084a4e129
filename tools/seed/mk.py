#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every bug in bugs*.py whose directory is missing (or named on the command line)."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE)); R = "/repo"
BASE = "080a877"
def git(*a): return subprocess.run(["git", "-C", R, *a], check=True, capture_output=True, text=True).stdout
bugs = []
for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
    s = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); bugs += m.BUGS
assert len({b["id"] for b in bugs}) == len(bugs)
for b in bugs:
    d = os.path.join(V, "seeded", b["id"])
    if b["id"] not in sys.argv[1:] and (len(sys.argv) > 1 or os.path.exists(d)): continue
    assert not git("status", "--porcelain"), "repo not clean"
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(R, path); t = open(p).read()
            assert t.count(old) == b.get("times", 1), (b["id"], path, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = git("diff"); u0 = git("diff", "-U0")
    finally:
        git("checkout", "--", ".")
    cur, orig = None, 0
    for l in u0.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                for bl in git("blame", "-s", "-l", "-L", "%d,+%d" % (a, n), "HEAD", "--", cur).splitlines():
                    if bl.lstrip("^").startswith(BASE): orig += 1
                    else: print("NOTE", b["id"], "touches my line:", bl[41:])
    if not orig: print("WARNING", b["id"], "changes no original line")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    k = b["kit"]
    shutil.copy(os.path.join(HERE, "kit-" + ("full" if k == "nostd" else k), "demo.sh"), d)
    if k == "ts":
        shutil.copy(os.path.join(HERE, "kit-ts/kit.mjs"), d)
        open(os.path.join(d, "demo.mjs"), "w").write('import { load, script, check, eq, le32, stubNative, program, installPrograms, P } from "./kit.mjs";\n' + b["demo"].strip() + "\nprocess.exit(0);\n")
    elif k == "rs":
        shutil.copy(os.path.join(HERE, "kit-rs/Cargo.toml.in"), d)
        open(os.path.join(d, "main.rs"), "w").write(open(os.path.join(HERE, "kit-rs/head.rs")).read() + b["demo"].strip() + "\n")
    else:
        shutil.copytree(os.path.join(V, "shims"), os.path.join(d, "shims"))
        shutil.copytree(os.path.join(V, "harness/mirror"), os.path.join(d, "harness/mirror"), ignore=shutil.ignore_patterns("Cargo.lock", "target"))
        os.makedirs(os.path.join(d, "harness/demo/src"))
        t = open(os.path.join(HERE, "kit-full/Cargo.toml")).read()
        if k == "nostd": t = t.replace("[dependencies]", '[dependencies]\nzkenc-core-nostd = { path = "../mirror/zkenc-core-nostd" }')
        open(os.path.join(d, "harness/demo/Cargo.toml"), "w").write(t)
        shutil.copy(os.path.join(HERE, "kit-full/common.rs"), os.path.join(d, "harness/demo/src"))
        open(os.path.join(d, "harness/demo/src/main.rs"), "w").write("mod common;\nuse common::*;\n" + b["demo"].strip() + "\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("wrote", b["id"])
