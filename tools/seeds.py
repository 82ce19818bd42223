#!/usr/bin/env python3
"""Generates /verif/seeded/<id> from the table below and validates each bug.
usage: seeds.py gen [id..] | validate [id..] | catch [id..]"""
import json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(R, "tools", "seedlib")
WT = "/tmp/seedwt"
S = []
def bug(id, prop, what, needs, edits, demo): S.append(dict(id=id, prop=prop, what=what, needs=needs, edits=edits, demo=demo))

PRE = "#![allow(unused)]\nmod flac;\nuse flac::*;\nuse claxon::frame::FrameReader;\nuse claxon::input::*;\nuse claxon::metadata::*;\nuse claxon::*;\nuse std::io::{self, Cursor, Read};\n"

for _f in ("bugs.py", "bugs2.py", "bugs3.py", "bugs4.py", "bugs5.py", "bugs6.py", "bugs7.py", "bugs8.py", "bugs9.py", "bugs10.py"): exec(open(os.path.join(R, "tools", "seedlib", _f)).read())

def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def worktree():
    if not os.path.exists(WT):
        sh(f"cp -a /repo {WT}")
    sh("git checkout -q -- . && git clean -fdq src", cwd=WT)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    assert sh("git rev-parse HEAD", cwd=WT).stdout.strip() == head, "stale worktree"
def gen(b):
    worktree()
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f); s = open(p).read()
        if s.count(old) != 1: print("EDIT", b["id"], f, s.count(old), repr(old)); return
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(R, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=WT).stdout)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.rs"), "w").write(PRE + b["demo"].strip() + "\n")
    shutil.copy(os.path.join(LIB, "flac.rs"), d); shutil.copy(os.path.join(LIB, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
def validate(b):
    """Applies to HEAD, builds, passes the stable tests, demo 0 before and nonzero after."""
    d = os.path.join(R, "seeded", b["id"])
    worktree()
    r0 = sh(f"bash {d}/demo.sh", cwd=WT)
    a = sh(f"git apply {d}/patch.diff", cwd=WT)
    t = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 2>&1", cwd=WT, executable="/bin/bash")
    ok = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
    base = json.load(open("/opt/vp/BASELINE.json"))
    r1 = sh(f"bash {d}/demo.sh", cwd=WT)
    nok = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok"))
    worktree()
    good = r0.returncode == 0 and a.returncode == 0 and r1.returncode not in (0, 3, 4, 5, 124) and nok == NBASE
    print(b["id"], "VALID" if good else "INVALID", f"demo {r0.returncode}->{r1.returncode} apply {a.returncode} tests ok {nok}")
    if not good: print("   ", (r0.stdout if r0.returncode else "")[-1500:], a.stdout[-500:], r1.stdout[-600:] if r1.returncode in (0, 4, 5) else "", "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l)[:1500])
    return good
# CATCH_REPO and CATCH_ROOT: run against a copy of /repo with a copy of /verif that points to it.
REPO, ROOT = os.environ.get("CATCH_REPO", "/repo"), os.environ.get("CATCH_ROOT", R)
def catch(b, props=None):
    d = os.path.join(R, "seeded", b["id"])
    a = sh(f"git -C {REPO} apply {d}/patch.diff")
    try:
        res = {}
        for p in props or [b["prop"]]:
            r = sh(f"timeout 900 ./check {p} quick", cwd=ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[p] = r.returncode
            msg = next((l for l in r.stdout.splitlines() if "VIOLATION" not in l and l.strip() and not l.startswith("  ")), "")
            if len(res) == 1 or r.returncode: print("  ", p, r.returncode, v[:1], [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][-1][:200] if r.returncode not in (0, 1) else "", flush=True)
        print(b["id"], b["prop"], "apply", a.returncode, "CAUGHT" if res[b["prop"]] == 1 else "MISSED", " ".join(p for p in res if res[p] == 1), " ERR " + " ".join(p for p in res if res[p] not in (0, 1)) if any(x not in (0, 1) for x in res.values()) else "", flush=True)
        if not props:
            cf = os.environ.get("CATCH_JSON", os.path.join(R, "tools", "caught.json"))
            c = json.load(open(cf)) if os.path.exists(cf) else {}
            c[b["id"]] = v[0].rsplit("/", 1)[1].rsplit("-", 1)[0].split("-", 1)[1] if v else "MISSED"
            json.dump(c, open(cf, "w"), indent=0, sort_keys=True)
    finally: sh(f"git -C {REPO} checkout -- .")
NBASE = 54
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    sel = [b for b in S if not ids or b["id"] in ids or any(i.endswith("*") and b["id"].startswith(i[:-1]) for i in ids)]
    if cmd == "gen":
        for b in sel: gen(b)
    elif cmd == "validate":
        for b in sel: validate(b)
    elif cmd == "catch":
        for b in sel: catch(b)
    elif cmd == "matrix":
        allp = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
        for b in sel: catch(b, allp)
