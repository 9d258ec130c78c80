#!/usr/bin/env python3
"""Makes and validates planted bugs:  seed.py FILE...   Each FILE is Python defining SEEDS = [dict(...)]:
id, property, file, edits [(old, new)...] or {file: edits}, kind 'append' (demo appended to `into`) or 'example',
demo (Rust), needs, what, env (optional shell prologue).  Validation happens in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", TZDIR="/usr/share/zoneinfo")

DEMO = '''#!/bin/bash
# %(title)s
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp -a "$PWD/." "$work/" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export TZDIR=${TZDIR:-/usr/share/zoneinfo}
unset RUSTC_WRAPPER CARGO_TARGET_DIR
cd "$work" || exit 2
%(env)s%(run)s
'''
APPEND = '''cat "$here/demo.rs" >> "src/%(into)s"
cargo test --offline --lib %(flags)svp_demo > log 2>&1
status=$?
tail -n 15 log
grep -q "test result: ok. [1-9]" log || [ $status -ne 0 ] || status=3
exit $status'''
EXAMPLE = '''mkdir -p examples
cp "$here/demo.rs" examples/vp_demo.rs
timeout 200 cargo run --offline -q %(flags)s--example vp_demo > log 2>&1
status=$?
tail -n 15 log
exit $status'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def main():
    want = None
    files = []
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            files.append(a)
        else:
            want = (want or []) + [a]
    base = "/tmp/seedbase"
    if not os.path.exists(base):
        sh("mkdir -p %s && cp -a /repo %s/repo && cd %s/repo && cargo test --offline --no-run" % (base, base, base), "/tmp")
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            if want and s["id"] not in want:
                continue
            one(s, base)


def one(s, base):
    d = os.path.join(ROOT, "seeded", s["id"])
    work = "/tmp/seedwork-" + s["id"]
    shutil.rmtree(work, ignore_errors=True)
    sh("cp -a %s/repo %s && cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % (base, work, work), "/tmp")
    try:
        os.makedirs(d, exist_ok=True)
        run = (APPEND if s.get("kind", "append") == "append" else EXAMPLE) % {"into": s.get("into", s.get("file")), "flags": "--release " if s.get("release") else ""}
        open(d + "/demo.sh", "w").write(DEMO % {"title": s["what"].replace("\n", " "), "env": s.get("env", ""), "run": run})
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"].lstrip("\n"))
        for n, t in s.get("extra", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, work)
        ed = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        for fn, es in ed.items():
            p = work + "/src/" + fn
            t = open(p).read()
            for old, new in es:
                assert t.count(old) >= 1, (s["id"], "old text not found", old)
                t = t.replace(old, new, 1)
            open(p, "w").write(t)
        diff = sh("git diff", work).stdout
        open(d + "/patch.diff", "w").write(diff)
        # every removed line must be one of the original repository
        mine = []
        for fn in ed:
            bl = sh("git blame -s HEAD -- src/%s" % fn, work).stdout.splitlines()
            fixes = set(sh("git log --format=%h --abbrev=8 7da3678..HEAD", work).stdout.split())
            lines = {i + 1: x[:8] in fixes for i, x in enumerate(bl)}
            for h in sh("git diff -U0 -- src/%s" % fn, work).stdout.splitlines():
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    mine += [(fn, k) for k in range(st, st + n) if lines.get(k)]
        t = sh("cargo test --offline --workspace --no-fail-fast -- --test-threads 8 2>&1 | grep '^test result\\|error\\|FAILED' | head -5", work)
        ok = "test result: ok. 25 passed" in t.stdout
        r1 = sh("bash %s/demo.sh" % d, work)
        chk = {}
        for p in [s["property"]] + s.get("also", []):
            e = dict(ENV, VERIF_REPO=work)
            c = subprocess.run(["python3", "engine/check.py", p, "quick"], cwd=ROOT, env=e, capture_output=True, text=True)
            chk[p] = (c.returncode, [l for l in c.stdout.splitlines() if "reached from" in l][:1], [l for l in c.stdout.splitlines() if "obligations" in l or "open:" in l][:3] if c.returncode != 1 else "")
        flag = "OK " if ok and r0.returncode == 0 and r1.returncode != 0 and not mine else "BAD"
        caught = "caught" if chk[s["property"]][0] == 1 else "MISSED"
        print("%s %s %s %s tests=%s clean=%d patched=%d %s" % (flag, caught, s["id"], s["property"], ok, r0.returncode, r1.returncode, ("touches own lines %s" % mine) if mine else ""))
        for p, c in chk.items():
            print("    ", p, c[0], (c[1][0][:230] if c[1] else ""), c[2])
        if not ok:
            print("   ", t.stdout[:600])
        if r0.returncode:
            print("    clean demo:", (r0.stdout + r0.stderr)[-900:])
        if r1.returncode == 0:
            print("    patched demo passes")
        sys.stdout.flush()
        if flag == "BAD":
            shutil.rmtree(d)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
