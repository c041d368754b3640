#!/usr/bin/env python3
"""Builds and validates planted bugs.

mkseeds.py make ID|all    write /verif/seeded/<id> from its entry in seeds.py
mkseeds.py validate ID..  in a scratch copy: patch applies, builds, stable tests pass, demo 0 / nonzero
No check reads the result.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds

OUT = os.path.join(os.path.dirname(HERE), "seeded")
WT = "/tmp/seedwt"

DEMO = r'''#!/bin/bash
# Run in the repository after its build. Builds a small program against the runtime
# (and, if there is a schema, the code generated for it) in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cat > "$w/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio = { path = "$repo/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
[workspace]
[profile.dev]
debug = 0
E
cp "$here/Cargo.lock" "$w/"
if [ -d "$here/schema" ]; then
    "$repo/target/debug/zserio-rs-build" -o "$w/src" "$here/schema" || exit 1
fi
cp "$here/main.rs" "$w/src/main.rs"
cd "$w" || exit 3
cargo build --offline -q 2> "$w/log" || { tail -30 "$w/log"; exit 1; }
ulimit -v 4000000
timeout 120 ./target/debug/demo
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(s):
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = "/tmp/seedmk"
    shutil.rmtree(wt, ignore_errors=True)
    r = sh(["git", "-C", "/repo", "worktree", "prune"])
    r = sh(f"mkdir -p {wt} && git -C /repo archive HEAD | tar -x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
    assert r.returncode == 0, r.stdout
    for e in s["edits"]:
        f, old, new = e[:3]
        p = os.path.join(wt, f)
        t = open(p).read()
        n = t.count(old)
        want = e[3] if len(e) > 3 else 1
        if n != want:
            raise SystemExit(f"{s['id']}: {f}: {n} matches of {old!r}")
        open(p, "w").write(t.replace(old, new))
    r = sh(["git", "-C", wt, "diff"])
    open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    shutil.rmtree(wt)
    open(os.path.join(d, "demo.sh"), "w").write(s.get("demo", DEMO))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "main" in s:
        open(os.path.join(d, "main.rs"), "w").write(s["main"])
        shutil.copy("/verif/harness/hx/Cargo.lock", os.path.join(d, "Cargo.lock"))
        t = open(os.path.join(d, "Cargo.lock")).read().replace('name = "hx"', 'name = "demo"')
        open(os.path.join(d, "Cargo.lock"), "w").write(t)
    for f, c in s.get("schema", {}).items():
        p = os.path.join(d, "schema", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(c)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

def copy_tree():
    if not os.path.exists(WT):
        sh(f"cp -a /repo {WT}")
        os.makedirs(WT + ".vp", exist_ok=True)
        sh(f"cp -a /opt/vp/. {WT}.vp/")
        sh(f"sed -i 's#/repo#{WT}#g; s#/opt/vp/\\(env.sh\\|harness\\)#{WT}.vp/\\1#g' {WT}.vp/build.sh {WT}.vp/test.sh {WT}.vp/env.sh {WT}.vp/harness/gen.py")
    sh(f"git -C {WT} checkout -q -- . && git -C {WT} clean -fdq && git -C {WT} fetch -q /repo && git -C {WT} reset -q --hard FETCH_HEAD")

def stable():
    return json.load(open("/opt/vp/BASELINE.json"))

def validate(s, tests=True):
    d = os.path.join(OUT, s["id"])
    copy_tree()
    def build():
        return sh(["bash", WT + ".vp/build.sh"])
    def demo():
        tmp = "/tmp/seeddemo"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(d, tmp)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(tmp, f))
        return sh(["bash", tmp + "/demo.sh"], cwd=WT)
    r = build()
    if r.returncode: return "clean build failed " + r.stdout[-500:]
    r0 = demo()
    if r0.returncode: return "demo fails on clean tree: " + r0.stdout[-1500:]
    r = sh(["git", "-C", WT, "apply", d + "/patch.diff"])
    if r.returncode: return "apply: " + r.stdout
    r = build()
    if r.returncode: return "patched build failed " + r.stdout[-1500:]
    r1 = demo()
    if r1.returncode == 0: return "demo passes with the patch: " + r1.stdout[-500:]
    if tests:
        out = "/tmp/seedtest.json"
        sh(["bash", WT + ".vp/test.sh", out])
        res = json.load(open(out))
        base = stable()
        bad = compare(base, res)
        if bad: return "tests: " + ", ".join(bad)[:1500]
    return "ok | demo: " + r1.stdout.strip()[-200:].replace("\n", " / ")

def ids(x):
    return set(x["stable"] if "stable" in x else x["passed"])

def compare(base, res):
    return sorted(ids(base) - ids(res))

if __name__ == "__main__":
    cmd, names = sys.argv[1], sys.argv[2:]
    sel = [s for s in seeds.SEEDS if names == ["all"] or s["id"] in names]
    for s in sel:
        if cmd in ("make", "both"):
            make(s)
        if cmd in ("validate", "both"):
            print(s["id"], validate(s), flush=True)
