#!/usr/bin/env python3
"""plant.py ID...   confirm a seeded change in a scratch copy of /repo, then run its property's quick check against it in /repo
   plant.py --new ID FILE    make seeded/ID from a python file that defines PROP, EDITS [(path, old, new)], NEEDS, BREAKS, MAIN"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration; anything else: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
lib=$(ls -t target/debug/deps/libfem_2d-*.rlib | head -1)
ext=
for c in rayon nalgebra; do
  l=$(ls -t target/debug/deps/lib$c-*.rlib 2>/dev/null | head -1)
  [ -n "$l" ] && ext="$ext --extern $c=$l"
done
rustc --edition 2021 -A warnings "$d/main.rs" -o "$t/demo" --extern fem_2d="$lib" $ext -L dependency=target/debug/deps || exit 2
cd "$t" && timeout 200 ./demo
'''


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def new(pid, path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(V, "seeded", pid)
    os.makedirs(d, exist_ok=True)
    for f, old, neu in ns["EDITS"]:
        p = os.path.join("/repo", f)
        t = open(p).read()
        if t.count(old) != 1:
            sh("git -C /repo checkout -- .")
            sys.exit("%s: %d occurrences of %r" % (f, t.count(old), old))
        open(p, "w").write(t.replace(old, neu))
    rc, diff = sh("git -C /repo diff")
    sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(ns.get("DEMO", DEMO))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(ns["MAIN"])
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def stable(env_sh):
    rc, out = sh(env_sh + " && timeout 800 cargo test --no-fail-fast \"${CARGO_ARGS[@]}\" -- --test-threads 8 > target/test.log 2>&1; python3 /opt/vp/results.py /tmp/seedwt/o.json cargo:target/test.log; cat /tmp/seedwt/o.json", cwd=W)
    base = json.load(open("/opt/vp/BASELINE.json"))
    return out, base


def confirm(pid):
    d = os.path.join(V, "seeded", pid)
    if not os.path.isdir(W):
        sh("cp -a /repo " + W)
    sh("git checkout -- . && git clean -fdq src", cwd=W)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    env = open("/opt/vp/env.sh").read().replace("/repo", W)
    open("/tmp/seedwt-env.sh", "w").write(env)
    res = {}
    for name in ("clean", "patched"):
        if name == "patched":
            rc, out = sh("git apply %s/patch.diff" % d, cwd=W)
            if rc: return "patch does not apply: " + out
        rc, out = sh("bash -c '. /tmp/seedwt-env.sh && touch src/lib.rs && cargo test --no-run \"${CARGO_ARGS[@]}\"'", cwd=W)
        if rc: return "does not build: " + out[-1500:]
        if name == "patched":
            rc, out = sh("bash -c '. /tmp/seedwt-env.sh && timeout 800 cargo test --no-fail-fast \"${CARGO_ARGS[@]}\" -- --test-threads 8'", cwd=W)
            bad = re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)
            if [b for b in bad if "slepc_problem" not in b]: return "tests fail: %s" % bad
            if len(re.findall(r"^test .* \.\.\. ok", out, re.M)) < 62: return "too few tests: " + out[-800:]
        rc, out = sh("bash %s/demo.sh" % d, cwd=W)
        res[name] = (rc, out[-300:])
    sh("git checkout -- .", cwd=W)
    if res["clean"][0] != 0: return "demo fails on the unchanged tree: %s" % (res["clean"],)
    if res["patched"][0] in (0,): return "demo passes with the patch"
    return "confirmed (demo: %s)" % res["patched"][1].strip().replace("\n", " | ")[-160:]


def caught(pid, tier="quick", props=None):
    d = os.path.join(V, "seeded", pid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    rc, out = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: return "patch does not apply: " + out
    got = []
    try:
        for p in props or [prop]:
            rc, out = sh("VERIF_SEED=1 ./check %s %s" % (p, tier), cwd=V)
            m = re.search(r"^  (\S+: .*)$", out, re.M)
            got.append("%s rc=%d %s" % (p, rc, (m.group(1)[:220] if m else out[-220:]).strip()))
    finally:
        sh("git -C /repo checkout -- .")
    return "; ".join(got)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--new":
        new(a[1], a[2])
        a = [a[1]]
    if a and a[0] == "--run":
        for x in a[1:]: print(x, "CHECK:", caught(x), flush=True)
        a = []
    for x in a:
        c = confirm(x)
        print(x, c, flush=True)
        if c.startswith("confirmed"): print(x, "CHECK:", caught(x), flush=True)
