#!/usr/bin/env python3
"""Development tool (not used by any check): builds /verif/seeded/<id>/ from definitions and confirms each in a scratch copy.

dev/seed.py FILE.py [id ...]    FILE defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=<rust test module>)]
Confirms: patched tree builds, stable tests pass, demo passes on the base tree and fails with the patch; reports which checks fire.
"""
import os, sys, json, subprocess, importlib.util, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"
DEMO = '''#!/bin/bash
# Runs demo.rs as a test module of the crate as /opt/vp/partial wires it together. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp -a /opt/vp/partial/Cargo.toml /opt/vp/partial/Cargo.lock /opt/vp/partial/bindings /opt/vp/partial/sds "$W"/ || exit 2
mkdir -p "$W/target/debug"
cp -a /opt/vp/partial/target/debug/deps /opt/vp/partial/target/debug/build /opt/vp/partial/target/debug/.fingerprint "$W/target/debug/"
export CARGO_TARGET_DIR="$W/target"
cp "$here/demo.rs" "$W/sds/src/demo.rs"
printf '\\n#[cfg(test)]\\nmod demo;\\n' >> "$W/sds/src/lib.rs"
cd "$W" || exit 2
timeout 250 cargo test -p dd-sds --lib --offline --locked demo::
'''


DEMOB = DEMO[:DEMO.index('cp "$here')] + '''mkdir -p "$W/bindings/tests"
cp "$here/demo.rs" "$W/bindings/tests/demo.rs"
cd "$W" || exit 2
timeout 250 cargo test -p sds-bindings-utils --test demo --offline --locked
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def prep():
    if not os.path.exists(W + "/partial"):
        os.makedirs(W)
        sh("cp -a /opt/vp/partial %s/partial" % W)
        sh("find %s/partial/sds %s/partial/bindings -type f | xargs sed -i 's#/repo/#%s/repo/#g'" % (W, W, W))
        sh("cp %s/partial/sds/src/lib.rs %s/lib.orig" % (W, W))
    sh("mkdir -p %s/repo && cd /repo && git archive HEAD | tar x -C %s/repo && find %s/repo -name '*.rs' | xargs touch" % (W, W, W))


ENV = "set -e; . /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/partial/target; cd %s/partial; " % (W, W)


def test(args, demo=None, crate=None):
    sh("rm -rf %s/partial/bindings/tests" % W)
    sh("cp %s/lib.orig %s/partial/sds/src/lib.rs" % (W, W))
    if crate and demo is not None:
        os.makedirs(W + "/partial/bindings/tests")
        open(W + "/partial/bindings/tests/demo.rs", "w").write(demo)
        return subprocess.run(["bash", "-c", ENV + "cargo test -p sds-bindings-utils --test demo --offline --locked "], capture_output=True, text=True, timeout=600)
    if demo is not None:
        open(W + "/partial/sds/src/demo.rs", "w").write(demo)
        open(W + "/partial/sds/src/lib.rs", "a").write("\n#[cfg(test)]\nmod demo;\n")
    return subprocess.run(["bash", "-c", ENV + "cargo test -p dd-sds --no-fail-fast --offline --locked " + args],
                          capture_output=True, text=True, timeout=600)


def main():
    s = importlib.util.spec_from_file_location("m", sys.argv[1])
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    want = sys.argv[2:]
    for d in m.S:
        if want and d["id"] not in want:
            continue
        prep()
        r0 = test("--lib demo::", d["demo"], d.get("crate"))
        touched = set()
        bad = None
        for f, old, new in d["edits"]:
            p = W + "/repo/" + f
            t = open(p).read()
            if old not in t:
                bad = "edit does not apply: " + old[:70]
                break
            open(p, "w").write(t.replace(old, new, 1))
            touched.add(f)
        if bad:
            print(d["id"], "BAD", bad)
            continue
        r1 = test("--lib demo::", d["demo"], d.get("crate"))
        built = "test result" in r1.stdout
        r2 = test("")
        passed = {l.split()[1] for l in r2.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base.get("passed", base.get("stable", base)) if isinstance(base, dict) else base
        missing = [b for b in base if not any(b.endswith(p) or p.endswith(b.split("::", 1)[-1]) for p in passed)]
        ok = r0.returncode == 0 and built and r1.returncode != 0 and not missing and r2.returncode == 0
        print(d["id"], "OK" if ok else "BAD", "base rc", r0.returncode, "patched rc", r1.returncode, "built", built, "missing", missing[:3], "tests rc", r2.returncode)
        if not ok:
            print((r0.stdout + r0.stderr)[-1500:] if r0.returncode else "", (r1.stderr)[-1500:] if not built else "", r2.stdout[-800:] if r2.returncode else "")
            continue
        out = V + "/seeded/" + d["id"]
        os.makedirs(out, exist_ok=True)
        diff = ""
        for f in sorted(touched):
            q = sh("diff -u --label a/%s --label b/%s /repo/%s %s/repo/%s" % (f, f, f, W, f))
            diff += q.stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.rs", "w").write(d["demo"])
        open(out + "/demo.sh", "w").write(DEMOB if d.get("crate") else DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        e = dict(os.environ, SDS_REPO=W + "/repo", SDS_BUILD=W + "/build", SA_EVIDENCE=W + "/ev")
        if not os.path.exists(W + "/build"):
            sh("cp -a %s/build %s/build" % (V, W))
        c = subprocess.run([sys.executable, "-m", "sa.check", "all"], cwd=V, env=e, capture_output=True, text=True)
        fired = sorted(l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION"))
        print("   checks fired:", fired, "expected", d["prop"], "" if d["prop"] in fired else "*** MISSED")
    sh("cp %s/lib.orig %s/partial/sds/src/lib.rs" % (W, W))


main()
