"""applies every planted change to a scratch copy of /repo and records which checks report it (dev/fired.json)"""
import os, sys, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/firew"
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
out = {}
for d in sorted(os.listdir(V + "/seeded")):
    sh("rm -rf %s/repo; mkdir -p %s/repo; cd /repo && git archive HEAD | tar x -C %s/repo" % (W, W, W))
    if not os.path.exists(W + "/build"):
        sh("cp -a %s/build %s/build" % (V, W))
    r = sh("cd %s/repo && git init -q . && git apply %s/seeded/%s/patch.diff" % (W, V, d))
    if r.returncode:
        print(d, "does not apply", r.stderr[:200])
        continue
    e = dict(os.environ, SDS_REPO=W + "/repo", SDS_BUILD=W + "/build", SA_EVIDENCE=W + "/ev")
    c = subprocess.run([sys.executable, "-m", "sa.check", "all"], cwd=V, env=e, capture_output=True, text=True)
    out[d] = sorted(l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION"))
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    print(d, out[d], "" if m["property"] in out[d] else "*** MISSED")
json.dump(out, open(V + "/dev/fired.json", "w"), indent=1)
sh("rm -rf %s" % W)
