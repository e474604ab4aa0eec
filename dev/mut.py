#!/usr/bin/env python3
"""Development tool (not used by any check): applies textual edits to scratch copies of /repo and reports which checks fire.

dev/mut.py [-k substr] FILE.py ...   each FILE defines M = [(id, expect, file, old, new), ...]; expect: 'ok' or 'C10,C11'
"""
import os, shutil, subprocess, sys, importlib.util, concurrent.futures as cf, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTW", "/tmp/mutw")


def load(f):
    s = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.M


def worker(n):
    d = "%s/%d" % (W, n)
    if not os.path.exists(d + "/build"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", V + "/build", d + "/build"])
    return d


free = list(range(7))
lock = threading.Lock()


def one(m, only):
    mid, exp, edits = m[0], m[1], m[2:]
    with lock:
        n = free.pop()
    try:
        d = worker(n)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/repo/"]) if shutil.which("rsync") else \
            subprocess.run("rm -rf %s/repo && mkdir %s/repo && cd /repo && tar c --exclude=target --exclude=.git . | tar x -C %s/repo" % (d, d, d), shell=True)
        for i in range(0, len(edits), 3):
            if edits[i].startswith("*"):         # a whole word, everywhere under this directory
                import re, glob
                for p in glob.glob(d + "/repo/" + (edits[i][1:] or "sds") + "/**/*.rs", recursive=True):
                    s = open(p).read()
                    t = re.sub(r"\b%s\b" % edits[i + 1], edits[i + 2], s)
                    if t != s:
                        open(p, "w").write(t)
                continue
            p = d + "/repo/" + edits[i]
            s = open(p).read()
            if edits[i + 1] not in s:
                return mid, exp, None, "edit does not apply: " + edits[i + 1][:60]
            open(p, "w").write(s.replace(edits[i + 1], edits[i + 2], 1))
        e = dict(os.environ, SDS_REPO=d + "/repo", SDS_BUILD=d + "/build", SA_EVIDENCE=d + "/ev")
        ids = ["all"] if not only else only
        try:
            r = subprocess.run([sys.executable, "-m", "sa.check"] + ids, cwd=V, env=e, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return mid, exp, None, "timeout"
        fired = sorted(l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION"))
        return mid, exp, fired, r.stdout + r.stderr
    finally:
        with lock:
            free.append(n)


def main():
    a = sys.argv[1:]
    k = None
    only = None
    verbose = "-v" in a
    a = [x for x in a if x != "-v"]
    if "-k" in a:
        i = a.index("-k")
        k = a[i + 1]
        del a[i:i + 2]
    if "-p" in a:
        i = a.index("-p")
        only = a[i + 1].split(",")
        del a[i:i + 2]
    ms = [m for f in a for m in load(f) if not k or k in m[0]]
    bad = 0
    with cf.ThreadPoolExecutor(7) as ex:
        for mid, exp, fired, out in ex.map(lambda m: one(m, only), ms):
            if fired is None:
                print("BROKEN  %s: %s" % (mid, out))
                bad += 1
                continue
            if "could not be type-checked" in out and exp == "*":
                continue
            if "could not be type-checked" in out:
                print("NOCOMP  %s\n%s" % (mid, "\n".join(l for l in out.splitlines() if "error" in l)[:1500]))
                bad += 1
                continue
            if exp == "*":
                print("%s %s fired %s" % ("good   " if fired else "SILENT ", mid, ",".join(fired)), flush=True)
                continue
            ok = (not fired) if exp == "ok" else all(x in fired for x in exp.split(","))
            bad += not ok
            print("%s %s expected %s fired %s" % ("good   " if ok else "MISSED " if exp != "ok" else "ALARM  ", mid, exp, ",".join(fired)))
            if verbose or (not ok and exp == "ok"):
                print("\n".join("      " + l[:260] for l in out.splitlines() if "|" in l or "Error" in l)[:600])
    print("%d mutants, %d unexpected" % (len(ms), bad))


main()
