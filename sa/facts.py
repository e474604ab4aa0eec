"""Builds the rustc driver, type-checks /repo's crates through it and loads the dumped facts.

Nothing of /repo is executed: `cargo check` stops after type checking and MIR construction."""
from . import renames
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SDS_REPO", "/repo")
BUILD = os.environ.get("SDS_BUILD") or os.path.join(VERIF, "build")
CRATES = ["dd_sds", "sds_bindings_utils", "dd_sds_go", "sdsmodels", "sdsref"]
ROOTS = ["sds/src", "sds/Cargo.toml", "sds-bindings-utils/src", "sds-go/rust/src"]


class FactsError(Exception):
    pass


def _files(base, roots):
    out = []
    for r in roots:
        p = os.path.join(base, r)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            if "target" in ds:
                ds.remove("target")
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    return sorted(set(out))


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=e)
    if root.returncode:
        raise FactsError("nightly toolchain missing: " + root.stderr)
    e["LD_LIBRARY_PATH"] = root.stdout.strip() + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_driver():
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"),
                       env=e, capture_output=True, text=True)
    if r.returncode:
        raise FactsError("driver build failed:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "driver", "debug", "factdump")


def ensure():
    """returns the directory with the facts of the current /repo tree"""
    os.makedirs(BUILD, exist_ok=True)
    own = _files(VERIF, ["driver/src", "driver/Cargo.toml", "ws"])
    key = _hash(_files(REPO, ROOTS) + own)
    out = os.path.join(BUILD, "facts", key)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            return out
        drv = build_driver()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        ws = os.path.join(BUILD, "wscopy")
        shutil.rmtree(ws, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "ws"), ws)
        if REPO != "/repo":
            for m in ("sds", "bindings", "gobind"):
                p = os.path.join(ws, m, "Cargo.toml")
                s = open(p).read().replace('"/repo/', '"' + REPO + "/")
                open(p, "w").write(s)
        e = _env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "ws")
        e["FACTS_OUT"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        # the freshness cache would skip the driver on a warm target directory
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "--quiet", "-p", "dd-sds", "-p", "sds-bindings-utils",
                        "-p", "dd_sds_go", "-p", "sdsmodels", "-p", "sdsref"], cwd=ws, env=e, capture_output=True)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet"], cwd=ws, env=e, capture_output=True, text=True)
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if r.returncode or missing:
            raise FactsError("type-checking /repo failed (missing facts: %s)\n%s" % (missing, r.stderr[-6000:]))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep only the newest few fact directories
        base = os.path.join(BUILD, "facts")
        ds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
        for _, d in ds[:-4]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        return out


class Facts:
    def __init__(self):
        self.dir = ensure()
        self.bodies, self.promoted, self.adts, self.statics, self.consts, self.impls = {}, {}, {}, {}, {}, []
        self.crate_of = {}
        texts = {}
        for c in CRATES:
            with open(os.path.join(self.dir, c + ".json")) as f:
                texts[c] = f.read()
        ds, self.renamed, self.base = renames.apply(texts)
        for c in CRATES:
            d = ds[c]
            for b in d["bodies"]:
                b["crate"] = c
                if "promoted" in b:
                    self.promoted[(b["path"], b["promoted"])] = b
                else:
                    self.bodies[b["path"]] = b
            for a in d["adts"]:
                self.adts[a["path"]] = a
            for a in d["statics"]:
                self.statics[a["path"]] = a
            for a in d["consts"]:
                self.consts[a["path"]] = a
            for a in d["impls"]:
                a["crate"] = c
                self.impls.append(a)
        # every local enum variant / tuple struct constructor
        self.ctors = {}
        for p, a in self.adts.items():
            for v in a["variants"]:
                names = tuple(f["n"] for f in v["fields"])
                if a["kind"] == "Enum":
                    self.ctors[p + "::" + v["n"]] = (p, v["n"], names)
                else:
                    self.ctors[p] = (p, "", names)


_cache = None


def load():
    global _cache
    if _cache is None:
        _cache = Facts()
    return _cache
