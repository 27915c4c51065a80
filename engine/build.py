"""Builds what a check needs: the extraction driver, and yaserde + yaserde_derive from the current /repo."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TAG = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
BUILD = os.path.join(VERIF, "build")
TOOL = "nightly"
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on --cap-lints=allow"


class BuildError(Exception):
    """The repository's own crates do not build."""


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(extra or {})
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "+" + TOOL, "--print", "sysroot"], capture_output=True, text=True, check=True,
                                  env=env()).stdout.strip()
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    """path of the extraction driver, (re)built if its sources are newer"""
    with Lock("driver"):
        src = os.path.join(VERIF, "driver")
        tgt = os.path.join(BUILD, "driver")
        r = subprocess.run(["cargo", "+" + TOOL, "build", "--offline", "--quiet", "--manifest-path", src + "/Cargo.toml",
                            "--target-dir", tgt], capture_output=True, text=True, env=env())
        if r.returncode != 0:
            raise RuntimeError("driver does not build:\n" + r.stderr[-4000:])
        return os.path.join(tgt, "debug", "mirdump")


def deps():
    """builds yaserde and yaserde_derive from REPO; returns {crate: rlib path}, [-L dirs]"""
    with Lock("deps" + TAG):
        d = os.path.join(BUILD, "deps" + TAG)
        os.makedirs(d + "/src", exist_ok=True)
        t = open(os.path.join(VERIF, "deps", "Cargo.toml.in")).read().replace("@REPO@", REPO)
        write_if_changed(d + "/Cargo.toml", t)
        write_if_changed(d + "/src/lib.rs", "")
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            lock = os.path.join(VERIF, "deps", "Cargo.lock")
        if not os.path.exists(d + "/Cargo.lock"):
            shutil.copy(lock, d + "/Cargo.lock")
        tgt = os.path.join(BUILD, "target" + TAG)
        e = env({"RUSTFLAGS": FLAGS})
        base = ["cargo", "+" + TOOL]
        common = ["--offline", "--manifest-path", d + "/Cargo.toml", "--target-dir", tgt]
        # never trust time stamps for the code under analysis
        if os.path.isdir(tgt):
            subprocess.run(base + ["clean"] + common + ["-p", "yaserde", "-p", "yaserde_derive"], capture_output=True, env=e)
        r = subprocess.run(base + ["build", "--message-format=json-render-diagnostics"] + common,
                           capture_output=True, text=True, env=e)
        if r.returncode != 0:
            raise BuildError(r.stderr[-6000:])
        ext, dirs = {}, set()
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-artifact":
                continue
            nm = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                dirs.add(os.path.dirname(f))
                if f.endswith((".rmeta", ".so")) or f.endswith(".rlib") and nm not in ext:
                    ext[nm] = f
        return ext, sorted(dirs)


def write_if_changed(p, t):
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)


def dump(drv, ext, dirs, name, src_text, policy, outdir):
    """compile one probe source with the driver; returns (json path | None, stderr)"""
    os.makedirs(outdir, exist_ok=True)
    src = os.path.join(outdir, name + ".rs")
    open(src, "w").write(src_text)
    out = os.path.join(outdir, name + ".json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [drv, src, "--crate-name", name, "--crate-type", "lib", "--edition", "2021", "--sysroot", sysroot(),
           "-o", os.path.join(outdir, "lib%s.rlib" % name), "--cap-lints=allow", "--error-format=json"] + FLAGS.split()
    for c in ("yaserde", "yaserde_derive", "xml", "log"):
        if c in ext:
            cmd += ["--extern", "%s=%s" % (c, ext[c])]
    for d in dirs:
        cmd += ["-L", "dependency=" + d]
    e = env({"MIRDUMP_OUT": out, "MIRDUMP_POLICY": policy, "LD_LIBRARY_PATH": sysroot() + "/lib"})
    r = subprocess.run(cmd, capture_output=True, text=True, env=e)
    return (out if r.returncode == 0 and os.path.exists(out) else None), r.stderr


if __name__ == "__main__":
    t = time.time()
    print(driver())
    print("driver %.1fs" % (time.time() - t)); t = time.time()
    e, d = deps()
    print(json.dumps(e, indent=1), len(d))
    print("deps %.1fs" % (time.time() - t))
