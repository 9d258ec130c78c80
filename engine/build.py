"""Builds the analysis tools and extracts the MIR of the code under analysis."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(ROOT, "build")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def stale(out, deps):
    return not os.path.exists(out) or any(os.path.getmtime(d) > os.path.getmtime(out) for d in deps)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tools():
    """Builds the driver and the LP kernel if they are missing or out of date."""
    with Lock():
        src = glob.glob(os.path.join(ROOT, "driver", "src", "*.rs")) + [os.path.join(ROOT, "driver", "Cargo.toml")]
        key = digest(src + [os.path.join(ROOT, "engine", "lp.c")])
        stamp = os.path.join(B, "tools.stamp")
        drv = os.path.join(B, "driver", "release", "mirdump")
        lp = os.path.join(B, "liblp.so")
        try:
            ok = open(stamp).read() == key and os.path.exists(drv) and os.path.exists(lp)
        except OSError:
            ok = False
        if ok:
            return drv
        rc, o = sh(["gcc", "-O2", "-shared", "-fPIC", "-o", lp, os.path.join(ROOT, "engine", "lp.c")])
        if rc:
            raise SystemExit("building the LP kernel failed:\n" + o)
        rc, o = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(B, "driver")],
                   cwd=os.path.join(ROOT, "driver"), env=env())
        if rc:
            raise SystemExit("building the MIR driver failed:\n" + o)
        with open(stamp, "w") as f:
            f.write(key)
        return drv


FAST = ("num", "interp", "models", "kernel")
CYTHON = ("/opt/veriftools/pyvenv/bin/cython", "cython3", "cython")


def fast():
    """Compiles the analyser's own hot modules with Cython; without a working Cython the plain
    Python sources are used (same results, slower)."""
    if sys.version_info[:2] != (3, 12) or os.environ.get("VERIF_SLOW"):
        return
    with Lock():
        eng = os.path.join(ROOT, "engine")
        src = [os.path.join(eng, f) for f in ("num.py", "num.pxd", "interp.py", "models.py", "kernel.pyx", "lp.c")]
        d = os.path.join(B, "fast-" + digest(src))
        if not os.path.isdir(d):
            cy = next((c for c in CYTHON if shutil.which(c)), None)
            inc = sysconfig.get_paths()["include"]
            if not cy or not os.path.exists(os.path.join(inc, "Python.h")):
                return
            w = d + ".tmp"
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            for f in src:
                shutil.copy(f, w)
            suf = sysconfig.get_config_var("EXT_SUFFIX")
            ps = []
            for m in FAST:
                f = m + (".pyx" if m == "kernel" else ".py")
                ps.append(subprocess.Popen(["sh", "-c", "%s -3 -X boundscheck=False %s -o %s.c && gcc -O1 -w -shared -fPIC -I%s %s.c -o %s%s"
                                            % (cy, f, m, inc, m, m, suf)], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            if any([p.wait() for p in ps]):
                return
            for f in os.listdir(w):
                if not f.endswith(suf):
                    os.remove(os.path.join(w, f))
            os.rename(w, d)
            for o in glob.glob(os.path.join(B, "fast-*")):
                if o != d:
                    shutil.rmtree(o, ignore_errors=True)
    os.environ["VERIF_ROOT"] = ROOT
    sys.path.insert(0, d)


def repo_files():
    r = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(d, f) for f in fs]
    return [p for p in r if os.path.exists(p)]


class BuildError(Exception):
    pass


def dumps():
    """The dump, and that of a build without debug assertions if the source depends on them."""
    r = [dump()]
    for p in repo_files():
        if p.endswith(".rs") and b"debug_assert" in open(p, "rb").read():
            return r + [dump("off")]
    return r


def dump(debug="on"):
    """Path of the MIR dump of the current tree (cached by content)."""
    drv = tools()
    with Lock():
        key = digest(repo_files() + [drv]) + ("" if debug == "on" else "-off")
        out = os.path.join(B, "dump-%s.txt" % key)
        if os.path.exists(out):
            os.utime(out)
            return out
        for p in sorted(glob.glob(os.path.join(B, "dump-*.txt")), key=os.path.getmtime)[:-6]:
            os.remove(p)
        rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env=env())
        if rc:
            raise SystemExit("no nightly toolchain: " + sysroot)
        e = env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot.strip(), "lib")
        tmp = out + ".tmp%d" % os.getpid()
        e["MIRDUMP_OUT"] = tmp
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Zub-checks=no -Cdebug-assertions=%s" % debug
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        chk = os.path.join(B, "chk")
        for d in (".fingerprint", "build", "incremental"):      # force the crate itself to be compiled again
            for p in glob.glob(os.path.join(chk, "debug", d, "momentous*")):
                shutil.rmtree(p, ignore_errors=True)
        e["CARGO_INCREMENTAL"] = "0"
        rc, o = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                    "--target-dir", chk], env=e)
        if rc or not os.path.exists(tmp):
            raise BuildError(o)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(dump())
