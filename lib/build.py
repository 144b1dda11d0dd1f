"""Builds the driver and dumps the MIR of the harness together with /repo's current tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FD_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver():
    exe = os.path.join(BUILD, "driver", "release", "mirdump")
    src = os.path.join(VERIF, "driver")
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise SystemExit("driver does not build:\n" + r.stdout)
    return exe


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ("src",):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(root, f) for f in files]
    fs.append(os.path.join(REPO, "Cargo.toml"))
    for root in ("harness", "driver"):
        for p, _, files in os.walk(os.path.join(VERIF, root)):
            fs += [os.path.join(p, f) for f in files]
    fs.append(os.path.join(VERIF, "lib", "stop.txt"))
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def harness_dir(work):
    """The harness, with its path dependency pointing at REPO."""
    src = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(work, "harness")
    shutil.copytree(src, dst, dirs_exist_ok=True)
    p = os.path.join(dst, "Cargo.toml")
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(p, "w").write(s)
    return dst


def dump():
    """Path of the JSON dump of the current tree (cached by content)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "dump-%s.json" % key)
        if os.path.exists(out):
            return out
        exe = driver()
        for old in glob.glob(os.path.join(BUILD, "dump-*")):
            os.remove(old)
        work = os.path.join(BUILD, "work")
        target = os.path.join(BUILD, "target")
        hd = harness_dir(work)
        # never reuse a previous build of the two crates of interest
        for pat in ("*/.fingerprint/flatdata-*", "*/.fingerprint/fdharness-*", "*/build/flatdata*", "*/build/fdharness*",
                    "*/incremental"):
            for d in glob.glob(os.path.join(target, pat)):
                shutil.rmtree(d)
        tmp = out + ".tmp"
        env = dict(os.environ)
        env.update(
            CARGO_TARGET_DIR=target,
            RUSTC_WORKSPACE_WRAPPER=exe,
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Coverflow-checks=on "
                      "-Cdebug-assertions=off --cap-lints=allow",
            LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
            MIRDUMP_CRATE="fdharness",
            MIRDUMP_OUT=tmp,
            MIRDUMP_STOP=os.path.join(VERIF, "lib", "stop.txt"),
        )
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-q"], cwd=hd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise BuildError(r.stdout)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    if "--setup" in sys.argv:
        driver()
    print(dump())
