"""Bootstrap: build the MIR dumper if needed and dump /repo's current source."""
import hashlib, json, os, subprocess, sys, shutil, tempfile, fcntl, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, ".cache")
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def _run(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def nightly(what):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    if what == "rustc":
        rc, o = _run(["rustup", "which", "--toolchain", "nightly", "rustc"], env)
    else:
        rc, o = _run(["rustc", "+nightly", "--print", "sysroot"], env)
    if rc:
        raise BuildError(o)
    return o.strip().splitlines()[-1]


def driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "mirdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = _run(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", "-o", tmp, src])
        if rc:
            raise BuildError("driver does not build:\n" + o)
        os.rename(tmp, out)
    return out


def source_hash():
    h = hashlib.sha256()
    for root in ("src", "groth16/src"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for f in ("Cargo.toml", "groth16/Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "driver", "mirdump.rs"), "rb").read())
    return h.hexdigest()[:20]


def dumps():
    """Returns {config: {crate: path}}; config in ('mt', 'st')."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dumps()


def _dumps():
    h = source_hash()
    outdir = os.path.join(CACHE, "mir-" + h)
    res = {"mt": {c: os.path.join(outdir, "mt", c + ".json") for c in ("bellman", "groth16")},
           "st": {"bellman": os.path.join(outdir, "st", "bellman.json")}}
    if all(os.path.exists(p) for m in res.values() for p in m.values()):
        return res
    for old in os.listdir(CACHE):
        q = os.path.join(CACHE, old)
        if old.startswith("mir-") and time.time() - os.path.getmtime(q) > 1800:    # another run may be reading a recent one
            shutil.rmtree(q, ignore_errors=True)
    drv = driver()
    sysroot = nightly("sysroot")
    rustc = nightly("rustc")
    procs = []
    for cfg, args in (("mt", ["-p", "groth16", "--lib"]),
                      ("st", ["-p", "bellman", "--lib", "--no-default-features"])):
        d = os.path.join(outdir, cfg)
        os.makedirs(d, exist_ok=True)
        tgt = os.path.join(CACHE, "target-" + cfg)
        env = dict(os.environ)
        env.update({"RUSTUP_TOOLCHAIN": "1.70.0", "RUSTC": rustc, "CARGO_TARGET_DIR": tgt,
                    "RUSTC_WORKSPACE_WRAPPER": drv, "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
                    "MIRDUMP_OUT": d, "MIRDUMP_CRATES": "bellman,groth16",
                    # a fresh value makes cargo rebuild the workspace members
                    "RUSTFLAGS": "-Awarnings --cfg mirdump_%s" % h,
                    "CARGO_INCREMENTAL": "0", "CARGO_NET_OFFLINE": "true"})
        for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k, None)
        p = subprocess.Popen(["cargo", "check", "--offline", "--locked"] + args, env=env, cwd=REPO,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((cfg, p, tgt))
    for cfg, p, tgt in procs:
        o, _ = p.communicate(timeout=800)
        if p.returncode:
            shutil.rmtree(outdir, ignore_errors=True)
            raise BuildError("cargo check (%s) failed:\n%s" % (cfg, o[-4000:]))
        shutil.rmtree(tgt, ignore_errors=True)
    for m in res.values():
        for pth in m.values():
            if not os.path.exists(pth):
                raise BuildError("no MIR dump " + pth)
    return res


if __name__ == "__main__":
    print(json.dumps(dumps(), indent=1))
