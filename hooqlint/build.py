"""Build the MIR dumper and dump the crates of /repo's current working tree (offline, outside /repo)."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HOOQ_REPO", "/repo")
CACHE = os.environ.get("HOOQLINT_CACHE", os.path.join(VERIF, ".cache"))

CONFIGS = {
    "default": [],
    "consume": ["--features", "hooq/consume-question"],
    "none": ["--no-default-features"],
    "anyhow": ["--no-default-features", "--features", "hooq/anyhow"],
    "eyre": ["--no-default-features", "--features", "hooq/eyre"],
    "log": ["--no-default-features", "--features", "hooq/log"],
    "tracing": ["--no-default-features", "--features", "hooq/tracing"],
}


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WORKSPACE_WRAPPER"):
        if not env or k not in env:
            e.pop(k, None)
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    t = os.path.join(CACHE, "driver")
    run(["cargo", "+nightly", "build", "--offline", "-q"], {"CARGO_TARGET_DIR": t}, os.path.join(VERIF, "driver"))
    return os.path.join(t, "debug", "mirdump")


def dump(config="default"):
    """directory with hooq_macros.json, hooq_helpers.json, hooq.json for the current tree"""
    with lock():
        drv = driver()
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        t = os.path.join(CACHE, "target")
        out = os.path.join(CACHE, "dump-" + config)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        # forget the workspace crates so that cargo hands every one of them to the dumper again
        for f in glob.glob(os.path.join(t, "debug", ".fingerprint", "hooq*")) + glob.glob(os.path.join(t, "debug", "build", "hooq*")) + glob.glob(os.path.join(t, "debug", "incremental", "hooq*")):
            shutil.rmtree(f, ignore_errors=True)
        run(["cargo", "+nightly", "check", "--offline", "--locked", "--lib", "-p", "hooq-macros", "-p", "hooq-helpers", "-p", "hooq"] + CONFIGS[config],
            {"MIRDUMP_OUT": out, "RUSTC_WORKSPACE_WRAPPER": drv, "CARGO_TARGET_DIR": t, "CARGO_INCREMENTAL": "0",
             "LD_LIBRARY_PATH": os.path.join(sysroot, "lib") + ":" + os.environ.get("LD_LIBRARY_PATH", "")}, REPO)
        for n in ("hooq_macros", "hooq_helpers", "hooq"):
            if not os.path.exists(os.path.join(out, n + ".json")):
                raise BuildError("crate %s was not analysed" % n)
        return out


if __name__ == "__main__":
    for c in sys.argv[1:] or ["default"]:
        print(dump(c))
