"""Build the code under test from /repo's working tree and the native seam. Everything goes to /verif/.build."""
import fcntl
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))


def vp_env():
    """Environment of the repository's own build."""
    env = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    if r.returncode == 0:
        for kv in r.stdout.decode().split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    return env


def python():
    return vp_env().get("PY", "/opt/vp/venv/bin/python")


class BuildError(Exception):
    pass


def sh(cmd, env, cwd):
    r = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{r.stdout[-3000:]}\n{r.stderr[-6000:]}")


def build():
    """Returns the timings."""
    os.makedirs(OUT, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        so = os.path.join(OUT, "simnet.so")
        src = os.path.join(HERE, "sim", "native", "simnet.c")
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            tmp = so + ".tmp"
            sh(["gcc", "-O2", "-Wall", "-fPIC", "-shared", "-o", tmp, src, "-ldl"], dict(os.environ), HERE)
            os.replace(tmp, so)
        env = vp_env()
        env["CARGO_TARGET_DIR"] = os.path.join(OUT, "target")
        env["CARGO_PROFILE_RELEASE_LTO"] = "off"
        env["CARGO_PROFILE_RELEASE_CODEGEN_UNITS"] = "16"
        env["CARGO_INCREMENTAL"] = "0"
        env.pop("LD_PRELOAD", None)
        sh(["cargo", "build", "--release", "--lib", "--offline"], env, REPO)
        lib = os.path.join(OUT, "target", "release", "libgufo_snmp.so")
        py = os.path.join(OUT, "py")
        tmp = py + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(
            os.path.join(REPO, "src", "gufo"), os.path.join(tmp, "gufo"),
            ignore=shutil.ignore_patterns("__pycache__", "*.so"),
        )
        shutil.copy2(lib, os.path.join(tmp, "gufo", "snmp", "_fast.so"))
        shutil.rmtree(py, ignore_errors=True)
        os.replace(tmp, py)
    return time.time() - t0


if __name__ == "__main__":
    try:
        print(f"built in {build():.1f}s")
        sys.path.insert(0, os.path.join(HERE, "sim"))
        import rustlayer  # noqa: E402

        print(f"element layer: {rustlayer.compile_it()[1]}")
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
