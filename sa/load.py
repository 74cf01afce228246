"""Extract the MIR of /repo's current tree (fresh every run) and index it."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")


class ExtractError(Exception):
    pass


def _env():
    env = dict(os.environ)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                             cwd=VERIF).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


def build_driver():
    """Build (or reuse) the extractor; returns the path of the driver binary."""
    out = os.path.join(VERIF, "build", "driver")
    exe = os.path.join(out, "release", "mirdump")
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", out],
                       cwd=os.path.join(VERIF, "driver"), env=_env(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise ExtractError("building the extractor failed:\n" + r.stderr[-3000:])
    return exe


def extract(repo=None, crate="anothertls"):
    repo = repo or REPO
    pre = os.environ.get("SA_MIR_JSON")  # development shortcut only
    if pre:
        return json.load(open(pre))
    exe = build_driver()
    tmp = tempfile.mkdtemp(prefix="sa-mir-")
    try:
        out = os.path.join(tmp, "mir.json")
        env = _env()
        env["MIRDUMP_CRATE"] = crate
        env["MIRDUMP_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        r = subprocess.run(["cargo", "+nightly", "check", "-p", crate, "--lib", "--offline",
                            "--target-dir", os.path.join(tmp, "t")],
                           cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise ExtractError("extracting MIR failed:\n" + r.stderr[-3000:])
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
