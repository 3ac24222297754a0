"""Shared by check.py and setup: building harness binaries from /repo's current working tree."""
import hashlib, json, os, pathlib, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
OUT = VERIF / "out"
TARGET = VERIF / "target"
EVIDENCE = VERIF / "evidence"


class BuildError(Exception):
    pass


def repo_digest():
    """Content of everything in /repo that can influence a build."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = pathlib.Path(root) / f
            if p.suffix in (".rs", ".toml", ".lock", ".sage", ".bin", ".param"):
                h.update(str(p).encode() + b"\0")
                h.update(hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=str(TARGET), CARGO_TERM_COLOR="never", VERIF_OUT=str(OUT),
             VERIF_SAGE_REF=str(VERIF / "driver" / "sage_ref.py"))
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def forget_stale():
    """cargo decides by time stamps; a copied or re-checked-out tree can carry old ones. When the
    content of /repo is not what the target directory was last built from, drop what was built
    from it."""
    TARGET.mkdir(exist_ok=True)
    stamp = TARGET / "repo-digest"
    d = repo_digest()
    if stamp.exists() and stamp.read_text() == d:
        return
    for fp in TARGET.glob("*/.fingerprint"):
        for x in fp.iterdir():
            if x.name.split("-")[0] in ("poseidon377", "poseidon", "native", "r1cs", "paramgen", "pggen", "cfgworker"):
                shutil.rmtree(x)
    stamp.write_text(d)


def cargo_build(crate, bins, profile, features=(), extra=()):
    """Returns the directory the binaries are in."""
    m = VERIF / "harness" / crate / "Cargo.toml"
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", str(m), "--profile", profile]
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", ",".join(features)]
    cmd += list(extra)
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return TARGET / ("debug" if profile == "dev" else profile)


def place(built, name):
    """Copy a built binary aside, so that building another configuration cannot replace it."""
    d = TARGET / "bins"
    d.mkdir(exist_ok=True)
    dst = d / name
    tmp = d / (name + ".tmp%d" % os.getpid())
    shutil.copy2(built, tmp)
    os.replace(tmp, dst)
    return dst
