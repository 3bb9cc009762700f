"""Type-check /repo's current source with the dumping driver and load the result."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(VERIF, "driver")
BIN = os.path.join(DRIVER, "target", "release", "mirdump")


class DumpError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise DumpError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_driver():
    src = os.path.join(DRIVER, "src", "main.rs")
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(src):
        return
    sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER)


def source_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def source_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    for p in sorted(os.listdir(os.path.join(VERIF, "lib"))):
        if p.endswith(".py"):
            h.update(open(os.path.join(VERIF, "lib", p), "rb").read())
    for p in sorted(os.listdir(os.path.join(VERIF, "spec"))):
        h.update(open(os.path.join(VERIF, "spec", p), "rb").read())
    h.update(open(os.path.join(DRIVER, "src", "main.rs"), "rb").read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def make_dump():
    """run rustc (type check and MIR construction only) on /repo; returns the dump"""
    build_driver()
    target = os.path.join(BUILD, "target")
    out = os.path.join(BUILD, "dump.json")
    if os.path.exists(out):
        os.remove(out)
    fp = os.path.join(target, "debug", ".fingerprint")
    for base in (fp, os.path.join(target, "debug", "build")):
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d == "nom-sparql" or d.startswith("nom-sparql-"):
                    subprocess.run(["rm", "-rf", os.path.join(base, d)])
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env.update(MIRDUMP_CRATE="nom_sparql", MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=BIN,
               MIRDUMP_FLAGS="-Zmir-opt-level=0", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=target,
               CARGO_TERM_COLOR="never")
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    log = sh(cmd, env=env)
    if not os.path.exists(out):
        raise DumpError("no dump written:\n" + log[-4000:])
    return json.load(open(out))


if __name__ == "__main__":
    with Lock():
        d = make_dump()
    print(len(d["bodies"]), "bodies,", len(d["adts"]), "types")
