#!/usr/bin/env python3
"""Make the planted changes under /verif/seeded from tools/seeds/*.py and confirm them in a scratch copy.

Every file in tools/seeds calls seed(id, property, [(file, old, new), ...], demo, needs, breaks).
usage: mkseed.py [--check] [id ...]
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "8c2e625"
SEEDS = {}

PRELUDE = r'''#![allow(unused)]
use nom_sparql::*;
use std::fmt::Debug;

/// remainder and tree, or the error, as text
fn show<'a, T: Debug>(r: nom::IResult<&'a str, T>) -> String {
    match r {
        Ok((rest, t)) => format!("REST[{}] {:?}", rest, t),
        Err(e) => format!("ERR {:?}", e),
    }
}
fn q(t: &str) -> String { show(parser::sparql_query_stmt(t)) }
fn u(t: &str) -> String { show(update::update(t)) }
fn has(s: &str, part: &str) { assert!(s.contains(part), "expected {:?} in {}", part, s); }
fn hasnt(s: &str, part: &str) { assert!(!s.contains(part), "did not expect {:?} in {}", part, s); }
/// everything was read
fn whole(s: &str) { assert!(s.starts_with("REST[] "), "not read to its end: {}", s); }
fn same(a: String, b: String) { assert_eq!(a, b); }
fn err(s: &str) { assert!(s.starts_with("ERR Error"), "expected an error: {}", s); }
/// the parts occur in this order
fn order(s: &str, parts: &[&str]) {
    let mut at = 0;
    for p in parts {
        match s[at..].find(p) { Some(k) => at += k + p.len(), None => panic!("{:?} missing (in this order) in {}", p, s) }
    }
}
'''

DEMO = r'''#!/bin/bash
# Builds a copy of the crate with its rules made public and runs demo.rs against it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/seed-demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/r" "$w/r/examples"
cp -r src Cargo.toml "$w/r/" || exit 3
[ -f Cargo.lock ] && cp Cargo.lock "$w/r/"
find "$w/r/src" -name '*.rs' -exec sed -i 's/pub(crate)/pub/g' {} +
cp "$here/demo.rs" "$w/r/examples/demo.rs"
cd "$w/r" || exit 3
export CARGO_TARGET_DIR="$w/t"
cargo build --offline -q --example demo 2>"$w/log" || { tail -20 "$w/log"; exit 4; }
timeout 60 "$w/t/debug/examples/demo" >"$w/out" 2>&1
rc=$?
head -c 2000 "$w/out"
exit $rc
'''


def seed(id, prop, edits, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def run(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def original_lines(repo, patched_files):
    """which removed lines are not lines of the original repository"""
    bad = []
    for f in patched_files:
        d = run(["git", "diff", "-U0", "--", f], cwd=repo).stdout.decode("utf8", "replace")
        for l in d.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                for k in range(int(a[0]), int(a[0]) + n):
                    b = run(["git", "blame", "-s", "-L", "%d,%d" % (k, k), "HEAD", "--", f], cwd=repo).stdout.decode()
                    if not b.lstrip("^").startswith(BASE[:6]):
                        bad.append((f, k, b.strip()[:100]))
    return bad


def make(id, scratch):
    s = SEEDS[id]
    run(["git", "checkout", "-q", "--", "."], cwd=scratch)
    files = []
    for f, old, new in s["edits"]:
        p = os.path.join(scratch, f)
        t = open(p, newline="").read()
        crlf = "\r\n" in t
        if crlf:
            t = t.replace("\r\n", "\n")
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
        t = t.replace(old, new)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        if f not in files:
            files.append(f)
    bad = original_lines(scratch, files)
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    patch = run(["git", "diff"], cwd=scratch).stdout
    b = run(["bash", "-c", "cargo build --offline 2>&1 | tail -30; exit ${PIPESTATUS[0]}"], cwd=scratch)
    if b.returncode:
        return "does not build\n" + b.stdout.decode()[-2500:]
    t = run(["bash", "-c", "cargo test --offline --lib 2>&1 | tail -30"], cwd=scratch).stdout.decode()
    base = json.load(open("/opt/vp/BASELINE.json"))
    if "49 passed; 0 failed" not in t and "test result: ok. 49 passed" not in t:
        return "tests fail: " + " ".join(l.strip() for l in t.split("failures:")[-1].splitlines() if "::" in l)
    open(os.path.join(d, "patch.diff"), "wb").write(patch)
    open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + "\nfn main() {\n" + s["demo"].strip("\n") + "\n}\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    r1 = run(["bash", os.path.join(d, "demo.sh")], cwd=scratch)
    run(["git", "checkout", "-q", "--", "."], cwd=scratch)
    r0 = run(["bash", os.path.join(d, "demo.sh")], cwd=scratch)
    out = []
    if r0.returncode:
        out.append("demo fails without the patch: %d\n%s" % (r0.returncode, r0.stdout.decode()[-1500:]))
    if r1.returncode == 0:
        out.append("demo passes with the patch")
    elif r1.returncode in (3, 4):
        out.append("demo does not build with the patch\n" + r1.stdout.decode()[-1500:])
    if bad:
        out.append("touches lines of a fix: %s" % bad)
    return "\n".join(out) or None


def check(id, scratch):
    """which checks report it"""
    run(["git", "checkout", "-q", "--", "."], cwd=scratch)
    r = run(["git", "apply", os.path.join(OUT, id, "patch.diff")], cwd=scratch)
    if r.returncode:
        return "does not apply"
    env = dict(os.environ, VERIF_REPO=scratch)
    o = run(["python3-vt", os.path.join(os.path.dirname(HERE), "check.py"), "all", "--no-evidence"], env=env).stdout.decode()
    run(["git", "checkout", "-q", "--", "."], cwd=scratch)
    got = [l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION")]
    und = [l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("UNDECIDED")]
    own = json.load(open(os.path.join(OUT, id, "meta.json")))["property"]
    if "VIOLATION" not in o and "holds" not in o:
        return "ERROR " + o[-600:]
    return "%s %-4s by %s%s" % ("caught" if own in got else "MISSED", own, ",".join(got) or "-",
                                 (" undecided " + ",".join(sorted(set(und)))) if und else "")


def main():
    global seed
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for f in sorted(os.listdir(os.path.join(HERE, "seeds"))):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(HERE, "seeds", f)).read(), f, "exec"), {"seed": seed})
    jobs = [int(a[2:]) for a in sys.argv if a.startswith("-j")]
    todo = args or sorted(SEEDS)
    if jobs and jobs[0] > 1:
        if not args and "--check" not in sys.argv and "--all" not in sys.argv:
            todo = [i for i in todo if not os.path.exists(os.path.join(OUT, i, "patch.diff"))]
        opts = [a for a in sys.argv[1:] if a.startswith("--")]
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__)] + opts + todo[k::jobs[0]])
              for k in range(jobs[0]) if todo[k::jobs[0]]]
        for p in ps:
            p.wait()
        return
    scratch = tempfile.mkdtemp(prefix="seedrepo.", dir="/tmp")
    run(["cp", "-a", "/repo/.", scratch])
    try:
        for id in todo:
            if "--check" not in sys.argv:
                have = os.path.exists(os.path.join(OUT, id, "patch.diff"))
                if have and not args and "--all" not in sys.argv:
                    continue
                e = make(id, scratch)
                if e:
                    print(id, "BAD:", e, flush=True)
                    run(["rm", "-rf", os.path.join(OUT, id)])
                    continue
            print(id, check(id, scratch), flush=True)
    finally:
        run(["rm", "-rf", scratch])


if __name__ == "__main__":
    main()
