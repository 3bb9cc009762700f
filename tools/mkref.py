#!/usr/bin/env python3
"""Apply behaviour-preserving edits in a scratch copy of /repo and run every check: none may raise an alarm.

usage: mkref.py [-jN] [id ...]
"""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REFS = {}


def ref(id, *edits):
    assert id not in REFS, id
    REFS[id] = edits


def run(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def one(id, scratch, notest):
    run(["git", "checkout", "-q", "--", "."], cwd=scratch)
    for f, old, new in REFS[id]:
        p = os.path.join(scratch, f)
        t = open(p, newline="").read()
        crlf = "\r\n" in t
        t = t.replace("\r\n", "\n")
        if t.count(old) != 1:
            return "BAD edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
        t = t.replace(old, new)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
    if not notest:
        t = run(["bash", "-c", "cargo test --offline --lib 2>&1 | tail -60"], cwd=scratch).stdout.decode()
        if "test result: ok. 49 passed" not in t:
            return "BAD\n" + t[-1800:]
    env = dict(os.environ, VERIF_REPO=scratch)
    o = run(["python3-vt", os.path.join(os.path.dirname(HERE), "check.py"), "all", "--no-evidence"], env=env).stdout.decode()
    run(["git", "checkout", "-q", "--", "."], cwd=scratch)
    v = sorted({l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION")})
    u = sorted({l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("UNDECIDED")})
    if "holds" not in o and not v:
        return "ERROR " + o[-1500:]
    und = (" undecided " + ",".join(u)) if u else ""
    if not v:
        return "quiet" + und
    return "ALARM %s%s\n%s" % (",".join(v), und, "\n".join(
        "    " + l[:300] for l in o.splitlines() if not l.startswith(("property=", "KNOWN", "UNDECIDED")))[:2500])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for f in sorted(os.listdir(os.path.join(HERE, "refactors"))):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(HERE, "refactors", f)).read(), f, "exec"), {"ref": ref})
    todo = args or sorted(REFS)
    jobs = [int(a[2:]) for a in sys.argv if a.startswith("-j")]
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    if jobs and jobs[0] > 1:
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__)] + opts + todo[k::jobs[0]])
              for k in range(jobs[0]) if todo[k::jobs[0]]]
        for p in ps:
            p.wait()
        return
    scratch = tempfile.mkdtemp(prefix="refrepo.", dir="/tmp")
    run(["cp", "-a", "/repo/.", scratch])
    try:
        for id in todo:
            print(id, one(id, scratch, "--notest" in sys.argv), flush=True)
    finally:
        run(["rm", "-rf", scratch])


if __name__ == "__main__":
    main()
