"""bug.py new SPEC.py ...  : create /verif/seeded/<id> from a spec;   bug.py verify ID ... : confirm it in a scratch copy

A spec defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] (old must occur once) and DEMO (python source)."""
import json, os, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
HDR = '''"""exit 0 when the property holds"""
import sys, os, io, tempfile, shutil, warnings, contextlib, datetime
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import pandas as pd
import ticdat
from ticdat import TicDatFactory, PanDatFactory
assert os.path.realpath(ticdat.__file__).startswith(os.path.realpath(os.getcwd())), ticdat.__file__
scratch = tempfile.mkdtemp(prefix="demo_")
import atexit
atexit.register(shutil.rmtree, scratch, True)
def fail(*a):
    print("BROKEN:", *a)
    sys.exit(1)
'''
SH = '#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexec timeout 250 /opt/venv/bin/python "$HERE/demo.py"\n'


def scratch():
    d = tempfile.mkdtemp(prefix="bugcopy_")
    os.chmod(d, 0o755)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    out = os.path.join(SEED, ns["ID"])
    os.makedirs(out, exist_ok=True)
    d = scratch()
    try:
        for f, a, b in ns["EDITS"]:
            p = os.path.join(d, "repo", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            assert s.count(a) == 1, (ns["ID"], f, s.count(a), a)
            open(p, "w", newline="").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", d + "/repo", "diff"])
        base = set(subprocess.check_output(["git", "-C", d + "/repo", "log", "--format=%H", "6384514"], text=True).split())
        hunk = subprocess.check_output(["git", "-C", d + "/repo", "diff", "-U0"], text=True, errors="replace")
        cur, old, new_, orig = None, 0, 0, 0
        for l in hunk.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:].strip()
            elif l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    bl = subprocess.check_output(["git", "-C", d + "/repo", "blame", "-l", "-s", "-L", "%s,+%s" % (a[0], n),
                                                  "HEAD", "--", cur], text=True, errors="replace")
                    for x in bl.splitlines():
                        if x.split()[0].lstrip("^")[:39] in {b[:39] for b in base}:
                            orig += 1
                        else:
                            new_ += 1
        print(ns["ID"], "removed lines: original", orig, "mine", new_)
        assert orig and not new_, ns["ID"]
    finally:
        shutil.rmtree(d)
    open(out + "/patch.diff", "wb").write(diff)
    open(out + "/demo.py", "w").write(HDR + ns["DEMO"])
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)


def verify(i, tests=True):
    out = os.path.join(SEED, i)
    d = scratch()
    try:
        r = d + "/repo"
        def demo():
            p = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
            return p.returncode, (p.stdout + p.stderr)[-400:]
        a = demo()
        subprocess.check_call(["git", "-C", r, "apply", out + "/patch.diff"])
        b = demo()
        ok = a[0] == 0 and b[0] != 0
        line = "%s demo clean=%s patched=%s" % (i, a[0], b[0])
        print(line, "" if ok else ("  <-- BAD\n%s\n%s" % (a, b)))
        print("    ", b[1].strip().splitlines()[-1:] )
        if tests and ok:
            s = open("/opt/vp/test.sh").read().replace("/repo", r)
            open(d + "/test.sh", "w").write(s)
            subprocess.run(["bash", d + "/test.sh", d + "/out.json"], capture_output=True)
            got = set(json.load(open(d + "/out.json"))["passed"])
            want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            got = {x.split("repo.")[-1] for x in got} | got
            miss = sorted(want - got)
            print("     tests:", "all stable pass" if not miss else "BROKE %s" % miss[:5])
    finally:
        shutil.rmtree(d)


def run(i, pid=None):
    """run the property's quick check against the patched /repo"""
    out = os.path.join(SEED, i)
    pid = pid or json.load(open(out + "/meta.json"))["property"]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip()
    subprocess.check_call(["git", "-C", "/repo", "apply", out + "/patch.diff"])
    try:
        p = subprocess.run(["python3", "/verif/check.py", pid], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, pid, "exit", p.returncode, "CAUGHT" if v else "MISSED", v[:3], p.stdout.splitlines()[:1])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])


def full(i):
    """demo, stable tests and the check, all in a scratch copy"""
    out = os.path.join(SEED, i)
    res = subprocess.run([sys.executable, __file__, "verify", i], capture_output=True, text=True)
    txt = res.stdout + res.stderr[-500:]
    pid = json.load(open(out + "/meta.json"))["property"]
    d = scratch()
    try:
        subprocess.check_call(["git", "-C", d + "/repo", "apply", out + "/patch.diff"])
        import time
        t = time.time()
        p = subprocess.run(["python3", "/verif/check.py", pid], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", TICDAT_REPO=d + "/repo"))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        txt += "     check %s exit %s %s %d s %s\n" % (pid, p.returncode, "CAUGHT" if v else "MISSED", time.time() - t, v[:1])
        if p.returncode not in (0, 1):
            txt += p.stderr[-600:]
    finally:
        shutil.rmtree(d)
    return txt


if __name__ == "__main__":
    if sys.argv[1] == "full":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for x in ex.map(full, sys.argv[2:]):
                print(x, flush=True)
        sys.exit()
    cmd, args = sys.argv[1], sys.argv[2:]
    for a in args:
        {"new": new, "verify": verify, "demo": lambda a: verify(a, False), "run": run}[cmd](a)
