"""Find gaps: apply small syntactic changes to ticdat in scratch copies and see which checks notice.

mutate.py REACHED_DIR OUT.jsonl [--n 100] [--seed 1] [--files a.py,b.py] [--jobs 3]
REACHED_DIR/CXX.json : what VMON_REACHED wrote for each check.  Survivors are for a human to triage."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("reached"); ap.add_argument("out")
ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files"); ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--scale")
ap.add_argument("--max-checks", type=int, default=8)
a = ap.parse_args()
ROOT = "/repo/ticdat/"
reached = {}
for f in sorted(os.listdir(a.reached)):
    for mod, lines in json.load(open(os.path.join(a.reached, f))).items():
        for n in lines:
            reached.setdefault((mod, n), []).append(f[:3])
size = {}
for (m, n), cs in reached.items():
    for c in cs:
        size[c] = size.get(c, 0) + 1


def mutants(src):
    """(lineno, what, new source) by replacing the text of one node"""
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def text(n):
        s, e = span(n)
        return raw[s:e].decode()
    out = []
    def rep(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, lambda: (raw[:s] + new.encode() + raw[e:]).decode()))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
    CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                rep(n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "compare " + o)
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + op.join("(%s)" % r for r in rest) + ")", "drop operand %d" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(%s)" % text(n.operand), "drop not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, "(%s)" % text(n.operand), "drop minus")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), "flip bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            rep(n, str(n.value + 1), "int+1")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            rep(n, "(%s)" % text(n.left), "drop right operand")
        elif isinstance(n, ast.Call):
            fn = text(n.func)
            if fn in ("list", "set", "dict", "tuple", "frozenset", "reversed", "sorted", "str", "float", "int", "deep_freeze",
                      "FrozenDict", "utils.FrozenDict") and len(n.args) == 1 and not n.keywords:
                rep(n, "(%s)" % text(n.args[0]), "unwrap " + fn)
            for k in n.keywords:
                if k.arg:
                    parts = [text(x) for x in n.args] + [(q.arg + "=" if q.arg else "**") + text(q.value)
                                                         for q in n.keywords if q is not k]
                    rep(n, "%s(%s)" % (fn, ", ".join(parts)), "drop argument " + k.arg)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("difference", "intersection", "copy", "lower", "union"):
                rep(n, "(%s)" % text(n.func.value), "drop ." + n.func.attr)
        elif isinstance(n, ast.IfExp):
            rep(n, "(%s)" % text(n.body), "ifexp body"); rep(n, "(%s)" % text(n.orelse), "ifexp else")
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, "(%s) and False" % text(n.test), "if False")
            if isinstance(n, ast.If):
                rep(n.test, "(%s) or True" % text(n.test), "if True")
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                rep(t, "((%s) or True)" % text(t), "comprehension filter off")
        elif isinstance(n, ast.Expr) and id(n) not in docs and isinstance(n.value, ast.Call):
            fn = text(n.value.func)
            if fn != "print":
                rep(n, "pass", "drop statement " + fn)
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, "pass", "drop break/continue")
        elif isinstance(n, ast.AugAssign):
            rep(n, "pass", "drop augmented assignment")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            rep(n, "pass", "drop assignment")
    return out


pool = []
files = a.files.split(",") if a.files else ["csvtd.py", "jsontd.py", "model.py", "pandatfactory.py", "pandatio.py", "pgtd.py",
                                            "sqlitetd.py", "ticdatfactory.py", "utils.py", "xls.py"]
for f in files:
    src = open(ROOT + f, newline="").read()
    crlf = "\r\n" in src
    if crlf:
        src = src.replace("\r\n", "\n")
    orig = src.split("\n")
    for no, what, new in mutants(src):
        if (f, no) not in reached:
            continue
        pool.append((f, no, what, new, orig[no - 1].strip(), crlf))
print(len(pool), "mutants on executed lines", flush=True)
random.Random(a.seed).shuffle(pool)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["what"]))
lock = threading.Lock()


def run(m):
    f, no, what, new, txt, crlf = m
    new = new()
    try:
        compile(new, f, "exec")
    except SyntaxError:
        return
    if crlf:
        new = new.replace("\n", "\r\n")
    d = tempfile.mkdtemp(prefix="mut_")
    os.chmod(d, 0o755)
    res = dict(file=f, line=no, what=what, text=txt)
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        p = d + "/repo/ticdat/" + f
        with open(p, "w", newline="") as fh:
            fh.write(new)
        checks = sorted(reached[f, no], key=lambda c: size[c])
        rnd = random.Random(str(m[:3]))
        # the most specific checks first
        res["checks"] = checks
        res["ran"] = []
        for c in checks[:a.max_checks]:
            t = time.time()
            p = subprocess.run(["python3", "/verif/check.py", c] + (["--scale", a.scale] if a.scale else []),
                               capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", TICDAT_REPO=d + "/repo",
                                        VERIF_JOBS="3"))
            res["ran"].append((c, p.returncode, round(time.time() - t)))
            if p.returncode:
                break
        res["caught"] = res["ran"][-1][1] == 1
        res["exit"] = res["ran"][-1][1]
        open(os.path.join(os.path.dirname(a.out), "last_%s_%d.py" % (f, no)), "w") if False else None
    except Exception as e:
        res["error"] = repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with lock:
        with open(a.out, "a") as fh:
            fh.write(json.dumps(res) + "\n")


todo = [m for m in pool if (m[0], m[1], m[2]) not in done][:a.n]
with ThreadPoolExecutor(a.jobs) as ex:
    list(ex.map(run, todo))
