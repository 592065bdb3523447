"""C39: results do not depend on the process: hash seed, time zone, working directory."""
import contextlib, io, json, os, random, subprocess, sys
from ..core import Registry, Skip, Case, VERIF, digest
from .. import gen, files, panfiles as pf
from .c04 import tic_snap, pan_snap
from .c37 import plain
from . import c38
from .c23 import tic_case, pan_case

reg = Registry()
reg.rule = ("batches of seeded programs (build rules and data, check, repair, remove, rename, convert, write, read, search duplicates) are run by several "
            "processes that differ in hash seed, time zone and working directory; each observation (result or error type) must be the same "
            "everywhere, and each process must read the files of the others as it reads its own; distinct by program")
reg.assumptions = ["text is UTF-8 everywhere (csv files follow Python's default encoding, as documented)", "errors are compared by type",
                   "order is compared where the data has an order (tables, rows), not for the entries of a report",
                   "the names obfusimplify invents are not compared (nothing promises which table gets which letter)"]
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "EST5EDT", "Europe/London"]
TIC_OPS = ["types", "fks", "rows", "params", "replace", "remove", "copy", "pandas", "freeze", "good", "clone", "asdict"]
PAN_OPS = ["types", "fks", "rows", "params", "replace", "remove", "copy", "tic", "good", "clone", "finddups"]


REPORTS = ["types", "fks", "rows", "finddups", "clone"]


# ------------------------------------------------------------------ in the worker
def text(x):
    return repr(plain(c38.sortless(x)))


def loose(x):
    """a report, whatever the order of its entries"""
    if hasattr(x, "_asdict"):
        return {k: loose(v) for k, v in x._asdict().items()}
    if isinstance(x, dict):
        return {repr(k): loose(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return sorted((loose(v) for v in x), key=text)
    return x


def observe(fn, how=lambda x: x):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return text(how(fn()))
    except Exception as e:
        return "raised " + type(e).__name__


def program(seed, d, read_only):
    """[(label, observation)]; read_only: another process has written the files in d"""
    kind, what = ("tic", "pan")[seed % 2], ("rules", "files")[seed // 2 % 2]
    c = Case("C39", "program", seed, "quick")
    c._tmp = d
    rng, out = c.rng, []
    tic = kind == "tic"
    fmt = rng.choice(files.TIC_FORMATS if tic else [f for f in pf.FORMATS if "string" not in f])
    if what == "rules":
        s, data, build, extra = c38.make(rng, kind)
        fct = build()
        try:
            dat = c38.tic_equal(s, fct, data) if tic else fct.PanDat(**gen.pan_args(s, data))
        except Exception as e:
            return [("no data object", type(e).__name__)]
        spec = repr((s, data, extra))
        ops = rng.sample(TIC_OPS if tic else PAN_OPS, 7)
    else:
        try:
            s, data, fct, dat = (tic_case if tic else pan_case)(c, fmt)
        except Skip as e:
            return [("skipped", str(e))]
        spec, ops = repr((s, data)), ["good"] + (["copy", "types"] if not s.generators else [])
    spec += repr(rng.random())
    out.append(("harness", digest(spec)))
    snap = tic_snap if tic else pan_snap
    p = os.path.join(d, "path.json")
    if not read_only:
        for op in ops:
            keep = rng.sample(s.normal(), rng.randint(min(1, len(s.normal())), len(s.normal())))
            k = dict(max={}, verbosity=rng.choice(["High", "Low"]), propagate=rng.random() < .6, flip=rng.random() < .3, odd=False, half=keep,
                     keep=rng.choice(["first", "last", False]), tables=[keep] if keep and rng.random() < .4 else [])
            out.append((op, observe(lambda: (c38.tic_op if tic else c38.pan_op)(op, k, s, fct, dat, None), loose if op in REPORTS else lambda x: x)))
        if not s.generators:
            out.append(("data", observe(lambda: snap(s, dat))))
        try:
            q = (files if tic else pf).write(c, fmt, fct, dat)
        except Exception as e:
            q = None
            out.append(("write " + fmt, "raised " + type(e).__name__))
        with open(p, "w") as f:
            json.dump(os.path.relpath(q, d) if q else None, f)
    with open(p) as f:
        q = json.load(f)
    if q:
        q = os.path.join(d, q)
        def rd():
            x = (files if tic else pf).read(fmt, fct, q)
            if tic and s.generators:
                return {g: sorted(map(repr, getattr(x, g)())) for g in s.generators}
            return snap(s, x)
        out.append(("read " + fmt, observe(rd)))
        if tic and not s.generators and fmt != "sql text" and not any(v == '*' for v in s.tables.values()):
            get = {"csv": fct.csv, "sql": fct.sql, "xls": fct.xls, "xlsx": fct.xls}.get(fmt, fct.json)
            out.append(("dups " + fmt, observe(lambda: get.find_duplicates(q))))
    return out


def worker(spec):
    with open(spec) as f:
        job = json.load(f)
    gen.P_BIG = 0
    out = {}
    for seed in job["seeds"]:
        d = os.path.join(job["root"], str(seed))
        os.makedirs(d, exist_ok=True)
        try:
            out[str(seed)] = program(seed, d, job["read_only"])
        except Exception as e:
            import traceback
            out[str(seed)] = [("died", traceback.format_exc()[-1500:])]
    with open(job["out"], "w") as f:
        json.dump(out, f)


# ------------------------------------------------------------------ in the check
def start(case, tag, seeds, root, env, read_only=False):
    rng = case.rng
    spec, out = case.path(tag + ".spec"), case.path(tag + ".out")
    with open(spec, "w") as f:
        json.dump(dict(seeds=seeds, root=root, out=out, read_only=read_only), f)
    cwd = case.path("cwd " + tag)
    os.makedirs(cwd, exist_ok=True)
    code = "import sys; sys.path.insert(0, %r); from vmon import core; core.prepare_repo(); from vmon.props import c39; c39.worker(%r)" % (VERIF, spec)
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], cwd=cwd, env=dict(os.environ, TMPDIR=case.tmp, **env),
                         stdout=subprocess.DEVNULL, stderr=open(case.path(tag + ".err"), "w"))
    return p, out, case.path(tag + ".err")


def finish(started):
    p, out, err = started
    if p.wait(300) != 0:
        raise Exception("harness: a worker died: " + open(err).read()[-1500:])
    with open(out) as f:
        return json.load(f)


@reg.scenario(quick=14, thorough=220, needs=("programs", "observations compared", "files exchanged", "hash seeds", "zones"))
def processes(case):
    """the same programs in processes with other hash seeds, zones and directories; files exchanged between them"""
    rng = case.rng
    seeds = [rng.randrange(2 ** 40) for _ in range(24)]
    envs = []
    for i in range(3):
        envs.append(dict(PYTHONHASHSEED=str(rng.choice([0, 1, 2, 3, rng.randrange(2 ** 32)])), TZ=rng.choice(ZONES)))
    case.describe(envs=envs, seeds=seeds)
    roots = [case.path("r%d" % i) for i in range(3)]
    first = [finish(x) for x in [start(case, "w%d" % i, seeds, roots[i], envs[i]) for i in range(3)]]
    for i in (1, 2):
        for x in map(str, seeds):
            a, b = first[0][x], first[i][x]
            if any(e[0] == "died" for e in a + b):
                raise Exception("harness: " + repr([e for e in a + b if e[0] == "died"]))
            if a[0] != b[0]:
                raise Exception("harness: program %s is not the same in both processes: %s %s" % (x, a[0], b[0]))
            case.describe(program=x)
            for u, v in zip(a, b):
                case.eq(v, u, "program %s, %s: %s against %s" % (x, u[0], envs[i], envs[0]), key=u[0].split()[0])
                case.count("observations compared")
            case.eq(len(b), len(a), "number of observations")
    second = [finish(x) for x in [start(case, "x%d" % i, seeds, roots[(i + 1) % 3], envs[i], True) for i in range(3)]]
    for i in range(3):
        for x in map(str, seeds):
            own = dict(map(tuple, first[i][x]))
            for label, v in second[i][x]:
                if label.startswith(("read", "dups")):
                    case.eq(v, own[label], "program %s, %s: the file written by %s, read by %s, against its own file" % (x, label, envs[(i + 1) % 3], envs[i]),
                            key="exchange")
                    case.count("files exchanged")
    for x in map(str, seeds):
        case.nontrivial(x)
        case.count("programs")
    case.count("hash seeds", len({e["PYTHONHASHSEED"] for e in envs}))
    case.count("zones", len({e["TZ"] for e in envs}))
    case.sample(dict(envs=envs, programs={x: [u[0] for u in first[0][x]] for x in list(map(str, seeds))[:3]}))
