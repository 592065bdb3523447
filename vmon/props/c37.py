"""C37: threads that work with ticdat side by side see what they would see alone."""
import collections, os, random, sys, threading, time
import pandas as pd
from ..core import Registry, Skip, Case, ViolationError, REPO
from .. import gen, ref, files, panfiles as pf
from .c04 import tic_snap, pan_snap
from .c23 import tic_case, pan_case

reg = Registry()
reg.rule = ("two to five threads, each with a seeded program of writes, reads, duplicate searches, integrity checks, copies, conversions, renamings, "
            "freezing and reports on its own data - with its own factory or sharing one - are run alone and then together; a tracer on every line of "
            "ticdat injects yields and sleeps and records which thread ran; every observation of a thread (result or error) must be what it was "
            "alone; distinct by interleaving (the sequence of thread switches at ticdat lines)")
reg.assumptions = ["threads share factories and source files, never a data object or a target file",
                   "CPython with its global lock: switches happen between byte codes",
                   "errors are compared by type and text without paths"]
TICDAT = os.path.join(os.path.realpath(REPO), "ticdat") + os.sep


# ------------------------------------------------------------------ what a thread sees, in comparable form
def plain(x, depth=0):
    if isinstance(x, pd.DataFrame):
        return "frame", list(map(str, x.columns)), sorted(repr([plain(v) for v in r]) for r in x.itertuples(index=False, name=None))
    if isinstance(x, pd.Series):
        return "series", [plain(v) for v in x.tolist()]
    if hasattr(x, "_asdict"):
        return "tuple", [(k, plain(v, depth + 1)) for k, v in x._asdict().items()]
    if isinstance(x, dict) or hasattr(x, "items") and hasattr(x, "keys"):
        return "dict", sorted(((repr(plain(k)), plain(v, depth + 1)) for k, v in x.items()), key=lambda kv: kv[0])
    if isinstance(x, (set, frozenset)):
        return "set", sorted(repr(plain(v)) for v in x)
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [plain(v, depth + 1) for v in x]
    try:
        return repr(ref.canon(x))
    except Exception:
        return str(type(x))


class Job(object):
    """one thread's program: a seed, a directory, and whatever is shared"""
    def __init__(self, case, i, seed, kind, fmt, shared, steps=None):
        self.i, self.seed, self.kind, self.fmt, self.shared = i, seed, kind, fmt, shared
        self.steps, self.barrier = steps, None               # steps: the operations, when all threads are to do them at the same time
        self.on_see = lambda: None
        self.root = case.tmp
        self.tier = case.tier
    def ops(self, rng, names):
        return enumerate(rng.sample(names, rng.randint(3, 7)) if self.steps is None else [names[i % len(names)] for i in self.steps])
    def meet(self):
        if self.barrier:
            try:
                self.barrier.wait(5)
            except threading.BrokenBarrierError:             # another thread is through already
                self.barrier = None
        self.on_see()
    def run(self, tag):
        c = Case("C37", "job", self.seed, self.tier)
        c._tmp = os.path.join(self.root, "%s%d" % (tag, self.i))
        os.mkdir(c._tmp)
        out = []
        def see(label, fn):
            self.meet()
            try:
                r = fn()
                out.append((label, plain(r)))
                return r
            except Skip:
                raise
            except Exception as e:
                out.append((label, "raised", type(e).__name__, str(e).replace(c._tmp, "<dir>")[:300]))
        try:
            (tic_program if self.kind == "tic" else pan_program)(c, self, see)
        except Skip as e:
            out.append(("skipped", str(e)))
        except Exception as e:
            out.append(("died", type(e).__name__, str(e).replace(c._tmp, "<dir>")[:300]))
        return out


def predicates(rng, s, fct):
    for t in s.normal():
        if t in s.generators or not s.fields(t):
            continue
        f = rng.choice(s.fields(t))
        fct.add_data_row_predicate(t, lambda row, f=f: not isinstance(row[f], str), "no text in " + f)
        fct.add_data_row_predicate(t, lambda row, f=f: "long" if len(str(row[f])) > 4 else True, "short " + f, predicate_failure_response="Error Message")


def tic_program(c, job, see):
    rng, fmt = c.rng, job.fmt
    if job.shared:
        s, fct, source = job.shared
        rows = files.data(c, fmt, s)
        dat = fct.TicDat(**files.tic_args(c, s, rows))
        if source:
            see("reading the common source", lambda: tic_snap(s, files.read(fmt, fct, source)))
    else:
        s, rows, fct, dat = tic_case(c, fmt)
    see("data", lambda: tic_snap(s, dat) if not s.generators else 0)
    plainly = not s.generators and not any(v == '*' for v in s.tables.values())
    for n, op in job.ops(rng, ["file", "types", "file", "fks", "rows", "file", "copy", "pandas", "obfusimplify", "freeze", "good", "replace", "clone", "factory", "pan"]):
        if op == "file":
            q = []
            see("written", lambda: q.append(files.write(c, fmt, fct, dat, tag="t%d" % n)))
            if q:
                def rd():
                    x = files.read(fmt, fct, q[0])
                    return tic_snap(s, x) if not s.generators else {g: sorted(map(repr, getattr(x, g)())) for g in s.generators}
                see("reading back", rd)
                dup = {"csv": fct.csv.find_duplicates, "sql": fct.sql.find_duplicates, "xls": fct.xls.find_duplicates,
                       "xlsx": fct.xls.find_duplicates, "json": fct.json.find_duplicates, "json verbose": fct.json.find_duplicates}.get(fmt)
                if dup and plainly:
                    see("duplicates", lambda: dup(q[0]))
        elif op == "good":
            see("good", lambda: fct.good_tic_dat_object(dat, bad_message_handler=lambda m: None))
        elif op == "clone":
            see("clone", lambda: sorted(fct.clone().schema()) == sorted(fct.schema()))
        elif op == "factory":
            import ticdat
            r = files.schema(rng, fmt)
            see("another factory", lambda: r.build(ticdat.TicDatFactory).schema(include_ancillary_info=True))
        elif not plainly:
            continue
        elif op == "types":
            see("types", lambda: fct.find_data_type_failures(dat))
        elif op == "fks":
            see("fks", lambda: fct.find_foreign_key_failures(dat))
        elif op == "rows":
            see("rows", lambda: fct.find_data_row_failures(dat))
        elif op == "copy":
            see("copy", lambda: tic_snap(s, fct.copy_tic_dat(dat)))
        elif op == "pandas":
            see("pandas", lambda: vars(fct.copy_to_pandas(dat, drop_pk_columns=False)))
        elif op == "obfusimplify":
            see("obfusimplify", lambda: tic_snap(s, fct.obfusimplify(dat).copy))
        elif op == "freeze":
            see("freeze", lambda: tic_snap(s, fct.freeze_me(fct.copy_tic_dat(dat))))
        elif op == "replace":
            see("replace", lambda: tic_snap(s, fct.replace_data_type_failures(fct.copy_tic_dat(dat))))
        elif op == "pan":
            def to_pan():
                from ticdat import PanDatFactory
                p = PanDatFactory.create_from_full_schema(fct.schema(include_ancillary_info=True))
                return pan_snap(s, fct.copy_to_pandas(dat, drop_pk_columns=False)) and sorted(p.all_tables)
            see("pan", to_pan)
    see("data at the end", lambda: tic_snap(s, dat) if not s.generators else 0)


def pan_program(c, job, see):
    rng, fmt = c.rng, job.fmt
    if job.shared:
        s, fct, source = job.shared
        rows = pf.data(c, fmt, s)
        dat = fct.PanDat(**pf.frames(c, s, rows, fmt))
        if source:
            see("reading the common source", lambda: pan_snap(s, pf.read(fmt, fct, source)))
    else:
        s, rows, fct, dat = pan_case(c, fmt)
    see("data", lambda: pan_snap(s, dat))
    for n, op in job.ops(rng, ["file", "types", "file", "fks", "rows", "file", "dups", "copy", "good", "replace", "tic", "factory"]):
        if op == "file":
            q = []
            see("written", lambda: q.append(pf.write(c, fmt, fct, dat, tag="p%d" % n)))
            if q:
                see("reading back", lambda: pan_snap(s, pf.read(fmt, fct, q[0])))
        elif op == "good":
            see("good", lambda: fct.good_pan_dat_object(dat, bad_message_handler=lambda m: None))
        elif op == "types":
            see("types", lambda: fct.find_data_type_failures(dat))
        elif op == "fks":
            see("fks", lambda: fct.find_foreign_key_failures(dat))
        elif op == "rows":
            see("rows", lambda: fct.find_data_row_failures(dat))
        elif op == "dups":
            see("dups", lambda: fct.find_duplicates(dat))
        elif op == "copy":
            see("copy", lambda: pan_snap(s, fct.copy_pan_dat(dat)))
        elif op == "replace":
            see("replace", lambda: pan_snap(s, fct.replace_data_type_failures(fct.copy_pan_dat(dat))))
        elif op == "tic":
            see("tic", lambda: repr(fct.copy_to_tic_dat(dat)))
        elif op == "factory":
            import ticdat
            r = pf.spec(rng)
            see("another factory", lambda: r.build(ticdat.PanDatFactory).schema(include_ancillary_info=True))
    see("data at the end", lambda: pan_snap(s, dat))


# ------------------------------------------------------------------ the schedule: yields at ticdat's lines, recorded switches
class Schedule(object):
    def __init__(self, rng, n):
        self.rngs = [random.Random(rng.randrange(2 ** 40)) for _ in range(n)]
        self.p_yield, self.p_sleep = rng.choice([(.02, .002), (.1, .01), (.3, .02), (.02, 0), (0, 0), (0, 0)])
        self.p_new = rng.choice([0, .02, .1, .3])             # a pause where a line is reached for the first time
        self.pauses = rng.choice([0, 1, 2, 4])               # single long pauses per step, anywhere in it
        self.seen, self.count, self.stops = [set() for _ in range(n)], [0] * n, [set() for _ in range(n)]
        self.last, self.switches, self.events = None, [], 0
        self.ident = {}
    def next_step(self, i):
        r = self.rngs[i]
        self.count[i] = 0
        self.stops[i] = {int(1.5 ** r.uniform(1, 20)) for _ in range(self.pauses)}
    def tracer(self, i):
        rnd = self.rngs[i].random
        seen, count = self.seen[i], self.count
        def local(frame, event, arg):
            self.events += 1
            count[i] += 1
            if count[i] in self.stops[i]:
                time.sleep(.004)
            if self.p_new:
                at = (frame.f_code, frame.f_lineno)
                if at not in seen:
                    seen.add(at)
                    if rnd() < self.p_new:
                        time.sleep(.001 + rnd() * .002)
            if self.last != i:
                self.last = i
                self.switches.append((i, frame.f_code.co_name, frame.f_lineno))
            r = rnd()
            if r < self.p_sleep:
                time.sleep(rnd() * .002)
            elif r < self.p_yield:
                time.sleep(0)
            return local
        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(TICDAT) else None
        return glob


def together(case, jobs):
    n = len(jobs)
    sched = Schedule(case.rng, n)
    gate = threading.Barrier(n)
    step = threading.Barrier(n)
    for j in jobs:
        j.barrier = step if j.steps else None
        j.on_see = lambda i=j.i: sched.next_step(i)
    out = [None] * n
    def body(i):
        gate.wait()
        sys.settrace(sched.tracer(i))
        try:
            out[i] = jobs[i].run("par")
        except BaseException as e:
            out[i] = [("died", repr(e))]
        finally:
            sys.settrace(None)
            step.abort()
    old = sys.getswitchinterval()
    sys.setswitchinterval(case.rng.choice([1e-6, 1e-5, 1e-4, .002]))
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(80)
        case.check(not any(t.is_alive() for t in ts), "threads that finish alone do not finish together", key="hung")
    finally:
        sys.setswitchinterval(old)
    case.count("ticdat lines traced", sched.events)
    case.count("switches between threads inside ticdat", len(sched.switches))
    case.count("switch points", len(set(sched.switches)))
    return out, sched


def compare(case, jobs, alone, both, sched):
    for j, a, b in zip(jobs, alone, both):
        for x, y in zip(a, b):
            case.eq(y, x, "%s %s thread %d of %d: %s differs from the run alone" % (j.kind, j.fmt, j.i, len(jobs), x[0]))
        case.eq(len(b), len(a), "%s %s thread %d: number of observations" % (j.kind, j.fmt, j.i))
        case.count("observations compared", len(a))
        case.count("raised", sum(x[1] == "raised" for x in a if len(x) > 1))
        case.count(j.kind)
        if any(x[0] == "died" for x in a):
            raise Exception("harness: a job died alone: %r" % (a[-1],))
    case.nontrivial(tuple((i, f) for i, f, _ in sched.switches))
    case.sample(dict(threads=[(j.kind, j.fmt, [x[0] for x in a]) for j, a in zip(jobs, alone)], lines=sched.events, switches=len(sched.switches)))


def lockstep(case):
    case.count("lockstep")
    return [case.rng.randrange(60) for _ in range(case.rng.randint(3, 6))]


@reg.scenario(quick=120, thorough=3500, needs=("tic", "pan", "switches between threads inside ticdat", "observations compared", "lockstep"))
def own_factories(case):
    """every thread builds its own factory and works with it"""
    gen.P_BIG = gen.P_WIDE = 0                                # every line is traced
    rng = case.rng
    jobs = []
    same = rng.random() < .5
    steps = lockstep(case) if same and rng.random() < .7 else None
    kind = rng.choice(["tic", "pan"])
    fmt = rng.choice(files.TIC_FORMATS if kind == "tic" else pf.FORMATS)
    for i in range(rng.randint(2, 4)):
        if not same:
            kind = rng.choice(["tic", "pan"])
            fmt = rng.choice(files.TIC_FORMATS if kind == "tic" else pf.FORMATS)
        jobs.append(Job(case, i, rng.randrange(2 ** 40), kind, fmt, None, steps))
    case.describe(jobs=[(j.kind, j.fmt, j.seed) for j in jobs])
    alone = [j.run("one") for j in jobs]
    both, sched = together(case, jobs)
    compare(case, jobs, alone, both, sched)


@reg.scenario(quick=300, thorough=3500, needs=("tic", "pan", "switches between threads inside ticdat", "common source", "fresh factory", "lockstep"))
def shared_factory(case):
    """one factory serves all threads; each has its own data, some read one common file"""
    gen.P_BIG = gen.P_WIDE = 0
    rng = case.rng
    import ticdat
    kind = rng.choice(["tic", "pan"])
    if kind == "tic":
        fmt = rng.choice(files.TIC_FORMATS)
        s = files.schema(rng, fmt)
        if rng.random() < .5:
            gen.add_fks(rng, s)
    else:
        fmt = rng.choice(pf.FORMATS)
        s = pf.spec(rng, generic=0)
    if not s.normal():
        raise Skip("no table with fields")
    if rng.random() < .4:
        s.inf_flag = rng.choice([None, None, None, 999, 50.5])
        for t in s.normal():
            for f in s.dfs(t):
                if s.inf_flag is None and rng.random() < .7:
                    s.types[t, f] = rng.choice([dict(number_allowed=True, max=float("inf"), inclusive_max=True), dict(
                        number_allowed=True, min=-float("inf"), inclusive_min=True, max=100, inclusive_max=True)])
                    s.defaults.pop((t, f), None)
    def factory():
        f = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
        predicates(random.Random(5), s, f)
        return f
    source = None
    if rng.random() < .6:
        f = factory()
        if kind == "tic":
            try:
                source = files.write(case, fmt, f, f.TicDat(**files.tic_args(case, s, files.data(case, fmt, s))), tag="common")
            except Exception:                                # the infinity flag does not suit these types
                pass
        else:
            rows = pf.data(case, fmt, s)
            try:
                source = pf.write(case, fmt, f, f.PanDat(**pf.frames(case, s, rows, fmt)), tag="common")
            except Exception:                                # an orientation pandas refuses for these frames
                pass
        if not isinstance(source, str) or "con" in fmt:
            source = None                                    # an open connection is not shared between threads
        else:
            case.count("common source")
    one = factory()
    two = one if rng.random() < .5 else factory()             # the threads may be the first to use it
    case.count("fresh factory" if two is not one else "used factory")
    seeds = [rng.randrange(2 ** 40) for _ in range(rng.randint(2, 4))]
    steps = lockstep(case) if rng.random() < .6 else None
    mk = lambda f: [Job(case, i, x, kind, fmt, (s, f, source), steps) for i, x in enumerate(seeds)]
    case.describe(kind=kind, fmt=fmt, schema=s, seeds=seeds, source=bool(source))
    alone = [j.run("one") for j in mk(one)]
    jobs = mk(two)
    both, sched = together(case, jobs)
    compare(case, jobs, alone, both, sched)
