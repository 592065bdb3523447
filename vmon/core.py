"""
Runner shared by every check.

A property is decided by a set of *scenarios*.  A scenario is a function taking a Case: it drives the real
ticdat code from /repo on inputs drawn from case.rng, while monitors (reference models, snapshots, recorders)
watch; a monitor that disagrees calls case.fail(...) / case.check(...).

Verdicts are three-valued: held / violated / could-not-decide (harness error -> exit 3, never exit 0 or 1).
"""
import collections, hashlib, importlib, io, json, multiprocessing, os, random, signal, sys, tempfile, time, \
    traceback, contextlib, shutil

from . import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TICDAT_REPO", "/repo")
CASE_CPU_SECONDS = 90          # one case normally takes milliseconds; CPU time, so machine load does not matter
WALL_BUDGET = {"quick": 420, "thorough": 840}


class ViolationError(Exception):
    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the generated input is outside the property's scope; counted, never silently dropped"""


def digest(x):
    return hashlib.sha256(repr(x).encode("utf8", "backslashreplace")).hexdigest()[:16]


class Case(object):
    def __init__(self, prop, scenario, seed, tier):
        self.prop, self.scenario, self.seed, self.tier = prop, scenario, seed, tier
        self.rng = random.Random(seed)
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.info = {}
        self._tmp = None
    # -- observations
    def count(self, name, n=1):
        self.counters[name] += n
    def nontrivial(self, *sig):
        """this execution exercised the property on something: sig identifies what, for distinctness"""
        self.sigs.add(digest((self.scenario,) + sig))
    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(short(obj, 900))
    def describe(self, **kw):
        self.info.update(kw)
    # -- verdicts
    def fail(self, msg, key=None):
        raise ViolationError(msg, key or self.scenario)
    def check(self, cond, msg, key=None):
        self.count("monitor_checks")
        if not cond:
            raise ViolationError(msg() if callable(msg) else msg, key or self.scenario)
    def eq(self, got, want, what, key=None):
        self.count("monitor_checks")
        if not (got == want):
            raise ViolationError("%s\n   got : %s\n   want: %s" % (what, short(got, 1500), short(want, 1500)),
                                 key or self.scenario)
    @contextlib.contextmanager
    def must_raise(self, what, exc=Exception, key=None):
        self.count("monitor_checks")
        try:
            yield
        except exc:
            self.count("rejections_observed")
            return
        raise ViolationError("accepted without an error: " + what, key or self.scenario)
    # -- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vmon_", dir=scratch_root())
        return self._tmp
    def path(self, name):
        return os.path.join(self.tmp, name)
    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vmon_root_")
        # what libraries leave behind in the temporary folder (xlsxwriter, when a write fails) goes away with the scratch folder
        tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(_scratch, "systmp")
        os.mkdir(tempfile.tempdir)
    return _scratch


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Scenario(object):
    def __init__(self, fn, quick, thorough, needs, serial):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough, self.needs, self.serial = quick, thorough, needs, serial
        self.doc = " ".join((fn.__doc__ or "").split())


class Registry(object):
    def __init__(self):
        self.scenarios = collections.OrderedDict()
        self.setup_fn = None
        self.teardown_fn = None
        self.assumptions = []
        self.rule = ""
    def scenario(self, quick, thorough, needs=(), serial=False):
        """needs: counters that must be non-zero over the run, else the run is inconclusive (vacuous)"""
        def deco(fn):
            assert fn.__name__ not in self.scenarios
            self.scenarios[fn.__name__] = Scenario(fn, quick, thorough, tuple(needs), serial)
            return fn
        return deco
    def setup(self, fn):
        self.setup_fn = fn
        return fn
    def teardown(self, fn):
        self.teardown_fn = fn
        return fn


def prepare_repo():
    """import ticdat from the working tree under test, and from nowhere else"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import ticdat
    real = os.path.realpath(ticdat.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("ticdat imported from %s, not from %s" % (real, REPO))
    return ticdat


def load_property(pid):
    mod = importlib.import_module("vmon.props." + pid.lower())
    return mod.reg


def case_seed(base, pid, scenario, i):
    return int(hashlib.sha256(("%s|%s|%s|%s" % (base, pid, scenario, i)).encode()).hexdigest()[:15], 16)


def _repo_frames(tb):
    root = os.path.join(os.path.realpath(REPO), "ticdat") + os.sep
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(root)]


UNREADABLE = (AttributeError, TypeError, LookupError, AssertionError, ValueError, ArithmeticError)

def run_case(reg, pid, scenario, seed, tier):
    sc = reg.scenarios[scenario]
    case = Case(pid, scenario, seed, tier)
    def on_alarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    out = io.StringIO()
    gen.SEEN.clear()
    viol = err = None
    try:
        with contextlib.redirect_stdout(out):
            sc.fn(case)
        case.count("cases")
        for k, n in gen.SEEN.items():
            case.count(k, n)
    except Skip as e:
        case.count("skipped:" + (str(e) or "out of scope"))
    except ViolationError as e:
        viol = (e.key, e.msg, "")
    except CaseTimeout:
        viol = (scenario + ":hang", "no answer within %ss of CPU time" % CASE_CPU_SECONDS, "")
    except MemoryError:
        err = "MemoryError"
    except Exception as e:
        tb = sys.exc_info()[2]
        if _repo_frames(tb):
            viol = (scenario + ":crash", "unexpected %s: %s" % (type(e).__name__, short(str(e), 600)),
                    "".join(traceback.format_exception(type(e), e, tb))[-3500:])
        elif isinstance(e, UNREADABLE):
            # the code under test answered, but with something the oracle cannot even read (a None where there should be
            # a table, a row without its fields, ...). Trouble with the sandbox (OSError, a lost database...) is not here.
            viol = (scenario + ":unreadable", "the observed answer cannot be read, %s: %s" % (type(e).__name__, short(str(e), 600)),
                    "".join(traceback.format_exception(type(e), e, tb))[-3500:])
        else:
            err = "".join(traceback.format_exception(type(e), e, tb))[-3500:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        case.close()
    if viol:
        case.counters["cases"] += 1
        case.violations.append(dict(property=pid, scenario=scenario, seed=seed, tier=tier, key=viol[0], msg=viol[1],
                                    traceback=viol[2],
                                    info={k: short(v, 6000) for k, v in case.info.items()}))
    return case, err


def _chunk(args):
    pid, tier, items, deadline, env = args
    reg = _REG[pid]
    agg = dict(counters={}, sigs={}, samples={}, violations=[], errors=[], done={})
    _reached.start()
    for scenario, seed in items:
        if time.time() > deadline:
            agg["counters"].setdefault(scenario, collections.Counter())["not_run_deadline"] += 1
            continue
        case, err = run_case(reg, pid, scenario, seed, tier)
        agg["counters"].setdefault(scenario, collections.Counter()).update(case.counters)
        agg["sigs"].setdefault(scenario, set()).update(case.sigs)
        s = agg["samples"].setdefault(scenario, [])
        if len(s) < 2:
            s.extend(case.samples[:1])
        agg["violations"].extend(case.violations)
        if err:
            agg["errors"].append((scenario, seed, err))
    agg["reached"] = _reached.take()
    return agg


class Reached(object):
    """which lines of the code under test the monitored executions ran (evidence only, never part of a verdict)"""
    def __init__(self):
        self.lines, self.on = collections.defaultdict(set), False
    def start(self):
        if self.on or not hasattr(sys, "monitoring"):
            return
        self.on = True
        mon, root = sys.monitoring, os.path.join(os.path.realpath(REPO), "ticdat") + os.sep
        def line(code, no):
            if code.co_filename.startswith(root) and os.sep + "testing" + os.sep not in code.co_filename:
                self.lines[code.co_filename[len(root):]].add(no)
            return mon.DISABLE
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "vmon")
            mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
            mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        except ValueError:
            pass
    def take(self):
        rtn = {f: sorted(s) for f, s in self.lines.items()}
        self.lines.clear()
        return rtn


_reached = Reached()


_REG = {}


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e["key"]: e for e in json.load(f)["findings"] if e["property"] == pid and e.get("status") == "known"}


def main(pid, replay=None, only=None, scale=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        prepare_repo()
    except Exception:
        # the tree does not even import: nothing was observed
        traceback.print_exc()
        print("INCONCLUSIVE property=%s cannot import the code under test" % pid)
        return 3
    reg = load_property(pid)
    _REG[pid] = reg
    cleanup = []
    try:
        if reg.setup_fn:
            reg.setup_fn()
        if replay:
            return do_replay(reg, pid, replay)
        return do_run(reg, pid, seed, tier, t0, only, scale)
    finally:
        if reg.teardown_fn:
            try:
                reg.teardown_fn()
            except Exception:
                traceback.print_exc()
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)


def do_replay(reg, pid, path):
    with open(path) as f:
        r = json.load(f)
    case, err = run_case(reg, pid, r["scenario"], r["seed"], r.get("tier", "quick"))
    if err:
        print(err)
        return 3
    for v in case.violations:
        print(v["msg"]); print(v["traceback"])
        for k, x in v["info"].items():
            print("  %s: %s" % (k, x))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay: no violation")
    return 0


def do_run(reg, pid, seed, tier, t0, only, scale):
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    deadline = t0 + WALL_BUDGET[tier]
    known = load_known(pid)
    par, ser = [], []
    for name, sc in reg.scenarios.items():
        if only and name not in only:
            continue
        n = sc.quick if tier == "quick" else sc.thorough
        if scale:
            n = max(1, int(n * scale))
        for i in range(n):
            (ser if sc.serial else par).append((name, case_seed(seed, pid, name, i)))
    # interleave the scenarios so that a deadline cuts all of them evenly
    rnd = random.Random(seed)
    rnd.shuffle(par)
    size = max(1, min(40, len(par) // (jobs * 4) or 1))
    chunks = [(pid, tier, par[i:i + size], deadline, None) for i in range(0, len(par), size)]
    total = dict(counters=collections.defaultdict(collections.Counter), sigs=collections.defaultdict(set),
                 samples=collections.defaultdict(list), violations=[], errors=[])
    reached = collections.defaultdict(set)
    def fold(agg):
        for f, x in agg["reached"].items():
            reached[f].update(x)
        for s, c in agg["counters"].items():
            total["counters"][s].update(c)
        for s, c in agg["sigs"].items():
            total["sigs"][s] |= c
        for s, c in agg["samples"].items():
            total["samples"][s] = (total["samples"][s] + c)[:2]
        total["violations"] += agg["violations"]
        total["errors"] += agg["errors"]
    scratch_root()
    if chunks and jobs > 1:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(jobs, len(chunks))) as pool:
            for agg in pool.imap_unordered(_chunk, chunks):
                fold(agg)
    else:
        for c in chunks:
            fold(_chunk(c))
    if ser:
        fold(_chunk((pid, tier, ser, deadline, None)))
    # ---- verdict
    new, seen_known = collections.OrderedDict(), {}
    for v in sorted(total["violations"], key=lambda v: (v["scenario"], v["seed"])):
        if v["key"] in known:
            seen_known[v["key"]] = v
        else:
            new.setdefault(v["key"], []).append(v)
    counters = {s: dict(c) for s, c in sorted(total["counters"].items())}
    evaluations = sum(c.get("cases", 0) for c in counters.values())
    distinct = sum(len(s) for s in total["sigs"].values())
    vacuous = []
    if not only and not scale:
        for name, sc in reg.scenarios.items():
            for need in sc.needs:
                if not counters.get(name, {}).get(need):
                    vacuous.append((name, need))
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=distinct,
            rule=reg.rule or "each case is one scenario run on inputs drawn from the seed; non-trivial when the monitor "
                             "had something to decide; distinct by digest of the decided content",
            samples=[x for s in total["samples"].values() for x in s[:1]][:12] or ["(none)"],
            monitor_observations=counters,
            distinct_by_scenario={s: len(x) for s, x in sorted(total["sigs"].items())},
            scenarios={n: s.doc for n, s in reg.scenarios.items()},
            known_findings_reproduced=sorted(seen_known),
            lines_of_ticdat_executed={f: len(x) for f, x in sorted(reached.items())},
            not_decided=len(total["errors"])),
        assumptions=reg.assumptions, wall_s=round(time.time() - t0, 2), violations=sum(map(len, new.values())))
    if not only and not scale:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    if os.environ.get("VMON_REACHED"):
        with open(os.environ["VMON_REACHED"], "w") as f:
            json.dump({x: sorted(y) for x, y in reached.items()}, f)
    print("%s tier=%s seed=%s cases=%d distinct=%d checks=%d wall=%.1fs" % (
        pid, tier, seed, evaluations, distinct, sum(c.get("monitor_checks", 0) for c in counters.values()),
        time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for s, c in counters.items():
            print("  ", s, len(total["sigs"].get(s, ())), c)
    for k, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for key, vs in list(new.items())[:8]:
            v = vs[0]
            p = os.path.join(d, "%s-%s-%s.json" % (pid, v["scenario"], v["seed"]))
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("--- %s (%d cases) seed=%s\n%s\n%s" % (key, len(vs), v["seed"], v["msg"], v["traceback"]))
            for k, x in v["info"].items():
                print("  %s: %s" % (k, short(x, 1500)))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if total["errors"]:
        for s, sd, e in total["errors"][:3]:
            print("HARNESS ERROR in %s seed=%s\n%s" % (s, sd, e))
        print("INCONCLUSIVE property=%s %d cases could not be decided" % (pid, len(total["errors"])))
        return 3
    if vacuous:
        print("INCONCLUSIVE property=%s nothing observed for %s" % (pid, vacuous))
        return 3
    return 0
