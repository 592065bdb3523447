"""C34: progress reports, logged tables and formatted AMPL text show exactly what they were given."""
import contextlib, io, math, os, re, time
from ..core import Registry, Skip
from . import c27

reg = Registry()
reg.rule = ("random progress values, tables and AMPL texts, and random mixed integer programs solved on every installed solver with a recording "
            "Progress object; every reported bound is checked against the optimum the same program has; distinct by content")
reg.assumptions = ["bounds reported by the solvers are compared with the optimum within 1e-4 relative",
                   "after mip_progress returned False a solver may report a few more times before it stops",
                   "Xpress calls back only at its own MIP log points, so a solve may report nothing"]
INF = float("inf")
WORDS = ["a", "MIP", "x y", "Grüße", "stage 2", "q" * 35, ""]


def out_of(f):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r = f()
    return r, o.getvalue()


def number(rng):
    return rng.choice([lambda: rng.randint(-9, 9), lambda: rng.uniform(-1e4, 1e4), lambda: rng.randint(-10 ** 9, 10 ** 9),
                       lambda: rng.choice([INF, -INF, 0, 0.0, 1e-9, 1e20, -1e100])])()


@reg.scenario(quick=400, thorough=20000, needs=("shown", "refused", "quiet"))
def reports(case):
    """numerical_progress and mip_progress print theme and numbers, say to go on, and refuse what makes no sense"""
    from ticdat import Progress
    rng = case.rng
    quiet = rng.random() < .3
    p = Progress(quiet=quiet) if rng.random() < .5 or quiet else Progress()
    theme = rng.choice(WORDS)
    v = number(rng)
    r, text = out_of(lambda: p.numerical_progress(theme, v))
    case.check(r is True, "numerical_progress returned %r" % (r,))
    if quiet:
        case.eq(text, "", "a quiet Progress printed")
        case.count("quiet")
    else:
        case.check(text.startswith(theme) and text.endswith("\n") and text.count("\n") == 1, "numerical_progress printed %r" % text)
        case.check(near(text.rsplit(":", 1)[1], v), "numerical_progress(%r) printed %r" % (v, text))
        case.count("shown")
    lo, hi = number(rng), number(rng)
    ok = lo <= hi or (not math.isinf(lo) and lo - abs(lo) * .00001 <= hi)
    def call():
        return p.mip_progress(theme, lo, hi)
    if not ok:
        with case.must_raise("mip_progress with bounds %r above %r" % (lo, hi)):
            call()
        case.count("refused")
    elif lo == -INF or lo == INF:
        pass                      # inf - inf has no value; either answer is fine
    else:
        r, text = out_of(call)
        case.check(r is True, "mip_progress returned %r" % (r,))
        if quiet:
            case.eq(text, "", "a quiet Progress printed")
        else:
            got = text.rstrip("\n").rsplit(":", 2)
            case.check(text.startswith(theme) and near(got[1], lo) and near(got[2], hi),
                       "mip_progress(%r, %r) printed %r" % (lo, hi, text))
    for bad in (lambda: p.numerical_progress(theme, "3"), lambda: p.numerical_progress(3, 3), lambda: p.mip_progress(theme, "a", 4),
                lambda: p.mip_progress(theme, 1, None), lambda: p.mip_progress(None, 1, 2), lambda: p.mip_progress(theme, 1, {})):
        with case.must_raise("arguments of the wrong type"):
            bad()
    case.nontrivial(theme, v, lo, hi, quiet)


def near(text, v):
    try:
        got = float(text)
    except ValueError:
        return False
    return got == v or abs(got - v) <= 1e-5 + abs(v) * 1e-12


CELLS = [1, 2.5, None, "x", "a b", "", "long" * 12, ("t", 1), True, "Ä", INF]


@reg.scenario(quick=600, thorough=20000, needs=("tables", "truncated", "refused"))
def logged_tables(case):
    """log_table writes header and rows in order, up to max_write rows, saying how many there are in total"""
    from ticdat import LogFile
    rng = case.rng
    path = case.path("log.txt")
    tables = []
    for i in range(rng.randint(1, 3)):
        nc, nr = rng.randint(1, 6), rng.choice([0, 1, 2, 5, 9, 10, 11, 14])
        rows = [["c%d" % j for j in range(nc)]] + [[rng.choice(CELLS) for _ in range(nc)] for _ in range(nr)]
        kw = {}
        if rng.random() < .5:
            kw["max_write"] = rng.choice([0, 1, 3, 10, 12, 50])
        if rng.random() < .3:
            kw["formatter"] = rng.choice([repr, lambda x: "<%s>" % (x,)])
        if "formatter" not in kw and any(isinstance(x, tuple) for r in rows for x in r):
            rows = [[str(x) if isinstance(x, tuple) else x for x in r] for r in rows]   # the default formatter is "%s" % cell
        tables.append(("table %d" % i, rows, kw))
    log = LogFile(path if rng.random() < .95 else None)
    silent = log._f is None
    how = rng.random()
    before = repr(tables)
    def write():
        for name, rows, kw in tables:
            shape = rng.choice([list, tuple])
            log.log_table(name, shape(map(rng.choice([list, tuple]), rows)), **kw)
            log.write("-- after %s\n" % name)
    if how < .5:
        with log:
            write()
    else:
        write()
        log.close()
    case.eq(repr(tables), before, "log_table changed its input")
    if silent:
        case.check(not os.path.exists(path), "a LogFile without a path wrote a file")
        return
    with open(path) as f:
        text = f.read()
    pos = 0
    for name, rows, kw in tables:
        fmt = kw.get("formatter", lambda x: "%s" % (x,))
        m = kw.get("max_write", 10)
        head = "Table %s:\n" % name
        case.check(text.startswith(head, pos), "the log does not go on with %r but %r" % (head, text[pos:pos + 80]))
        pos += len(head)
        if len(rows) - 1 > m:
            end = text.index("\n", pos) + 1
            nums = list(map(int, re.findall(r"\d+", text[pos:end])))
            case.eq(nums, [m, len(rows) - 1], "the truncation notice %r of %s" % (text[pos:end], name))
            pos = end
            case.count("truncated")
        for r in rows[:m + 1]:
            for x in r:                # cells in order, padded with blanks, nothing in between
                s = fmt(x)
                case.check(text.startswith(s, pos), "cell %r of %s is not where it should be: %r" % (s, name, text[pos:pos + 60]))
                pos += len(s)
                while text[pos:pos + 1] == " ":
                    pos += 1
                # (a following cell beginning with blanks is never generated)
            case.check(text[pos:pos + 1] == "\n", "row %r of %s is followed by %r" % (r, name, text[pos:pos + 40]))
            pos += 1
        tail = "\n-- after %s\n" % name
        case.check(text.startswith(tail, pos), "after %s the log has %r" % (name, text[pos:pos + 80]))
        pos += len(tail)
        case.count("tables")
    case.eq(text[pos:], "", "the log ends with more text")
    for bad in ([], [["a", "b"], ["c"]], 5, [1, 2]):
        with LogFile(case.path("bad.txt")) as log:
            with case.must_raise("log_table(%r)" % (bad,)):
                log.log_table("t", bad)
            case.count("refused")
    case.nontrivial(before)


PARTS = ["set A;\n", "param x {A} >= 0;\n", "{", "}", "%s", "{i in A}", " ", "\\", "sum{i in A} x[i]", "'q'", "{0}", "{x}", "é", "a_b"]


@reg.scenario(quick=1500, thorough=60000, needs=("substituted", "unknown"))
def ampl_texts(case):
    """ampl_format replaces {{name}} and nothing else"""
    from ticdat import ampl_format
    rng = case.rng
    names = ["x", "INPUT", "a1", "_q"]
    kw = {n: rng.choice([1, 2.5, "set B;", "{brace}", "", "{{x}}", None, -3, "}{"]) for n in rng.sample(names, rng.randint(0, 4))}
    mod, want, missing = "", "", False
    for _ in range(rng.randint(0, 8)):
        if rng.random() < .4:
            n = rng.choice(names)
            mod += "{{" + n + "}}"
            missing = missing or n not in kw
            want += str(kw.get(n))
            case.count("substituted")
        else:
            x = rng.choice(PARTS)
            if x[:1] in "{}" and mod[-1:] in "{}" or x == "{" or x == "}":
                x = " " + x + " "       # doubled braces are substitutions by definition
            mod += x
            want += x
            if mod[-1:] in "{}":
                mod += " "
                want += " "
    case.describe(mod=mod, kwargs=kw)
    if missing:
        with case.must_raise("an unknown substitution in %r with %r" % (mod, kw)):
            ampl_format(mod, **kw)
        case.count("unknown")
    else:
        case.eq(ampl_format(mod, **kw), want, "ampl_format(%r, %r)" % (mod, kw))
    case.nontrivial(mod, sorted(kw.items(), key=str))
    with case.must_raise("ampl_format of a number"):
        ampl_format(5)


def knapsack(rng, m, sense):
    n = rng.randint(8, 30)
    x = [m.add_var(type="binary", name="x%d" % i) for i in range(n)]
    for k in range(rng.randint(3, 12)):
        w = [rng.randint(5, 60) for _ in x]
        if sense == "maximize":
            m.add_constraint(m.sum(a * b for a, b in zip(w, x)) <= sum(w) // 3)
        else:
            m.add_constraint(m.sum(a * b for a, b in zip(w, x)) >= sum(w) // 3)
    m.set_objective(m.sum(rng.randint(10, 50) * b for b in x), sense=sense)


def split(rng, m, sense, rows):
    """equations that are hard to satisfy, so the solvers report bounds long before they have a solution"""
    x = [m.add_var(type="binary", name="x%d" % i) for i in range(10 * rows)]
    for k in range(rows):
        w = [rng.randint(0, 99) for _ in x]
        m.add_constraint(m.sum(a * b for a, b in zip(w, x)) == sum(w) // 2)
    m.set_objective(m.sum(rng.randint(10, 50) * b for b in x), sense=sense)


def limit(eng, m, seconds):
    if eng == "gurobi":
        m.core_model.Params.TimeLimit = seconds
    elif eng == "cplex":
        m.core_model.set_time_limit(seconds)
    else:
        m.core_model.controls.timelimit = seconds


def recorder(case, stop=None):
    from ticdat import Progress
    class Recorder(Progress):
        calls, problems = [], []
        def mip_progress(self, theme, lower_bound, upper_bound):
            self.calls.append((theme, lower_bound, upper_bound))
            try:
                r = super().mip_progress(theme, lower_bound, upper_bound)
            except Exception as e:
                self.problems.append((len(self.calls), lower_bound, upper_bound, str(e)))
                raise
            return r and not (stop and len(self.calls) >= stop)
    Recorder.calls, Recorder.problems = [], []
    return Recorder(quiet=True)


def solve(eng, m, p, sense, explicit):
    """p.native becomes what the solver itself said: (best bound, value of the best solution or None)"""
    kw = {"sense": sense} if sense == "maximize" or explicit else {}
    p.native = []
    try:
        with c27.quiet():
            if eng == "gurobi":
                import gurobipy as gu
                cb = p.gurobi_call_back_factory("the theme", m.core_model, **kw)
                def both(model, where):
                    if where == gu.GRB.Callback.MIP:
                        obj = model.cbGet(gu.GRB.Callback.MIP_OBJBST)
                        p.native.append((model.cbGet(gu.GRB.Callback.MIP_OBJBND), None if abs(obj) >= 1e99 else obj))
                    return cb(model, where)
                return m.optimize(both)
            if eng == "cplex":
                from docplex.mp.progress import ProgressListener
                class Native(ProgressListener):
                    def notify_progress(self, d):
                        p.native.append((d.best_bound, d.current_objective))
                p.add_cplex_listener("the theme", m.core_model, **kw)
                m.core_model.add_progress_listener(Native())
            else:
                p.add_xpress_callback("the theme", m.core_model, **kw)
            return m.optimize()
    except Exception as e:
        if not p.problems:
            raise
        return None


def judge(case, p, eng, sense, best, stop=None):
    case.check(not p.problems, lambda: "%s (%s): a progress report was refused: %r" % (eng, sense, p.problems[:2]))
    for theme, lo, hi in p.calls:
        case.check(theme == "the theme", "%s reports theme %r" % (eng, theme))
        case.check(all(isinstance(x, (int, float)) for x in (lo, hi)), "%s reports bounds %r %r" % (eng, lo, hi))
        if best is not None:
            tol = 1e-4 * max(1, abs(best))
            case.check(lo - tol <= best <= hi + tol, "%s (%s) reports the bounds %r, %r, but the optimum is %r" % (eng, sense, lo, hi, best))
    # and the reports say what the solver said, neither more nor less
    if eng in ("gurobi", "cplex") and not stop:
        case.eq(len(p.calls), len(p.native), "%s (%s): reports made and progress events of the solver" % (eng, sense))
        for (_, lo, hi), (bound, obj) in zip(p.calls, p.native):
            b, o = (lo, hi) if sense == "minimize" else (hi, lo)
            case.check(near(b, bound) if math.isfinite(bound) else b == bound or abs(b) >= 1e20,
                       lambda: "%s (%s) has the bound %r, the report says %r" % (eng, sense, bound, b))
            case.check(near(o, obj) if obj is not None else abs(o) >= 1e20 and (o > 0) == (sense == "minimize"),
                       lambda: "%s (%s) has the solution value %r, the report says %r" % (eng, sense, obj, o))
            case.count("compared:" + eng)
            if obj is not None:
                case.count("with incumbent:" + eng)
    case.count("reports:" + eng, len(p.calls))


@reg.scenario(quick=24, thorough=240, needs=("reports:gurobi", "reports:cplex", "solved", "with incumbent:gurobi", "with incumbent:cplex"))
def solver_reports(case):
    """every report of a solver encloses the optimum it finally finds"""
    rng = case.rng
    eng = rng.choice(c27.engines())
    sense = rng.choice(["minimize", "maximize"])
    m = c27.new_model(eng)
    knapsack(rng, m, sense)
    p = recorder(case)
    ok = solve(eng, m, p, sense, rng.random() < .5)
    case.describe(engine=eng, sense=sense, calls=p.calls[:5])
    best = m.get_mip_results().objective_value if ok else None
    judge(case, p, eng, sense, best)
    if ok:
        case.count("solved")
    case.nontrivial(eng, sense, best, len(p.calls))


@reg.scenario(quick=12, thorough=120, needs=("reports:gurobi", "reports:cplex"))
def no_solution_yet(case):
    """reports made while the solver has no solution yet, and solves stopped by the Progress object"""
    rng = case.rng
    eng = rng.choice(c27.engines())
    sense = rng.choice(["minimize", "maximize"])
    m = c27.new_model(eng)
    split(rng, m, sense, 3 if rng.random() < .5 else 4)
    stop = rng.choice([None, 1, 3])
    limit(eng, m, 4)
    p = recorder(case, stop)
    solve(eng, m, p, sense, rng.random() < .5)
    case.describe(engine=eng, sense=sense, stop=stop, ncalls=len(p.calls), calls=p.calls[:5])
    judge(case, p, eng, sense, None, stop)
    if stop and len(p.calls) >= stop:
        case.check(len(p.calls) <= stop + 12, "%s went on to report %d times after mip_progress returned False" % (eng, len(p.calls) - stop))
        case.count("stopped:" + eng)
    if any(abs(x) >= 1e20 for c in p.calls for x in c[1:] if isinstance(x, (int, float))):
        case.count("without incumbent:" + eng)
    case.nontrivial(eng, sense, stop, len(p.calls) > 0)
