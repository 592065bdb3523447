"""C27: the Model layer solves a model to the optimum that exhaustive search finds, on every installed solver."""
import contextlib, itertools, math, os, sys
from fractions import Fraction as Fr
from ..core import Registry, Skip

reg = Registry()
reg.rule = ("random small mixed integer programs (up to 4 integer/binary and 2 continuous variables, bounded, half-bounded, fractional and negative bounds, "
            "<=, >=, == rows, indicator rows, linear and separable quadratic objectives) built through ticdat.Model once per installed solver, solved, changed "
            "and solved again; the optimum is computed in exact rational arithmetic by enumerating the integer points and the vertices over the continuous "
            "variables; distinct by model and solver")
reg.assumptions = ["solvers work to a tolerance: values are compared within 1e-4, integrality and rows within 1e-5",
                   "coefficients are multiples of 1/4 of small size, so a model is feasible or not by a margin no tolerance hides",
                   "Xpress 9.9 misreports the objective value when a variable with a quadratic term can take one value only: not generated",
                   "indicator constraints and time_limit are not offered for CPLEX (documented by an error)",
                   "get_mip_results is only asked for on models with a discrete variable, as its documentation says"]
INF = float("inf")
BOX = Fr(10 ** 5)
EPS = 1e-4


@contextlib.contextmanager
def quiet():
    """the solvers write to the C level stdout"""
    sys.stdout.flush()
    keep = [os.dup(1), os.dup(2)]
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1), os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for f in keep + [null]:
            os.close(f)


def engines():
    from ticdat import model
    return [e for e in ("gurobi", "cplex", "xpress") if not isinstance(getattr(model, e), str)]


def new_model(eng):
    from ticdat import Model
    m = Model(eng, "vmon")
    with contextlib.suppress(Exception):
        if eng == "gurobi":
            m.core_model.Params.OutputFlag = 0
            m.core_model.Params.Threads = 1
            m.core_model.Params.IntFeasTol = 1e-7
        if eng == "cplex":
            m.core_model.parameters.threads = 1
        if eng == "xpress":
            m.core_model.controls.outputlog = 0
            m.core_model.controls.threads = 1
    return m


# ---- specification of a program: vars [(kind, lb, ub, pass_kwargs)], rows [(coefs, sense, rhs)], indicators [(var, on, row)], objective
def quarter(rng, lo, hi):
    return Fr(rng.randint(lo * 4, hi * 4), 4) if rng.random() < .3 else Fr(rng.randint(lo, hi))


def program(rng, indicators=False, quadratic=False, unbounded=.1):
    n_int, n_cont = rng.choice([(1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (0, 2), (0, 1)])
    if quadratic:
        n_int, n_cont = rng.choice([(1, 0), (2, 0), (3, 0)])
    if indicators:
        n_int = max(n_int, 1)
    vs = []
    for i in range(n_int):
        if rng.random() < .45 or (indicators and i == 0):
            b = rng.choice([(0, 1), (0, 1), (0, 1), (0, INF), (0, 0), (1, 1), (1, INF)])
            vs.append(["binary", b[0], b[1]])
        else:
            lb = rng.choice([0, 0, 0, quarter(rng, -4, 3)])
            ub = max(lb, 0) + quarter(rng, 0, 6)
            if lb < 0 and rng.random() < .3:
                ub = max(lb, Fr(rng.randint(-8, -1), 4))
            vs.append(["integer", lb, ub])
    for i in range(n_cont):
        lb = rng.choice([0, 0, 0, quarter(rng, -4, 3), -INF])
        ub = rng.choice([INF, INF, (0 if lb == -INF else max(lb, 0)) + quarter(rng, 0, 6)])
        if lb not in (0, -INF) and lb < 0 and rng.random() < .3:
            ub = max(lb, Fr(-1, 4))
        vs.append(["continuous", lb, ub])
    if quadratic:   # Xpress itself misreports the objective when presolve fixes a variable with a quadratic term
        vs = [[k, lb, ub] if math.floor(ub if ub != INF else 1) > math.ceil(lb) else [k, 0, 1 if k == "binary" else 3] for k, lb, ub in vs]
    rng.shuffle(vs)
    n = len(vs)
    def row(k=None):
        c = [quarter(rng, -4, 4) if rng.random() < .75 else Fr(0) for _ in range(n)]
        if not any(c):
            c[rng.randrange(n)] = Fr(1)
        s = rng.choice(["<=", "<=", ">=", ">=", "=="] if rng.random() < .5 else ["<=", ">="])
        # make most rows satisfiable: a right hand side near the value at a random point
        pt = [point(rng, v) for v in vs]
        at = sum(a * b for a, b in zip(c, pt))
        rhs = at + (0 if s == "==" else quarter(rng, -1, 4) * (1 if s == "<=" else -1))
        return (c, s, rhs)
    rows = [row() for _ in range(rng.randint(0, 4))]
    for i, v in enumerate(vs):   # keep the continuous variables bounded, most of the time
        for sgn, b in ((1, v[2]), (-1, v[1])):
            if v[0] == "continuous" and abs(b) == INF and rng.random() > unbounded:
                c = [Fr(rng.randint(0, 2)) if rng.random() < .4 and w[0] != "continuous" else Fr(0) for w in vs]
                c[i] = Fr(sgn)
                rows.append((c, "<=", Fr(rng.randint(0, 9))))
    rng.shuffle(rows)
    inds = []
    if indicators:
        bins = [i for i, v in enumerate(vs) if v[0] == "binary"]
        for _ in range(rng.randint(1, 3)):
            inds.append((rng.choice(bins), rng.choice([True, False, 1, 0]), row()))
    obj = dict(lin=[quarter(rng, -5, 5) for _ in vs], const=rng.choice([Fr(0), Fr(0), quarter(rng, -9, 9)]), quad={},
               sense=rng.choice(["minimize", "maximize"]))
    if quadratic:
        for i in range(n):
            if rng.random() < .7:
                obj["quad"][i] = quarter(rng, 1, 3) * (1 if obj["sense"] == "minimize" else -1)
                if vs[i][0] == "integer" and rng.random() < .8:     # an optimum inside the bounds
                    obj["lin"][i] = -2 * obj["quad"][i] * point(rng, vs[i])
    return dict(vars=[tuple(v) for v in vs], rows=rows, inds=inds, obj=obj)


def point(rng, v):
    lo = v[1] if v[1] != -INF else -5
    hi = v[2] if v[2] != INF else (1 if v[0] == "binary" else max(lo, 0) + 5)
    if v[0] == "continuous":
        return Fr(rng.randint(math.ceil(lo * 4), math.floor(hi * 4)), 4)
    lo, hi = math.ceil(lo), math.floor(hi)
    return Fr(rng.randint(lo, max(lo, hi)))


# ---- the oracle
def holds(row, x, slack=0):
    c, s, r = row
    at = sum(a * b for a, b in zip(c, x))
    return at <= r + slack if s == "<=" else at >= r - slack if s == ">=" else abs(at - r) <= slack


def active(p, ints):
    """rows that apply at these values of the discrete variables"""
    return p["rows"] + [r for b, on, r in p["inds"] if (ints[b] == 1) == bool(on)]


def value(p, x):
    o = p["obj"]
    return o["const"] + sum(a * b for a, b in zip(o["lin"], x)) + sum(q * x[i] * x[i] for i, q in o["quad"].items())


def solve_exact(p):
    """('optimal', value) / ('infeasible', None) / ('unbounded', None) / ('unclear', None)"""
    vs = p["vars"]
    disc = [i for i, v in enumerate(vs) if v[0] != "continuous"]
    cont = [i for i, v in enumerate(vs) if v[0] == "continuous"]
    doms = []
    for i in disc:
        k, lb, ub = vs[i]
        if k == "binary" and ub == INF:
            ub = 1
        doms.append(range(math.ceil(lb), math.floor(ub) + 1))
    best, arg, at_box = None, None, False
    sg = 1 if p["obj"]["sense"] == "minimize" else -1
    for pt in itertools.product(*doms):
        x = [Fr(0)] * len(vs)
        for i, v in zip(disc, pt):
            x[i] = Fr(v)
        rows = active(p, x)
        cand = [x]
        if cont:
            cand = vertices(rows, x, cont, vs)
        for y in cand:
            if all(holds(r, y) for r in rows):
                v = sg * value(p, y)
                if best is None or v < best:
                    best, arg = v, y
                    at_box = any(abs(y[i]) >= BOX / 100 for i in cont)
    if best is None:
        return "infeasible", None
    if at_box:
        return ("unbounded", None) if abs(best) > BOX / 100 else ("unclear", None)
    return "optimal", sg * best


def vertices(rows, x, cont, vs):
    """candidate vertices of the polygon over (at most two) continuous variables, inside a huge box"""
    lines = []     # a.y (<=,>=,==) b over the continuous variables
    for c, s, r in rows:
        rhs = r - sum(c[i] * x[i] for i in range(len(vs)) if i not in cont)
        a = [c[i] for i in cont]
        if any(a):
            lines.append((a, rhs))
    lo = [vs[i][1] if vs[i][1] != -INF else -BOX for i in cont]
    hi = [vs[i][2] if vs[i][2] != INF else BOX for i in cont]
    for k in range(len(cont)):
        e = [Fr(int(j == k)) for j in range(len(cont))]
        lines += [(e, Fr(lo[k])), (e, Fr(hi[k]))]
    pts = []
    if len(cont) == 1:
        pts = [(b / a[0],) for a, b in lines]
    else:
        for (a, b), (c, d) in itertools.combinations(lines, 2):
            det = a[0] * c[1] - a[1] * c[0]
            if det:
                pts.append(((b * c[1] - a[1] * d) / det, (a[0] * d - b * c[0]) / det))
    rtn = []
    for q in set(pts):
        if all(l <= v <= h for l, v, h in zip(lo, q, hi)):
            y = list(x)
            for i, v in zip(cont, q):
                y[i] = v
            rtn.append(y)
    return rtn


# ---- driving ticdat.Model
def as_num(f, rng):
    if f in (INF, -INF):
        return f
    f = Fr(f)
    return int(f) if f.denominator == 1 and rng.random() < .7 else float(f)


def expr(m, rng, xs, coefs, style=None):
    terms = [(as_num(c, rng), x) for c, x in zip(coefs, xs) if c or rng.random() < .1]
    style = style or rng.choice(["list", "gen", "values", "plus"])
    if not terms:
        terms = [(0, xs[0])]
    if style == "list":
        return m.sum([c * x for c, x in terms])
    if style == "gen":
        return m.sum(x * c for c, x in terms)
    if style == "values":
        return m.sum({i: c * x for i, (c, x) in enumerate(terms)}.values())
    e = None
    for c, x in terms:
        e = c * x if e is None else e + c * x
    return e


def constraint(m, rng, xs, row, move=True):
    c, s, r = row
    e, r = expr(m, rng, xs, c), as_num(r, rng)
    if move and rng.random() < .2:
        k = rng.randrange(len(xs))
        kk = as_num(Fr(rng.randint(1, 3)), rng)
        e, r = e + kk * xs[k], r + kk * xs[k]
    return e <= r if s == "<=" else e >= r if s == ">=" else e == r


def build(p, eng, rng, tag=""):
    m = new_model(eng)
    xs = []
    named = rng.random() < .6
    for i, (k, lb, ub) in enumerate(p["vars"]):
        kw = {}
        if lb != 0 or rng.random() < .5:
            kw["lb"] = as_num(lb, rng)
        if ub != INF or rng.random() < .3:
            kw["ub"] = as_num(ub, rng)
        if k != "continuous" or rng.random() < .5:
            kw["type"] = k
        if named:
            kw["name"] = "v%s_%s" % (tag, i)
        xs.append(m.add_var(**kw))
    return m, xs


def add_rows(m, xs, p, rng, rows=None):
    for j, r in enumerate(p["rows"] if rows is None else rows):
        kw = {"name": "row_%s_%s" % (j, rng.randrange(10 ** 6))} if rng.random() < .4 else {}
        m.add_constraint(constraint(m, rng, xs, r), **kw)


def set_obj(m, xs, o, rng):
    e = expr(m, rng, xs, o["lin"]) + as_num(o["const"], rng)
    for i, q in o["quad"].items():
        e = e + as_num(q, rng) * xs[i] * xs[i]
    if o["sense"] == "minimize" and rng.random() < .5:
        m.set_objective(e)
    else:
        m.set_objective(e, sense=o["sense"])


def judge(case, m, xs, p, eng, what, want, gap=None):
    status, opt = want
    with quiet():
        r = m.optimize()
    case.count("solves:" + eng)
    if status == "unclear":
        raise Skip("unclear")
    if status != "optimal":
        case.count(status)
        case.check(not r, lambda: "%s: optimize is truthy although the model is %s: %r" % (what, status, p), key="truthy")
        return False
    case.count("optimal")
    case.check(bool(r), lambda: "%s: optimize is falsy although the optimum is %s: %r" % (what, float(opt), p), key="falsy")
    x = [float(m.get_solution_value(v)) for v in xs]
    sg = 1 if p["obj"]["sense"] == "minimize" else -1
    tol = EPS * max(1, abs(float(opt)))
    for i, ((k, lb, ub), v) in enumerate(zip(p["vars"], x)):
        ub = 1 if k == "binary" and ub == INF else ub
        case.check(float(lb) - EPS <= v <= float(ub) + EPS, lambda: "%s: variable %s has value %r outside its bounds: %r" % (what, i, v, p), key="bounds")
        if k != "continuous":
            case.check(abs(v - round(v)) <= EPS, lambda: "%s: %s variable %s has value %r: %r" % (what, k, i, v, p), key="integrality")
    xi = [Fr(round(v)) if k != "continuous" else Fr(v) for (k, _, _), v in zip(p["vars"], x)]
    for row in active(p, xi):
        case.check(holds(row, xi, Fr(5, 10 ** 4)), lambda: "%s: the solution %r violates %r of %r" % (what, x, row, p), key="row")
    got = float(value(p, xi))
    slack = tol if gap is None else tol + gap * max(abs(got), abs(float(opt)))
    case.check(abs(got - float(opt)) <= slack, lambda: "%s: the solution %r has objective %s, the optimum is %s: %r" % (what, x, got, float(opt), p), key="optimum")
    if any(k != "continuous" for k, _, _ in p["vars"]):
        res = m.get_mip_results()
        case.check(abs(res.objective_value - got) <= tol, lambda: "%s: get_mip_results says %r, the solution has objective %s: %r" % (what, res, got, p), key="mip_objective")
        case.check(sg * res.best_bound <= sg * float(opt) + tol and sg * res.best_bound <= sg * res.objective_value + tol,
                   lambda: "%s: best bound %r doesn't bound the optimum %s: %r" % (what, res, float(opt), p), key="mip_bound")
        case.check(abs(res.best_bound - res.objective_value) <= slack + (gap or 0) * abs(res.best_bound) + tol,
                   lambda: "%s: bound and objective are too far apart %r (optimum %s): %r" % (what, res, float(opt), p), key="mip_gap")
        case.count("mip_results")
    return True


def run(case, **kw):
    rng = case.rng
    p = program(rng, **kw)
    want = solve_exact(p)
    for eng in engines():
        if p["inds"] and eng == "cplex":
            m, xs = build(p, eng, rng)
            with case.must_raise("indicator constraint for cplex"):
                m.add_indicator_constraint(xs[p["inds"][0][0]], True, xs[0] <= 0)
            continue
        m, xs = build(p, eng, rng)
        add_rows(m, xs, p, rng)
        for b, on, row in p["inds"]:
            with quiet():
                m.add_indicator_constraint(xs[b], on, constraint(m, rng, xs, row, move=False))
        set_obj(m, xs, p["obj"], rng)
        judge(case, m, xs, p, eng, eng, want)
    case.nontrivial(repr(p))
    case.sample(p)


@reg.scenario(600, 8000, needs=("solves:gurobi", "solves:cplex", "solves:xpress", "optimal", "infeasible", "unbounded", "mip_results"))
def linear(case):
    """bounds, types, rows and objective of mixed integer linear programs"""
    run(case)


@reg.scenario(200, 3000, needs=("optimal", "solves:gurobi", "solves:xpress"))
def indicator(case):
    """indicator constraints, on and off"""
    run(case, indicators=True)


@reg.scenario(100, 1500, needs=("optimal",))
def quadratic(case):
    """convex separable quadratic objectives over discrete variables"""
    run(case, quadratic=True)


@reg.scenario(150, 2500, needs=("optimal", "resolves"))
def history(case):
    """a model is solved, then gets rows, variables and another objective, and is solved again, several models at a time"""
    rng = case.rng
    for eng in engines():
        ps = [program(rng, unbounded=0) for _ in range(rng.choice([1, 2, 3]))]
        models = [build(p, eng, rng, tag="m%s" % i) for i, p in enumerate(ps)]
        pend = []
        for (m, xs), p in zip(models, ps):
            cut = rng.randint(0, len(p["rows"]))
            pend.append(p["rows"][cut:])
            p["rows"] = p["rows"][:cut]
            add_rows(m, xs, p, rng)
            set_obj(m, xs, p["obj"], rng)
        for step in range(rng.randint(2, 5)):
            i = rng.randrange(len(ps))
            (m, xs), p = models[i], ps[i]
            op = rng.choice(["row", "row", "objective", "var", "solve"])
            if op == "row" and pend[i]:
                add_rows(m, xs, p, rng, pend[i][:1])
                p["rows"] = p["rows"] + pend[i][:1]
                pend[i] = pend[i][1:]
            elif op == "objective":
                p["obj"] = dict(p["obj"], lin=[quarter(rng, -5, 5) for _ in p["vars"]], sense=rng.choice(["minimize", "maximize"]))
                set_obj(m, xs, p["obj"], rng)
            elif op == "var" and len(p["vars"]) < 5:
                xs.append(m.add_var(ub=2, type="integer"))
                p["vars"] = p["vars"] + [("integer", 0, 2)]
                p["rows"] = [(c + [Fr(0)], s, r) for c, s, r in p["rows"]]
                pend[i] = [(c + [Fr(1)], s, r) for c, s, r in pend[i]]
                p["obj"] = dict(p["obj"], lin=p["obj"]["lin"] + [Fr(rng.choice([-1, 1]))])
                set_obj(m, xs, p["obj"], rng)
            want = solve_exact(p)
            if want[0] not in ("optimal", "infeasible"):
                continue
            judge(case, m, xs, p, eng, "%s, step %s of model %s" % (eng, step, i), want)
            case.count("resolves", int(step > 0))
        case.nontrivial(eng, repr(ps))
        # the solutions of the other models are still their own
        for (m, xs), p in zip(models, ps):
            want = solve_exact(p)
            if want[0] == "optimal":
                judge(case, m, xs, p, eng, eng + " at the end", want)


@reg.scenario(60, 600, needs=("gaps", "set"))
def parameters(case):
    """MIP_Gap and time_limit reach the solver; unknown parameters are refused; a wide gap still gives honest results"""
    rng = case.rng
    for eng in engines():
        p = program(rng, unbounded=0)
        want = solve_exact(p)
        m, xs = build(p, eng, rng)
        add_rows(m, xs, p, rng)
        set_obj(m, xs, p["obj"], rng)
        gap, limit = rng.choice([0.01, 0.25, 1e-6, 0.5]), rng.choice([100, 250.0])
        tl = {"time_limit": limit} if eng != "cplex" else {}
        m.set_parameters(MIP_Gap=gap, **tl)
        if eng == "cplex":
            with case.must_raise("time_limit for cplex"):
                m.set_parameters(time_limit=100)
        cm = m.core_model
        got = (cm.Params.MIPGap, cm.Params.TimeLimit) if eng == "gurobi" else \
            (cm.parameters.mip.tolerances.mipgap.get(), None) if eng == "cplex" else (cm.controls.miprelstop, cm.controls.timelimit)
        case.check(abs(got[0] - gap) < 1e-12, "%s: MIP_Gap %s became %r" % (eng, gap, got[0]))
        if tl:
            case.check(abs(got[1] - limit) < 1e-9, "%s: time_limit %s became %r" % (eng, limit, got[1]))
        case.count("set")
        with case.must_raise("an unknown parameter"):
            m.set_parameters(mipgap=.1)
        if want[0] == "optimal":
            judge(case, m, xs, p, eng, "%s with gap %s" % (eng, gap), want, gap=gap)
            case.count("gaps")
        case.nontrivial(eng, repr(p), gap)


@reg.scenario(60, 300, needs=("rejections_observed",))
def refusals(case):
    """impossible variables are refused, and leave the model as it was"""
    rng = case.rng
    for eng in engines():
        p = program(rng, unbounded=0)
        m, xs = build(p, eng, rng)
        for kw in rng.sample([dict(lb=2, ub=1), dict(lb=INF), dict(ub=-INF), dict(lb=-INF, ub=-INF), dict(lb=INF, ub=INF), dict(type="int"), dict(type="binary", ub=2), dict(type="binary", lb=-1),
                              dict(type="binary", lb=.5), dict(lb="0"), dict(ub=None), dict(lb=1, ub=0, type="binary"), dict(type="binary", ub=.5),
                              dict(lb=0, ub=-.5, type="integer"), dict(type="Binary"), dict(type=None)], 5):
            with case.must_raise("%s add_var(%r)" % (eng, kw)):
                m.add_var(**kw)
        with case.must_raise("a bad sense"):
            m.set_objective(xs[0] + 1, sense=rng.choice(["max", "min", "Maximize", None]))
        add_rows(m, xs, p, rng)
        set_obj(m, xs, p["obj"], rng)
        want = solve_exact(p)
        if want[0] in ("optimal", "infeasible"):
            judge(case, m, xs, p, eng, eng, want)
    with case.must_raise("an unknown engine"):
        from ticdat import Model
        Model(rng.choice(["glpk", "Gurobi", "", None]))
    case.nontrivial(repr(p))
