"""C09: row predicates are evaluated on every row and their failures reported exactly."""
import functools
from ..core import Registry, digest
from .. import gen, ref
from .c05 import dtypes, reindex

reg = Registry()
reg.rule = ("random predicates (boolean / error message / raising, with and without kwargs makers, shared makers, convert_dat "
            "clones) whose verdict is a hash of the row; the monitor records every call; non-trivial when a row fails; "
            "distinct by (predicates, failing rows)")
reg.assumptions = ["Error Message predicates return literal True or a non-empty string, as documented"]


class Boom(Exception):
    pass


def rowkey(fields, row):
    return tuple(ref.canon(row[f]) for f in fields)


MESSAGES = ["msg %d" % i for i in range(5)] + [
    "a long explanation, such as an application would give: %s" % ("the capacity of the warehouse is exceeded; " * 4),
    "'quoted' \"twice\", 50% {of} it", "café", "0 units left", "not False"]


def guise(rng, x):
    """the callables users give: objects, closures of one function, bound methods, partials"""
    how = rng.choice(["object", "closure", "closure", "method", "partial"])
    if how == "closure":
        return lambda *a, **kw: x(*a, **kw)
    if how == "method":
        return x.__call__
    return functools.partial(x.__class__.__call__, x) if how == "partial" else x


def given(x):
    return x.given if x else None


class Pred(object):
    """a recording predicate; outcome is a pure function of (row, kwargs)"""
    def __init__(self, rng, s, t, name, maker=None):
        self.t, self.name, self.maker = t, name, maker
        self.fields = s.fields(t)
        self.response = rng.choice(["Boolean", "Error Message"])
        self.salt = rng.randint(0, 10 ** 6)
        self.p_bad = rng.choice([0, 0.1, 0.4, 1])
        self.p_raise = rng.choice([0, 0, 0, 0.15])
        self.calls = []
        self.given = guise(rng, self)
    def outcome(self, key, kw):
        h = int(digest((key, self.salt, sorted(kw.items()))), 16)
        x = (h % 10007) / 10007.0
        if x < self.p_raise:
            return "raise", "boom %d" % (h % 7)
        if x < self.p_raise + self.p_bad * (1 - self.p_raise):
            return "bad", MESSAGES[h % len(MESSAGES)]
        return "ok", h
    def __call__(self, row, **kw):
        assert isinstance(row, dict) or hasattr(row, "keys")
        key = rowkey(self.fields, row)
        self.calls.append((key, tuple(sorted(row.keys())), tuple(sorted(kw.items()))))
        what, x = self.outcome(key, kw)
        if what == "raise":
            raise Boom(x)
        if self.response == "Boolean":
            return [0, "", None, False, []][len(x) % 5] if what == "bad" else [1, "yes", True, [0], 3.5][x % 5]
        return True if what == "ok" else x
    def __repr__(self):
        return "Pred(%s, %r, %s, salt=%s, bad=%s, raise=%s, maker=%s)" % (
            self.t, self.name, self.response, self.salt, self.p_bad, self.p_raise, self.maker)


class Maker(object):
    def __init__(self, rng, pred_t):
        self.kind = rng.choice(["dict", "dict", "dict", "empty", "notdict", "raise"])
        self.val = rng.randint(0, 99)
        self.bad = rng.choice([None, [("k", 1)], "text", 3])
        self.seen = []
        self.given = guise(rng, self)
    def result(self):
        return {"dict": {"k": self.val}, "empty": {}, "notdict": self.bad}.get(self.kind)
    def __call__(self, dat):
        self.seen.append(dat)
        if self.kind == "raise":
            raise Boom("maker %d" % self.val)
        r = self.result()
        return dict(r) if isinstance(r, dict) else r
    def __repr__(self):
        return "Maker(%s,%s)" % (self.kind, self.val)


def predicates(rng, s, tables=None):
    makers = [Maker(rng, None) for _ in range(rng.randint(0, 2))]
    preds = {}
    for t in tables or s.normal():
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            name = rng.choice([None, None, "p%d" % i, i, "Error Message", ("tup", i)])
            maker = rng.choice(makers) if makers and rng.random() < 0.5 else None
            if name is None:
                name = next(k for k in range(100) if (t, k) not in preds)
                preds[t, name] = (Pred(rng, s, t, name, maker), True)
            else:
                preds[t, name] = (Pred(rng, s, t, name, maker), False)
    return {k: v[0] for k, v in preds.items()}, [k for k, v in preds.items() if v[1]]


def install(case, s, fct, preds, auto):
    rng = case.rng
    for (t, name), p in preds.items():
        if rng.random() < 0.15:                        # superseded and withdrawn predicates must leave no trace
            junk = Pred(rng, s, t, "junk")
            fct.add_data_row_predicate(t, junk.given, predicate_name="junk")
            fct.add_data_row_predicate(t, None, predicate_name="junk")
        if (t, name) not in auto and rng.random() < 0.15:
            fct.add_data_row_predicate(t, Pred(rng, s, t, name).given, predicate_name=name)
        fct.add_data_row_predicate(t, p.given, predicate_name=None if (t, name) in auto else name,
                                   predicate_kwargs_maker=given(p.maker), predicate_failure_response=p.response)
    for t in s.normal():
        got = fct.get_row_predicates(t)
        case.eq({n: (i.predicate, i.predicate_kwargs_maker, i.predicate_failure_response) for n, i in got.items()},
                {n: (p.given, given(p.maker), p.response) for (tt, n), p in preds.items() if tt == t}, "get_row_predicates " + t)


def expected(s, preds, data, handled):
    """(failures by (t, name), set of exceptions that may propagate)"""
    rtn, raises = {}, []
    for (t, name), p in preds.items():
        kw = {}
        if p.maker:
            if p.maker.kind == "raise":
                if not handled:
                    raises.append("maker")
                    continue
                rtn[t, name] = ("*", "Exception<maker %d>" % p.maker.val)
                continue
            kw = p.maker.result()
            if not isinstance(kw, dict):
                rtn[t, name] = ("*", None)
                continue
        bad = []
        for n, r in enumerate(data[t]):
            what, x = p.outcome(tuple(map(ref.canon, r)), kw)
            if what == "raise":
                if not handled:
                    raises.append((t, name))
                bad.append((n, "Exception<%s>" % x))
            elif what == "bad":
                bad.append((n, x))
        if bad:
            rtn[t, name] = bad
    return rtn, raises


def total_of(want):
    return sum(1 if v[0] == "*" else len(v) for v in want.values())


def setup(case, no_name=False):
    rng = case.rng
    s = gen.schema(rng, tables=(1, 3), dfs=(0, 3), no_pk=0.3, no_name=no_name)
    data = gen.rows(rng, s, n=(0, 9))
    preds, auto = predicates(rng, s)
    case.describe(schema=s, data=data, preds=list(preds.values()))
    mode = rng.choice(["Handled as Failure", "Handled as Failure", "Unhandled", "__debug__", None])
    kw = {} if mode is None else {"exception_handling": mode}
    return s, data, preds, auto, mode, kw


def reset(preds):
    for p in preds.values():
        p.calls.clear()
        if p.maker:
            p.maker.seen.clear()


def check_calls(case, s, preds, data, dat_ok, handled_ok, extra=()):
    for m in {p.maker for p in preds.values() if p.maker}:
        case.eq(len(m.seen), 1, "number of calls of a kwargs maker in one find_data_row_failures")
        case.check(dat_ok(m.seen[0]), "kwargs maker was called with the wrong data object")
        case.count("maker_calls")
    for (t, name), p in preds.items():
        live = not p.maker or isinstance(p.maker.result(), dict)
        kw = tuple(sorted((p.maker.result() if p.maker and live else {}).items()))
        want = [(tuple(map(ref.canon, r)), tuple(sorted(tuple(s.fields(t)) + tuple(extra.get(t, ()) if extra else ()))), kw)
                for r in data[t]] if live else []
        case.eq(p.calls, want, "rows that predicate %r of %s was called with" % (name, t))
        case.count("predicate_calls", len(want))


def keys_of(s, data, t):
    n = len(s.pks(t))
    return list(range(len(data[t]))) if not n else [r[0] if n == 1 else tuple(r[:n]) for r in data[t]]


def check_tic(case, s, data, preds, fct, dat, kw, mode, dat_ok=None, label=""):
    handled = mode == "Handled as Failure"
    want, raises = expected(s, preds, data, handled)
    before = repr(gen.tic_rows(s, dat))
    reset(preds)
    if raises:
        with case.must_raise("an unhandled exception of a predicate or kwargs maker", Boom):
            fct.find_data_row_failures(dat, **kw)
        case.count("propagated")
        case.eq(repr(gen.tic_rows(s, dat)), before, "the data changed")
        return
    got = fct.find_data_row_failures(dat, **kw)
    case.eq({tuple(k) for k in got}, set(want), "failing (table, predicate) pairs" + label)
    case.check(all(k.table == k[0] and k.predicate_name == k[1] for k in got), "keys are not (table, predicate_name)")
    check_calls(case, s, preds, data, dat_ok or (lambda d: d is dat), handled)
    for (t, name), w in want.items():
        g, p = got[t, name], preds[t, name]
        if w[0] == "*":
            case.eq(g.primary_key, "*", "bulk failure")
            case.check(isinstance(g.error_message, str) and (w[1] is None or w[1] == g.error_message),
                       "bulk failure message %r" % g.error_message)
            continue
        ks = keys_of(s, data, t)
        if p.response == "Boolean":
            case.eq(sorted(map(repr, g)), sorted(repr(ks[n]) for n, _ in w), "failing rows of %s %r" % (t, name))
        else:
            case.eq(sorted((repr(x.primary_key), x.error_message) for x in g), sorted((repr(ks[n]), m) for n, m in w),
                    "failing rows and messages of %s %r" % (t, name))
        case.count("failing_rows", len(w))
    total = total_of(want)
    for m in {1, case.rng.randint(1, max(1, total)), total + 1}:
        part = fct.find_data_row_failures(dat, max_failures=m, **kw)
        size = lambda v: 1 if hasattr(v, "primary_key") else len(v)
        case.eq(sum(map(size, part.values())), min(m, total), "number of failures with max_failures=%s" % m)
        for k, v in part.items():
            case.check(k in got and (v == got[k] if hasattr(v, "primary_key") else set(v) <= set(got[k])),
                       "max_failures reports what the full report does not")
    case.eq(repr(gen.tic_rows(s, dat)), before, "the data changed")
    if want:
        case.nontrivial(repr(sorted(map(repr, want.items()))))


@reg.scenario(quick=1500, thorough=25000, needs=("failing_rows", "propagated", "maker_calls"))
def tic_exact(case):
    """TicDat: calls recorded by the predicates and report == reference"""
    import ticdat
    s, data, preds, auto, mode, kw = setup(case)
    fct = ticdat.TicDatFactory(**{t: [list(v[0]), list(v[1])] for t, v in s.tables.items()})
    install(case, s, fct, preds, auto)
    dat = fct.TicDat(**gen.tic_args(s, data))
    if case.rng.random() < 0.2:
        dat = fct.freeze_me(dat)
    check_tic(case, s, data, preds, fct, dat, kw, mode)
    case.sample(dict(schema=s, data=data, preds=list(preds.values())))


def check_pan(case, s, preds, fct, dat, kw, mode, dat_ok=None):
    handled = mode == "Handled as Failure"
    real = gen.pan_rows(s, dat)
    want, raises = expected(s, preds, real, handled)
    before = {t: getattr(dat, t).copy(deep=True) for t in s.normal()}
    reset(preds)
    if raises:
        with case.must_raise("an unhandled exception of a predicate or kwargs maker", Boom):
            fct.find_data_row_failures(dat, **kw)
        case.count("propagated")
        return
    got = fct.find_data_row_failures(dat, **kw)
    case.eq({tuple(k) for k in got}, set(want), "failing (table, predicate) pairs")
    check_calls(case, s, preds, real, dat_ok or (lambda d: d is dat), handled,
                {t: [c for c in getattr(dat, t).columns if c not in s.fields(t)] for t in s.normal()})
    flags = fct.find_data_row_failures(dat, as_table=False, **kw)
    case.eq({tuple(k) for k in flags}, set(want), "failing (table, predicate) pairs, as_table=False")
    for (t, name), w in want.items():
        g, p = got[t, name], preds[t, name]
        if w[0] == "*":
            case.eq((g.primary_key, flags[t, name].primary_key), ("*", "*"), "bulk failure")
            case.check(isinstance(g.error_message, str) and (w[1] is None or w[1] == g.error_message), "bulk message")
            continue
        df = getattr(dat, t)
        rows = df.iloc[[n for n, _ in w]]
        case.eq([i for i, b in enumerate(flags[t, name]) if b], [n for n, _ in w], "flagged rows of %s %r" % (t, name))
        if p.response == "Boolean":
            case.check(g.equals(rows), "failing rows of %s %r" % (t, name))
        else:
            new = [c for c in g.columns if c not in df.columns]
            case.check(len(new) == 1 and new[0].startswith("Error Message"), "columns of the message report: %s" % list(g))
            case.check(g[list(df.columns)].equals(rows), "failing rows of %s %r" % (t, name))
            case.eq(list(g[new[0]]), [m for _, m in w], "messages of %s %r" % (t, name))
        case.count("failing_rows", len(w))
    total = total_of(want)
    for m in {1, case.rng.randint(1, max(1, total)), total + 1}:
        part = fct.find_data_row_failures(dat, max_failures=m, as_table=False, **kw)
        size = lambda v: 1 if hasattr(v, "primary_key") else sum(map(bool, v))
        case.eq(sum(map(size, part.values())), min(m, total), "number of failures with max_failures=%s" % m)
        for k, v in part.items():
            case.check(hasattr(v, "primary_key") or all(b or not a for a, b in zip(v, flags[k])),
                       "max_failures reports a row that does not fail")
    for t in s.normal():
        case.check(getattr(dat, t).equals(before[t]), "the data changed")
    if want:
        case.nontrivial(repr(sorted(map(repr, want.items()))))


def pan_dat(case, s, data, fct):
    rng = case.rng
    dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=rng.random() < 0.4))
    for t in s.normal():
        df = dtypes(case, reindex(case, getattr(dat, t)), na=False)
        if rng.random() < 0.2:
            df = df.assign(**{rng.choice(["extra_col", "Error Message"]): range(len(df))})
        setattr(dat, t, df)
    return dat


@reg.scenario(quick=1000, thorough=15000, needs=("failing_rows", "propagated", "maker_calls"))
def pan_exact(case):
    """PanDat: calls recorded by the predicates and report == reference"""
    import ticdat
    s, data, preds, auto, mode, kw = setup(case)
    fct = ticdat.PanDatFactory(**{t: [list(v[0]), list(v[1])] for t, v in s.tables.items()})
    install(case, s, fct, preds, auto)
    check_pan(case, s, preds, fct, pan_dat(case, s, data, fct), kw, mode)
    case.sample(dict(schema=s, data=data, preds=list(preds.values())))


@reg.scenario(quick=600, thorough=10000, needs=("failing_rows", "conversions", "added_after_clone", "failing_conversions", "replaced_after_clone", "cloned_again"))
def convert_dat(case):
    """clones with convert_dat: carried-over makers get the converted object (converted once), later ones the original"""
    import ticdat
    rng = case.rng
    s, data, preds, auto, mode, kw = setup(case, no_name=True)
    args = {t: [list(v[0]), list(v[1])] for t, v in s.tables.items()}
    to_pan = rng.random() < 0.5
    src = (ticdat.TicDatFactory if to_pan else ticdat.PanDatFactory)(**args)
    install(case, s, src, preds, auto)
    conversions = []
    conv_fails, attempts = rng.random() < 0.15, []
    def conv(d):
        attempts.append(d)
        if conv_fails:
            raise Boom("conversion")
        new = new_fct.copy_to_tic_dat(d) if to_pan else new_fct.copy_to_pandas(d, reset_index=True)
        conversions.append((d, new))
        return new
    target = ticdat.PanDatFactory if to_pan else ticdat.TicDatFactory
    if rng.random() < 0.2:                 # without convert_dat, predicates with makers can not be carried over
        new_fct = src.clone(clone_factory=target)
        preds = {k: p for k, p in preds.items() if not p.maker}
    else:
        new_fct = src.clone(clone_factory=target, convert_dat=conv)
    late = {}
    for t in s.normal():
        if rng.random() < 0.4:
            m = rng.choice([p.maker for p in preds.values() if p.maker] or [None]) if rng.random() < .5 else Maker(rng, t)
            p = Pred(rng, s, t, "late", m)
            new_fct.add_data_row_predicate(t, p.given, predicate_name="late", predicate_kwargs_maker=given(m),
                                           predicate_failure_response=p.response)
            late[t, "late"] = p
            case.count("added_after_clone")
    for t, n in sorted(preds, key=repr):
        if rng.random() < 0.2:             # replaced after the clone, under the name it had
            m = Maker(rng, t) if rng.random() < .7 else None
            p = Pred(rng, s, t, n, m)
            new_fct.add_data_row_predicate(t, p.given, predicate_name=n, predicate_kwargs_maker=given(m),
                                           predicate_failure_response=p.response)
            late[t, n] = p
            case.count("replaced_after_clone")
    preds = {k: p for k, p in preds.items() if k not in late}
    if rng.random() < .3:                  # the carried-over conversion survives further clones
        new_fct = new_fct.clone()
        case.count("cloned_again")
    for t in s.normal():
        case.eq(set(new_fct.get_row_predicates(t)), {n for tt, n in list(preds) + list(late) if tt == t},
                "predicates of the clone for " + t)
    shared = {p.maker for p in preds.values() if p.maker} & {p.maker for p in late.values() if p.maker}
    dat = pan_dat(case, s, data, new_fct) if to_pan else new_fct.TicDat(**gen.tic_args(s, data))
    alls = {**preds, **late}
    real = gen.pan_rows(s, dat) if to_pan else data
    handled = mode == "Handled as Failure"
    carried = {k: p for k, p in preds.items() if p.maker} if conv_fails else {}
    want, raises = expected(s, {k: p for k, p in alls.items() if k not in carried}, real, handled)
    if carried:
        case.count("failing_conversions")
        want.update({k: ("*", "Exception<conversion>") for k in carried})
        raises = raises or ([] if handled else ["conversion"])
    reset(alls)
    if raises:
        with case.must_raise("an unhandled exception", Boom):
            new_fct.find_data_row_failures(dat, **kw)
        return
    got = new_fct.find_data_row_failures(dat, **kw)
    case.eq({tuple(k) for k in got}, set(want), "failing (table, predicate) pairs")
    makers = {p.maker for p in preds.values() if p.maker}
    case.eq(len(attempts), 1 if makers else 0, "times the data was converted")
    for k, w in want.items():
        if w[0] == "*":
            case.eq(got[k].primary_key, "*", "rows named for the failing kwargs maker of %s" % (k,))
            case.check(w[1] is None or got[k].error_message == w[1], "message %r for the failing maker of %s" % (got[k].error_message, k))
    if carried:
        makers = set()
    case.count("conversions", len(conversions))
    case.check(all(d is dat for d, _ in conversions), "convert_dat was called with something else than the data")
    for m in makers | {p.maker for p in late.values() if p.maker}:
        exp = ([conversions[0][1]] if m in makers else []) + ([dat] if any(p.maker is m for p in late.values()) else [])
        case.eq(sorted(map(id, m.seen)), sorted(map(id, exp)),
                "data objects the kwargs maker was called with (%s)" % ("shared" if m in shared else "not shared"),
                key="convert_dat:" + ("shared" if m in shared else "plain"))
    for k, w in want.items():
        if w[0] == "*":
            continue
        ks = keys_of(s, real, k[0])
        if to_pan:
            case.eq(len(got[k]), len(w), "failing rows of %s" % (k,))
        elif alls[k].response == "Boolean":
            case.eq(sorted(map(repr, got[k])), sorted(repr(ks[n]) for n, _ in w), "failing rows of %s" % (k,))
        case.count("failing_rows", len(w))
    if want:
        case.nontrivial(repr(sorted(map(repr, want.items()))))
