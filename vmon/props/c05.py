"""C05: find_data_type_failures reports exactly the cells that break the declared types (TicDat and PanDat)."""
from ..core import Registry, short
from .. import gen, ref
import numpy as np, pandas as pd

reg = Registry()
reg.rule = ("a case draws a schema, per-field data type rules and rows whose cells sit on/inside/outside each rule; "
            "non-trivial when at least one cell is expected to fail; distinct by the (rule, failing value) set")
reg.assumptions = ["booleans count as neither number nor string; -inf together with must_be_int is not generated",
                   "date strings are drawn from clear-cut good and bad examples"]


def make(case, datetime_ok=True):
    rng = case.rng
    s = gen.schema(rng, dfs=(0, 4), no_pk=0.25)
    for t in s.normal():
        for f in s.fields(t):
            p = 0.25 if f in s.pks(t) else 0.75
            if rng.random() < p:
                s.types[t, f] = gen.type_spec(rng, datetime_ok)
    def key(t, f):
        if rng.random() < 0.12:
            return None
        kw = s.types.get((t, f))
        if kw and rng.random() < 0.6:
            v = gen.near(rng, kw)
            return v if not isinstance(v, bool) else "b"
        return gen.key_value(rng)
    def cell(t, f):
        kw = s.types.get((t, f))
        if kw and rng.random() < 0.45:
            return gen.good_value(rng, kw)
        return gen.near(rng, kw)
    data = gen.rows(rng, s, n=(0, 9), key=key, cell=cell)
    return s, data


def build_with_history(case, s, cls):
    """declare rules the way a long-lived program might: set, override, clear, re-set"""
    rng = case.rng
    fct = cls(**{t: [list(v[0]), list(v[1])] for t, v in s.tables.items()})
    for t in s.normal():
        for f in s.fields(t):
            if rng.random() < 0.2:
                fct.set_data_type(t, f, **gen.type_spec(rng))
            if (t, f) in s.types:
                fct.set_data_type(t, f, **s.types[t, f])
            else:
                fct.clear_data_type(t, f)
    return fct


def tic_keys(s, data, t, positions):
    n = len(s.pks(t))
    if n == 0:
        return set(positions)
    return {(data[t][i][0] if n == 1 else tuple(data[t][i][:n])) for i in positions}


def check_tic(case, s, data, fct, dat):
    want = ref.type_failures(s, data)
    before = gen.tic_rows(s, dat)
    got = fct.find_data_type_failures(dat)
    case.eq({tuple(k) for k in got}, set(want), "failing (table, field) pairs")
    for (t, f), pos in want.items():
        g = got[t, f]
        i = s.fields(t).index(f)
        bad = {data[t][n][i] for n in pos}
        case.eq(set(g.pks), tic_keys(s, data, t, pos), "failing rows of %s.%s" % (t, f))
        case.eq(len(g.pks), len(set(g.pks)), "repeated pks for %s.%s" % (t, f))
        case.eq(set(g.bad_values), bad, "bad values of %s.%s" % (t, f))
        case.eq(len(g.bad_values), len(bad), "repeated bad values for %s.%s" % (t, f))
        case.count("failing_cells", len(pos))
    after = gen.tic_rows(s, dat)
    case.eq(repr(after), repr(before), "find_data_type_failures changed the data")
    total = sum(map(len, want.values()))
    case.count("cells", sum(len(s.fields(t)) * len(data[t]) for t in s.normal()))
    for k in {1, case.rng.randint(1, max(1, total)), total + 1}:
        part = fct.find_data_type_failures(dat, max_failures=k)
        case.eq(sum(len(v.pks) for v in part.values()), min(k, total), "number of failures with max_failures=%s" % k)
        for kk, v in part.items():
            case.check(kk in got and set(v.pks) <= set(got[kk].pks) and set(v.bad_values) <= set(got[kk].bad_values),
                       "max_failures=%s reported something the full report does not: %s" % (k, short(part)))
    if want:
        case.nontrivial(sorted((str(s.types.get(k)), repr(sorted({repr(data[k[0]][n][s.fields(k[0]).index(k[1])])
                                                                   for n in v}))) for k, v in want.items()))


@reg.scenario(quick=1600, thorough=30000, needs=("failing_cells",))
def tic_exact(case):
    """TicDat report == reference report; max_failures partial reports; data untouched"""
    import ticdat
    s, data = make(case)
    case.describe(schema=s, data=data)
    fct = build_with_history(case, s, ticdat.TicDatFactory) if case.rng.random() < .5 else s.build(ticdat.TicDatFactory)
    dat = fct.TicDat(**gen.tic_args(s, data))
    if case.rng.random() < 0.3:
        dat = fct.freeze_me(dat)
    check_tic(case, s, data, fct, dat)
    case.sample(dict(schema=s, data=data))


def reindex(case, df):
    r = case.rng.random()
    if r < 0.5 or not len(df):
        return df
    df = df.copy()
    if r < 0.7:
        idx = list(range(10, 10 + len(df)))
        case.rng.shuffle(idx)
        df.index = idx
    elif r < 0.85:
        df.index = ["r%s" % i for i in range(len(df))]
    else:
        df.index = [case.rng.randint(0, 2) for _ in range(len(df))]
    return df


def dtypes(case, df, na=True):
    """the same cells under pandas' other column types (categories, nullable numbers, strings), and odder indexes;
    na=False leaves out the columns whose nulls pandas would hand over as pd.NA"""
    rng = case.rng
    if rng.random() < 0.75 or not len(df):
        return df
    df = df.copy()
    plain = (int, np.integer)
    for n, c in enumerate(list(df.columns)):
        v = [None if ref.is_null(x) else x for x in df[c]]
        live = [x for x in v if x is not None]
        kinds = []
        if live and len({repr(x) for x in live}) == len(set(live)) and not any(isinstance(x, (bool, np.bool_)) for x in live):
            kinds.append("category")
        if na or len(live) == len(v):
            if live and all(isinstance(x, plain) and not isinstance(x, bool) and abs(x) < 2 ** 60 for x in live):
                kinds.append("Int64")
            if live and all(isinstance(x, (float, np.floating)) for x in live):
                kinds.append("Float64")
            if live and all(isinstance(x, str) for x in live):
                kinds.append("string")
        if not kinds or rng.random() < 0.3:
            continue
        kind = rng.choice(kinds)
        try:
            col = pd.Series(pd.Categorical(v) if kind == "category" else pd.array(v, dtype=kind), index=df.index)
        except TypeError:        # pandas has no categories for these values
            continue
        if kind == "category" and rng.random() < 0.3:
            col = col.cat.add_categories(["an unused one"])
        df.isetitem(n, col)
        case.count("columns_as_" + kind)
    k = rng.randint(0, 7)
    if k == 0:
        df.index = pd.MultiIndex.from_tuples([(i % 2, "z%d" % i) for i in range(len(df))], names=["p", rng.choice([None, df.columns[0]])])
    elif k == 1:
        df.index.name = rng.choice(list(df.columns))
    elif k == 2:
        df.index = pd.date_range("2020-01-01", periods=len(df))
    elif k == 3:
        df.index = pd.CategoricalIndex(["a"] * len(df))
    elif k == 4:
        df.columns.name = "cols"
    elif k == 5:
        df.index = [None] * len(df)
    case.count("odd_indexes", k < 6)
    return df


@reg.scenario(quick=900, thorough=16000, needs=("failing_cells", "columns_as_category", "columns_as_Int64", "columns_as_string", "odd_indexes"))
def pan_exact(case):
    """PanDat report (table and boolean form) == reference report, any index, extra columns"""
    import ticdat
    s, data = make(case)
    case.describe(schema=s, data=data)
    fct = build_with_history(case, s, ticdat.PanDatFactory) if case.rng.random() < .5 else s.build(ticdat.PanDatFactory)
    args = gen.pan_args(s, data, dtype_object=case.rng.random() < 0.5)
    dat = fct.PanDat(**args)
    for t in s.normal():
        df = dtypes(case, reindex(case, getattr(dat, t)))
        if case.rng.random() < 0.2:
            df = df.assign(extra_col=range(len(df)))
        setattr(dat, t, df)
    real = gen.pan_rows(s, dat)          # pandas may have coerced; the rules apply to what is there
    want = ref.type_failures(s, real)
    before = {t: getattr(dat, t).copy(deep=True) for t in s.normal()}
    got = fct.find_data_type_failures(dat)
    flags = fct.find_data_type_failures(dat, as_table=False)
    case.eq({tuple(k) for k in got}, set(want), "failing (table, field) pairs")
    case.eq({tuple(k) for k in flags}, set(want), "failing (table, field) pairs, as_table=False")
    for (t, f), pos in want.items():
        case.eq([i for i, b in enumerate(flags[t, f]) if b], pos, "flagged rows of %s.%s" % (t, f))
        df = getattr(dat, t)
        expect = df.iloc[pos]
        case.check(got[t, f].equals(expect), lambda: "failed rows of %s.%s\n%s\nexpected\n%s" % (t, f, got[t, f], expect))
        case.count("failing_cells", len(pos))
    for t in s.normal():
        case.check(getattr(dat, t).equals(before[t]), "find_data_type_failures changed the data of " + t)
    total = sum(map(len, want.values()))
    for k in {1, case.rng.randint(1, max(1, total)), total + 1}:
        part = fct.find_data_type_failures(dat, as_table=False, max_failures=k)
        case.eq(sum(sum(map(bool, v)) for v in part.values()), min(k, total),
                "number of failures with max_failures=%s" % k)
        for kk, v in part.items():
            case.check(kk in flags and all(b or not a for a, b in zip(v, flags[kk])),
                       "max_failures=%s reported a row the full report does not" % k)
    if want:
        case.nontrivial(sorted((str(s.types.get(k)), len(v)) for k, v in want.items()), digest_data(data))
    case.sample(dict(schema=s, data=data))


def digest_data(data):
    return repr(data)[:2000]


@reg.scenario(quick=400, thorough=8000, needs=("failing_cells",))
def tic_pan_agree(case):
    """the same rows give the same verdicts as TicDat, as PanDat, and after copy_to_pandas / copy_to_tic_dat"""
    import ticdat
    s, data = make(case, datetime_ok=False)
    case.describe(schema=s, data=data)
    tdf, pdf = s.build(ticdat.TicDatFactory), s.build(ticdat.PanDatFactory)
    tic = tdf.TicDat(**gen.tic_args(s, data))
    pan = tdf.copy_to_pandas(tic, reset_index=True)
    real = gen.pan_rows(s, pan)
    want = ref.type_failures(s, real)
    got = pdf.find_data_type_failures(pan, as_table=False)
    case.eq({tuple(k): [i for i, b in enumerate(v) if b] for k, v in got.items()}, want, "report on copy_to_pandas")
    t_got = tdf.find_data_type_failures(tic)
    case.eq({tuple(k): len(v.pks) for k, v in t_got.items()}, {k: len(v) for k, v in want.items()},
            "TicDat and PanDat reports have different sizes")
    case.count("failing_cells", sum(map(len, want.values())))
    if want:
        case.nontrivial(digest_data(data))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=60, thorough=600, needs=("boundary_probes",))
def bounds_grid(case):
    """every combination of inclusive/exclusive/int/nullable/strings for a random [min,max], probed on a grid of values"""
    import ticdat, itertools
    rng = case.rng
    lo, hi = sorted([rng.choice([-gen.INF, -10, -1.5, 0, 1, 2.25, 5]), rng.choice([gen.INF, 10, 3, 2.5, 0, 5])])
    vals = sorted({x for b in (lo, hi) for x in (b, b - 1, b + 1, b - .5, b + .5, float(np.nextafter(b, -9e99)),
                                                 float(np.nextafter(b, 9e99)))} | {0, 1, -1, 7, 0.5, gen.INF})
    vals = [v for v in vals if v == v] + [None, "", "a", "b", True, False, np.int64(3), np.float64(2.5)]
    seen = []
    for v in vals:
        if not any(v == w and type(v) == type(w) for w in seen):
            seen.append(v)
    for imin, imax, mbi, nul, sa, na in itertools.product([0, 1], [0, 1], [0, 1], [0, 1], [(), ["a"], "*"], [0, 1]):
        kw = dict(min=lo, max=hi, inclusive_min=bool(imin), inclusive_max=bool(imax), must_be_int=bool(mbi),
                  nullable=bool(nul), strings_allowed=sa, number_allowed=bool(na))
        tdf = ticdat.TicDatFactory(t=[[], ["f", "g"]])
        tdf.set_data_type("t", "f", **kw)
        use = [v for v in seen if not (mbi and v == -gen.INF)]
        got = tdf.find_data_type_failures(tdf.TicDat(t=[[v, 1] for v in use]))
        want = [i for i, v in enumerate(use) if not ref.valid(kw, v)]
        g = sorted(got["t", "f"].pks) if ("t", "f") in got else []
        case.eq(g, want, "rule %s on %s" % (kw, use))
        case.count("boundary_probes", len(use))
        case.nontrivial(str(kw), repr(use))
    case.sample(dict(lo=lo, hi=hi, values=seen))
