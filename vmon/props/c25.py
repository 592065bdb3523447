"""C25: Slicer, Sloc and faster_df_apply agree with their brute-force meaning."""
import collections, datetime, itertools
import numpy as np
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref

reg = Registry()
reg.rule = ("random index sets (types mixed, duplicates, nested tuples) and random query histories with interleaved clears and edits of the "
            "returned lists, run on a Slicer using gurobipy and on one that can't; random Series/DataFrames with MultiIndexes, sorted "
            "or not; random DataFrames, functions and trip wires; each answer is compared with a scan of all rows; distinct by input and history")
reg.assumptions = ["NaN is not used as an index value; a slice argument is a hashable value of the kind indices are made of ('*' aside)",
                   "for a list of labels some of which are absent Sloc is not judged; neither is what it does with labels of the wrong type in a range",
                   "two columns of one DataFrame do not share a name"]
D = datetime.datetime


def value(rng, kind):
    return {"int": lambda: rng.randint(-2, 4), "float": lambda: rng.choice([0.0, 1.0, 2.5, -1.5, float("inf")]),
            "str": lambda: rng.choice(["a", "b", "A", "", " ", "**", "1", "a*", "Ünï", "x y"]),
            "none": lambda: None, "bool": lambda: rng.random() < .5, "date": lambda: D(2020, 1, rng.randint(1, 3)),
            "tuple": lambda: tuple(rng.choice([1, 2, "a"]) for _ in range(rng.randint(0, 2))),
            "frozenset": lambda: frozenset(rng.sample([1, 2, "a"], rng.randint(0, 2))),
            "numpy": lambda: rng.choice([np.int64(1), np.float64(2.5), np.int32(3)]),
            "timestamp": lambda: pd.Timestamp(2020, 1, rng.randint(1, 3))}[kind]()


FLAT = ["int", "float", "str", "str", "int", "none", "bool", "date", "numpy", "timestamp"]


def same(a, b):
    return a == b


def scan(idx, args):
    return [t for t in idx if all((isinstance(a, str) and a == "*") or same(x, a) for x, a in zip(t, args))]


def bag(x):
    """tuples up to the equality dicts use (1 == 1.0 == True)"""
    return collections.Counter(map(tuple, x))


def a_slicer(case):
    """{name: Slicer}, one that may use gurobipy, one that can't, one whose gurobipy is withdrawn later"""
    from ticdat import utils
    return utils


@reg.scenario(quick=1200, thorough=15000, needs=["slices_matched", "empty_slices", "with_gurobi", "without_gurobi", "nested_indices", "clears", "edited_answers",
                                                 "single_source_iterators"])
def slicer(case):
    """slices against a scan, with and without gurobipy, over a history of queries"""
    rng = case.rng
    from ticdat import utils, Slicer
    w = rng.randint(1, 5)
    nested = rng.random() < .3
    kinds = [[rng.choice(FLAT) for _ in range(rng.randint(1, 2))] for _ in range(w)]
    if nested:                                     # comparing a numpy number with a tuple gives an array
        kinds = [[k if k != "numpy" else "int" for k in x] for x in kinds]
        kinds[rng.randrange(w)].append(rng.choice(["tuple", "frozenset"]))
        case.count("nested_indices")
    draw = lambda i: value(rng, rng.choice(kinds[i]))
    if rng.random() < .3:
        pools = [[draw(i) for _ in range(rng.randint(1, 3))] for i in range(w)]
        idx = list(itertools.islice(itertools.product(*pools), 200))
    else:
        idx = [tuple(draw(i) for i in range(w)) for _ in range(rng.choice([0, 1, 2, 5, 12, 40]))]
    if rng.random() < .6:
        idx = list(dict.fromkeys(idx))
    def shaped():
        k = rng.choice(["list", "tuple", "set", "gen", "inner", "dict", "lists"])
        if k == "set":
            return set(idx) if len(set(idx)) == len(idx) else list(idx)
        if k in ("gen", "inner"):
            case.count("single_source_iterators")
        return {"list": lambda: list(idx), "tuple": lambda: tuple(idx), "gen": lambda: (t for t in idx), "inner": lambda: [iter(t) for t in idx],
                "dict": lambda: dict.fromkeys(idx) if len(set(idx)) == len(idx) else list(idx), "lists": lambda: [list(t) for t in idx]}[k]()
    case.describe(indices=repr(idx)[:1500])
    had = utils.gu
    sl = {"gurobi": Slicer(shaped())}
    case.count("with_gurobi" if getattr(sl["gurobi"], "_gu", None) is not None else "without_gurobi")
    try:
        utils.gu = None
        sl["no gurobi"] = Slicer(shaped())
    finally:
        utils.gu = had
    case.count("without_gurobi")
    hist = []
    for q in range(rng.randint(1, 25)):
        k = rng.random()
        if k < .08:
            hist.append("clear")
            case.count("clears")
            [x.clear() for x in sl.values()]
            continue
        if idx and rng.random() < .6:
            base = rng.choice(idx)
            args = tuple("*" if rng.random() < .5 else x for x in base)
        else:
            args = tuple("*" if rng.random() < .4 else draw(i) for i in range(w))
            if not any(isinstance(x, (tuple, frozenset)) for t in idx for x in t):
                args = tuple("*" if isinstance(x, (tuple, frozenset)) else x for x in args)
        if hist and rng.random() < .15:
            prev = [h for h in hist if isinstance(h, tuple)]
            args = rng.choice(prev) if prev else args
        hist.append(args)
        want = bag(scan(idx, args)) if idx else bag([])
        for n, x in sl.items():
            try:
                got = x.slice(*args)
            except Exception as e:
                case.fail("Slicer (%s) of %r, slice%r raises %s: %s" % (n, idx[:12], args, type(e).__name__, e), key="slicer:raises")
            case.check(isinstance(got, list), "slice returns %r" % type(got))
            case.eq(bag(got), want, "Slicer (%s) of %r, slice%r" % (n, idx[:12], args), key="slicer:" + n)
            if rng.random() < .3:
                case.count("edited_answers")
                rng.choice([lambda: got.append(("junk",) * w), lambda: got.clear(), lambda: got.reverse()])()
        case.count("slices_matched" if want else "empty_slices")
    case.nontrivial(repr(idx), repr(hist))
    case.sample(dict(indices=repr(idx[:5]), history=repr(hist[:5])))


@reg.scenario(quick=300, thorough=2500, needs=["rejections_observed"])
def slicer_refusals(case):
    """ragged index sets, '*' as an index and queries of the wrong length"""
    rng = case.rng
    from ticdat import Slicer, utils
    w = rng.randint(1, 4)
    idx = [tuple(value(rng, rng.choice(FLAT)) for _ in range(w)) for _ in range(rng.randint(1, 6))]
    bad = list(idx)
    k = rng.choice(["ragged", "star", "scalar", "query"])
    had = utils.gu
    try:
        if rng.random() < .5:
            utils.gu = None
        if k == "query":
            s = Slicer(idx)
            args = ["*"] * rng.choice([x for x in range(0, w + 3) if x != w])
            with case.must_raise("slice%r of indices of length %d" % (args, w)):
                s.slice(*args)
            got = s.slice(*["*"] * w)
            case.eq(bag(got), bag(idx), "full slice after a refused one")
        else:
            i = rng.randint(0, len(idx))
            bad.insert(i, {"ragged": idx[0] + (1,) if rng.random() < .5 else idx[0][:-1], "scalar": 5,
                           "star": tuple("*" if j == i % w else x for j, x in enumerate(idx[0]))}[k])
            with case.must_raise("Slicer(%r)" % (bad,)):
                Slicer(bad)
    finally:
        utils.gu = had
    case.nontrivial(k, repr(idx))


def frame(case, levels=(2, 4)):
    rng = case.rng
    w = rng.randint(*levels)
    pools = [rng.choice([["a", "b", "c", "d"], [1, 2, 3], [1.5, 2.0, 3.25], [D(2020, 1, 1), D(2020, 1, 2)], ["x", "y"]]) for _ in range(w)]
    keys = list(dict.fromkeys(tuple(rng.choice(p) for p in pools) for _ in range(rng.randint(1, 14))))
    if rng.random() < .5:
        keys.sort()
    return w, pools, keys


ABSENT = {str: "zz", int: 77, float: 7.75, D: D(1999, 1, 1)}


def matches(t, key):
    for x, k in zip(t, key):
        if isinstance(k, slice):
            if (k.start is not None and x < k.start) or (k.stop is not None and x > k.stop):
                return False
        elif isinstance(k, list):
            if x not in k:
                return False
        elif x != k:
            return False
    return True


@reg.scenario(quick=700, thorough=9000, needs=["sloc_matched", "sloc_empty", "sloc_as_loc", "unsorted_ranges", "unsorted", "table_columns"])
def sloc(case):
    """Sloc against .loc and against a scan of the rows"""
    rng = case.rng
    from ticdat import TicDatFactory, Sloc
    w, pools, keys = frame(case)
    names = ["f%d" % i for i in range(w)]
    vals = [[float(i) if j else i for i, _ in enumerate(keys)] for j in range(2)]
    how = rng.choice(["series", "add_sloc", "add_sloc frame", "copy_to_pandas"])
    if how == "copy_to_pandas":
        f = TicDatFactory(t=[names, ["v", "u"]], o=[["k"], ["v"]])
        dat = f.TicDat(t={k: [a, b] for k, a, b in zip(keys, *vals)}, o={1: 2})
        df = f.copy_to_pandas(dat, drop_pk_columns=rng.choice([None, True, False])).t
        cols = [(df.v, df.v.sloc, vals[0]), (df.u, df.u.sloc, vals[1])]
        case.count("table_columns")
    else:
        mi = pd.MultiIndex.from_tuples(keys, names=names)
        df = pd.DataFrame({"v": vals[0], "u": vals[1]}, index=mi)
        if how == "series":
            cols = [(df.v, Sloc(df.v), vals[0])]
        elif how == "add_sloc":
            s = df.u.copy()
            case.check(Sloc.add_sloc(s) is s, "add_sloc returns its argument")
            cols = [(s, s.sloc, vals[1])]
        else:
            case.check(Sloc.add_sloc(df) is df, "add_sloc returns its argument")
            cols = [(df.v, df.v.sloc, vals[0]), (df.u, df.u.sloc, vals[1])]
    case.describe(keys=repr(keys), how=how)
    if keys != sorted(keys):
        case.count("unsorted")
    hist = []
    for _ in range(rng.randint(2, 12)):
        n = rng.randint(1, w)
        key = []
        for i in range(n):
            r, p = rng.random(), pools[i]
            if r < .45:
                key.append(slice(None))
            elif r < .75:
                key.append(rng.choice(p))
            elif r < .85:
                key.append(ABSENT[type(p[0])])
            elif r < .93:
                a, b = sorted([rng.choice(p), rng.choice(p)])
                key.append(slice(*rng.choice([(a, b), (a, None), (None, b)])))
            else:
                present = [x for x in p if any(k[i] == x for k in keys)]
                key.append(rng.sample(present, rng.randint(1, len(present))) if present else rng.choice(p))
        key = tuple(key) if n > 1 or isinstance(key[0], slice) or rng.random() < .5 else key[0]
        tk = key if isinstance(key, tuple) else (key,)
        hist.append(key)
        hit = [i for i, t in enumerate(keys) if matches(t, tk)]
        full_slice = isinstance(key, tuple) and any(isinstance(k, slice) and k == slice(None) for k in key)
        ranges = any(isinstance(k, slice) and k != slice(None) for k in tk)
        for s, x, v in cols:
            try:
                want = s.loc[key]
            except Exception as e:
                want = e
            try:
                got = x[key]
            except Exception as e:
                got = e
            what = "sloc[%r] over %r" % (key, keys)
            if isinstance(want, Exception):
                if full_slice and not hit and isinstance(want, KeyError) and not isinstance(want, pd.errors.UnsortedIndexError):
                    case.check(isinstance(got, pd.Series) and len(got) == 0, lambda: "%s gives %r for an absent slice" % (what, got))
                    case.count("sloc_empty")
                else:
                    case.check(isinstance(got, Exception) or (isinstance(got, pd.Series) and sorted(got) == sorted(v[i] for i in hit)),
                               lambda: "%s gives %r where .loc raises %r and rows %r match" % (what, got, want, [keys[i] for i in hit]))
                    if ranges and isinstance(want, pd.errors.UnsortedIndexError):
                        case.count("unsorted_ranges")
                continue
            case.check(not isinstance(got, Exception), lambda: "%s raises %r where .loc does not" % (what, got))
            case.count("sloc_as_loc")
            if isinstance(want, pd.Series):
                case.check(isinstance(got, pd.Series) and got.equals(want) and got.index.equals(want.index), lambda: "%s gives %r, .loc %r" % (what, got, want))
                if not any(isinstance(k, list) for k in tk):
                    case.eq(sorted(got), sorted(v[i] for i in hit), what)
                case.count("sloc_matched", len(want) > 0)
            else:
                case.eq(got, want, what)
    case.nontrivial(repr(keys), repr(hist), how)


def a_frame(case):
    rng = case.rng
    n = rng.choice([0, 1, 2, 3, 7, 30])
    cols = rng.sample(["a", "b", "from", "class", "Index", "_x", "a b", "1", 5, "b.1", "Ünï", "index", "count", ("t", 1), "apply"], rng.randint(1, 6))
    if rng.random() < .04:
        cols = ["c%d" % i for i in range(rng.randint(253, 300))]
        n = min(n, 3)
    pool = {"int": lambda: [rng.randint(-5, 5) for _ in range(n)], "float": lambda: [rng.choice([1.5, 2.0, float("nan"), float("inf")]) for _ in range(n)],
            "str": lambda: [rng.choice(["x", "y", ""]) for _ in range(n)], "mixed": lambda: [rng.choice([1, "x", None, 2.5, True, (1, 2)]) for _ in range(n)],
            "date": lambda: pd.to_datetime([D(2020, 1, rng.randint(1, 28)) for _ in range(n)]), "bool": lambda: [rng.random() < .5 for _ in range(n)],
            "cat": lambda: pd.Categorical([rng.choice("ab") for _ in range(n)], categories=["a", "b", "c"]),
            "big": lambda: [2 ** 60 + rng.randint(0, 9) for _ in range(n)], "Int64": lambda: pd.array([rng.choice([1, 2, None]) for _ in range(n)], dtype="Int64")}
    data = [pool[rng.choice(list(pool))]() for _ in cols]
    df = pd.DataFrame({i: d for i, d in enumerate(data)})
    df.columns = pd.Index(cols, tupleize_cols=False)
    k = rng.choice(["range", "range", "shuffled", "str", "date", "multi", "dup", "float", "named", "mixed", "cat", "stepped"])
    names = [None]
    if k == "shuffled":
        df.index = rng.sample(range(n), n)
    elif k == "str":
        df.index = pd.Index(["i%d" % i for i in range(n)], dtype=object)
    elif k == "date":
        df.index = pd.date_range("2020-01-01", periods=n)
    elif k == "multi":
        df.index = pd.MultiIndex.from_tuples([(i % 3, "k%d" % i) for i in range(n)] if n else [], names=["p", "q"]) if n else df.index
    elif k == "dup":
        df.index = [i // 2 for i in range(n)]
    elif k == "float":
        df.index = [i + .5 for i in range(n)]
    elif k == "named":
        df.index = pd.Index(range(n), name="nm")
    elif k == "mixed":
        df.index = pd.Index([i if i % 2 else "k%d" % i for i in range(n)], dtype=object)
    elif k == "cat":
        df.index = pd.CategoricalIndex([rng.choice("xy") for _ in range(n)])
    elif k == "stepped":
        df.index = pd.RangeIndex(10, 10 + 3 * n, 3)
    return df, cols, k


def cano(x):
    if isinstance(x, tuple):
        return ("tuple",) + tuple(map(cano, x))
    if x is pd.NA or ref.is_null(x):
        return None
    if isinstance(x, (bool, np.bool_)):
        return ("bool", bool(x))
    if isinstance(x, (list, dict, pd.Series)):
        return repr(x)
    return ref.canon(x)


@reg.scenario(quick=900, thorough=12000, needs=["rows_applied", "trip_wires_tripped", "empty_frames", "raising_functions", "compared_with_apply"])
def df_apply(case):
    """faster_df_apply against calling the function row by row"""
    rng = case.rng
    from ticdat import faster_df_apply
    df, cols, kind = a_frame(case)
    n = len(df)
    keep = df.copy(deep=True)
    cells = [[cano(x) for x in df.iloc[:, j]] for j in range(len(cols))]
    results = [rng.choice([lambda i: i, lambda i: float(i), lambda i: "r%d" % i, lambda i: i % 2 == 0, lambda i: None if i % 3 else i, lambda i: (i, i + 1),
                           lambda i: D(2020, 1, 1) + datetime.timedelta(days=i), lambda i: [i] * (i % 3), lambda i: {"k": i},
                           lambda i: i if i % 2 else "s", lambda i: float("nan"), lambda i: None]) for _ in range(2)]
    calls = []
    boom = rng.randrange(n) if n and rng.random() < .1 else None
    def make(tag):
        def fn(row):
            i = len(calls)
            calls.append((tag, [cano(row[c]) for c in cols], sorted(map(repr, row))))
            if i == boom:
                raise ZeroDivisionError("boom")
            if rng_mess:
                row[cols[0]] = "messed"
                row.pop(cols[-1], None)
            return results[tag](i)
        return fn
    rng_mess = rng.random() < .3
    trip_at = rng.choice([None, None] + list(range(n))) if rng.random() < .7 else None
    checks = []
    def wire(r):
        checks.append(r)
        return make(1) if trip_at is not None and len(checks) - 1 == trip_at else rng.choice([None, False, 0, ""])
    use = trip_at is not None or rng.random() < .2
    case.describe(frame=repr(df)[:900], dtypes=list(map(str, df.dtypes)), index=kind, trip_at=trip_at)
    try:
        got = faster_df_apply(df, make(0), wire) if use else faster_df_apply(df, make(0))
    except ZeroDivisionError:
        case.check(boom is not None, "ZeroDivisionError out of nowhere")
        case.eq(len(calls), boom + 1, "calls up to the failing one")
        case.count("raising_functions")
        case.nontrivial(repr(df), boom)
        return
    case.check(boom is None, "the error the function raised is lost")
    case.eq(len(calls), n, "number of calls")
    cut = n if trip_at is None else trip_at + 1
    for i, (tag, vals, names) in enumerate(calls):
        case.eq(vals, [cells[j][i] for j in range(len(cols))], "what the function was given for row %d" % i)
        case.eq(names, sorted(map(repr, cols)), "field names the function was given")
        case.eq(tag, 0 if i < cut else 1, "which function was called for row %d (trip wire at %r)" % (i, trip_at))
        case.count("rows_applied")
    if trip_at is not None:
        case.count("trip_wires_tripped")
        case.eq(len(checks), trip_at + 1, "trip wire checks")
    case.check(isinstance(got, pd.Series), "returns %r" % type(got))
    want = [results[0 if i < cut else 1](i) for i in range(n)]
    case.eq([cano(x) for x in got], [cano(x) for x in want], "the values returned")
    case.eq([cano(x) for x in got.index], [cano(x) for x in df.index], "the index of the result")
    case.check(got.index.equals(df.index) and list(got.index.names) == list(df.index.names), lambda: "index %r of the result differs from %r" % (got.index, df.index),
               key="df_apply:index")
    case.check(df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index), "the DataFrame was changed")
    if not n:
        case.count("empty_frames")
        case.check(str(got.dtype) == "float64", "dtype %s of the result for an empty DataFrame" % got.dtype)
    elif not any(isinstance(x, (list, dict)) for x in want):
        it = iter(want)
        app = df.apply(lambda row: next(it), axis=1)
        case.eq([cano(x) for x in got], [cano(x) for x in app], "faster_df_apply and DataFrame.apply")
        case.eq(str(got.dtype), str(app.dtype), "dtypes of faster_df_apply and DataFrame.apply")
        case.count("compared_with_apply")
    # assignment, as a column
    if df.index.is_unique and n:
        d2 = df.copy()
        d2["__new"] = got
        case.eq([cano(x) for x in d2["__new"]], [cano(x) for x in want], "the result as a new column")
    case.nontrivial(repr(df), repr(want), trip_at)
