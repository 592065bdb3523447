"""C01: every accepted input shape builds the same schema-conforming data object; misfits are rejected."""
import collections, copy, datetime, types
import numpy as np, pandas as pd
from ..core import Registry
from .. import gen, ref

reg = Registry()
reg.rule = ("random schema and rows, one construction shape per table; the reference is the row list itself with the "
            "documented defaults; distinct by (shape, schema shape, rows)")
reg.assumptions = ["a table with a data field called 'name', or 'name' in a multi-field key, can not be populated from a DataFrame "
                   "(documented)", "a missing primary key field in a dict row is not specified",
                   "null is compared as null, whatever its representation"]

FIELDS = gen.FIELD_NAMES + ["index", "columns", "level_0", "data2"]


def defaults(rng, s):
    for t in s.normal():
        for f in s.dfs(t):
            if rng.random() < 0.4:
                s.defaults[t, f] = rng.choice([1, 2.5, "dflt", "", None, float("inf"), -3, True])
        for f in s.pks(t):
            if rng.random() < 0.1:
                s.defaults[t, f] = rng.choice(["pkd", 7])
    return s


class Map(collections.abc.Mapping):
    """a mapping that is not a dict"""
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)


def frame_ok(s, t):
    return "name" not in s.dfs(t) and not ("name" in s.pks(t) and len(s.pks(t)) > 1)


def partial(rng, s, t, row, fields):
    """a dict holding only some of the data fields, and the row as it then has to come out"""
    keep = [f for f in fields if rng.random() < 0.7]
    d = dict(zip(s.fields(t), row))
    if rng.random() < .3:
        rng.shuffle(keep)
    return {f: d[f] for f in keep}, tuple(d[f] if f in keep or f not in fields else s.default(t, f) for f in s.fields(t))


def frame(rng, s, t, rows, allow_missing=True, permute=False):
    """a DataFrame in one of the accepted layouts, and the rows it stands for"""
    df = pd.DataFrame([list(r) for r in rows], columns=list(s.fields(t)), dtype=object)
    want = list(rows)
    drop = [f for f in s.dfs(t) if allow_missing and rng.random() < 0.15]
    if len(drop) == len(s.fields(t)):
        drop = []
    df = df.drop(columns=drop)
    want = [tuple(s.default(t, f) if f in drop else v for f, v in zip(s.fields(t), r)) for r in rows]
    if rng.random() < 0.3:
        df["extra thing"] = range(len(df))
    if rng.random() < 0.4:
        cols = list(df.columns)
        rng.shuffle(cols)
        df = df[cols]
    shape = "frame"
    if s.pks(t) and rng.random() < 0.5:
        keys = list(s.pks(t))
        if permute and rng.random() < 0.3:      # TicDat wants the index levels in the order of the key
            rng.shuffle(keys)
        df = df.set_index(keys, drop=rng.random() < 0.6)
        shape = "frame, keys in the index"
    elif rng.random() < 0.4:
        df.index = rng.choice([lambda: range(5, 5 + len(df)), lambda: [0] * len(df),
                               lambda: ["r%d" % (i // 2) for i in range(len(df))],
                               lambda: pd.MultiIndex.from_tuples([(i // 3, "u") for i in range(len(df))] or [],
                                                                 names=[None, None]) if len(df) else range(0)])()
    if rng.random() < 0.3:
        try:
            df = df.infer_objects()
        except Exception:
            pass
    return shape, df, want


def tic_shape(rng, s, t, rows, tdf):
    """(shape name, constructor argument, rows it stands for)"""
    pks, dfs, n = s.pks(t), s.dfs(t), len(s.pks(t))
    key = lambda r: r[0] if n == 1 else tuple(r[:n])
    box = lambda d: rng.choice([dict, collections.OrderedDict, Map, types.MappingProxyType])(d)
    seq = lambda l: rng.choice([list, tuple])(l)
    opts = []
    if pks:
        opts += ["dict of dicts", "dict of partial dicts", "dict of lists", "rows", "list of dicts", "list of partial dicts",
                 "ticdat table"]
        if len(dfs) == 1:
            opts += ["dict of scalars"] * 2
        if not dfs:
            opts += ["key container"] * 3
        if n == 1 and len(dfs) == 1 and rows and frame_ok(s, t):
            opts += ["series"]
    else:
        opts += ["rows", "list of dicts", "list of partial dicts", "ticdat table"]
        if len(dfs) == 1:
            opts += ["scalars"] * 2
    if frame_ok(s, t):
        opts += ["frame"] * 3
    o = rng.choice(opts)
    if o == "frame":
        return frame(rng, s, t, rows)
    if o == "series":
        return o, pd.Series([r[1] for r in rows], index=pd.Index([r[0] for r in rows], name=pks[0], dtype=object),
                            dtype=object, name=rng.choice([dfs[0], "whatever", None])), rows
    if o == "ticdat table":
        other = tdf.TicDat(**{t: gen.tic_args(s, {x: rows if x == t else [] for x in s.normal()})[t]})
        return o, getattr(other, t), rows
    if o == "scalars":
        return o, seq([r[0] for r in rows]), rows
    if o == "key container":
        ks = [key(r) for r in rows]
        return o, rng.choice([list, tuple, set, frozenset, lambda l: {k: {} for k in l}, lambda l: {k: [] for k in l},
                              lambda l: {k: 0 for k in l}.keys()])(ks), rows
    if o == "dict of scalars":
        return o, box({key(r): r[n] for r in rows}), rows
    if o == "dict of lists":
        return o, box({key(r): seq(r[n:]) for r in rows}), rows
    if o == "dict of dicts":
        return o, box({key(r): box(dict(zip(dfs, r[n:]))) for r in rows}), rows
    if o == "dict of partial dicts":
        ps = [partial(rng, s, t, r, dfs) for r in rows]
        return o, box({key(r): box(d) for r, (d, _) in zip(rows, ps)}), [w for _, w in ps]
    if o == "rows":
        if len(s.fields(t)) == 1:
            return o, seq([rng.choice([lambda: r[0], lambda: [r[0]], lambda: (r[0],)])() for r in rows]), rows
        return o, seq([seq(r) for r in rows]), rows
    if o == "list of dicts":
        return o, seq([box(dict(zip(s.fields(t), r))) for r in rows]), rows
    ps = [partial(rng, s, t, r, dfs) for r in rows]
    return o, seq([box(dict(d, **dict(zip(pks, r)))) for r, (d, _) in zip(rows, ps)]), [w for _, w in ps]


def snapshot(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.copy(deep=True)
    if isinstance(x, types.MappingProxyType):
        return dict((k, snapshot(v)) for k, v in x.items())
    if hasattr(x, "items"):
        return [(k, snapshot(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return x


def unchanged(case, what, x, before):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        case.check(x.equals(before) and x.index.equals(before.index) and
                   (isinstance(x, pd.Series) or list(x.columns) == list(before.columns)), "the %s passed in was changed" % what)
    else:
        case.check(repr(snapshot(x)) == repr(before), "the %s passed in was changed" % what)


def conforming(case, s, dat):
    """the stored objects have exactly the schema's fields"""
    for t in s.normal():
        tbl = getattr(dat, t)
        rows = tbl.values() if s.pks(t) else tbl
        for r in rows:
            case.check(set(r.keys()) == set(s.dfs(t)) and len(r) == len(s.dfs(t)) and set(dict(r.items())) == set(s.dfs(t)),
                       lambda: "row of %s has fields %s" % (t, list(r.keys())))
        if s.pks(t):
            for k in tbl:
                case.check(isinstance(k, tuple) == (len(s.pks(t)) > 1) and (not isinstance(k, tuple) or len(k) == len(s.pks(t))),
                           lambda: "key %r of %s" % (k, t))


@reg.scenario(quick=5000, thorough=60000, needs=("dict of dicts", "dict of partial dicts", "dict of lists", "dict of scalars",
                                                 "rows", "list of dicts", "list of partial dicts", "key container", "frame",
                                                 "frame, keys in the index", "series", "scalars", "ticdat table"))
def ticdat_shapes(case):
    """a TicDat built from any mix of shapes holds exactly the rows, defaults filled in; the arguments stay untouched"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, field_names=FIELDS))
    data = gen.rows(rng, s)
    tdf = s.build(ticdat.TicDatFactory)
    args, want, shapes = {}, {}, {}
    for t in s.normal():
        if rng.random() < 0.08:
            want[t] = []
            continue
        shapes[t], args[t], want[t] = tic_shape(rng, s, t, data[t], tdf)
    case.describe(schema=s, data=data, shapes=shapes, args=args)
    before = {t: snapshot(a) for t, a in args.items()}
    dat = tdf.TicDat(**args)
    unordered = [t for t, sh in shapes.items() if sh == "key container"]
    got = gen.tic_rows(s, dat)
    for t in s.normal():
        g, w = [gen.canon_rows({t: x}, order=t not in unordered)[t] for x in (got[t], want[t])]
        case.eq(g, w, "rows of table %s built from %s" % (t, shapes.get(t, "nothing")))
        if t in shapes:
            case.count(shapes[t])
            unchanged(case, shapes[t], args[t], before[t])
            if data[t]:
                case.nontrivial(shapes[t], len(s.pks(t)), len(s.dfs(t)), repr(want[t]))
    conforming(case, s, dat)
    case.check(tdf.good_tic_dat_object(dat), "the built object is not a good TicDat object")
    case.sample(dict(schema=s, shapes=shapes, data=data))


@reg.scenario(quick=3500, thorough=40000, needs=("rejections_observed",))
def ticdat_misfits(case):
    """one misfit among otherwise good rows is rejected, whatever the shape"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, field_names=FIELDS))
    data = gen.rows(rng, s, n=(1, 6))
    tdf = s.build(ticdat.TicDatFactory)
    args = gen.tic_args(s, data)
    t = rng.choice(s.normal())
    pks, dfs, n = s.pks(t), s.dfs(t), len(s.pks(t))
    rows = [list(r) for r in data[t]]
    i = rng.randrange(len(rows))
    key = lambda r: r[0] if n == 1 else tuple(r[:n])
    opts = ["unknown table", "long row", "scalar table", "string table"]
    if len(rows[0]) > 1:
        opts += ["short row", "scalar row"]
    if pks:
        opts += ["wrong key", "frame without key"]
        if dfs:
            opts += ["dict row unknown field", "dict of long lists", "list of dicts unknown field"]
            if len(dfs) != 1:
                opts += ["dict of scalars"]
        else:
            opts += ["value for no data fields"]
    else:
        opts += ["list of dicts unknown field"]
    o = rng.choice(opts)
    if "frame" in o and (not frame_ok(s, t) or any((t, f) in s.defaults for f in pks)):   # a default fills it in
        o = "unknown table"
    u = rng.choice(["no_such", "Qty ", "name2", ""])
    name = t
    if o == "unknown table":
        name, arg = "not_" + t, args[t]
    elif o == "long row":
        rows[i] = rows[i] + [1]
        arg = rows
    elif o == "short row":
        rows[i] = rows[i][:-1]
        arg = rows
    elif o == "scalar row":
        rows[i] = rng.choice(["abc", "ab", 3, None])
        arg = rows
    elif o == "scalar table":
        arg = rng.choice([5, 1.5, True])
    elif o == "string table":
        arg = rng.choice(["abc", "a"])
    elif o == "wrong key":
        arg = {key(r): dict(zip(dfs, r[n:])) for r in rows}
        v = arg.pop(key(rows[i]))
        bad = key(rows[i])
        bad = tuple(bad) + ("more",) if n > 1 else (bad, "more")
        if n > 1 and rng.random() < 0.6:
            bad = rng.choice([bad[:n - 1], bad[0]])
        arg[bad] = v
    elif o == "frame without key":
        arg = pd.DataFrame(rows, columns=list(s.fields(t)), dtype=object).drop(columns=[rng.choice(pks)])
    elif o == "dict row unknown field":
        arg = {key(r): dict(zip(dfs, r[n:])) for r in rows}
        arg[key(rows[i])][u] = 1
    elif o == "dict of long lists":
        arg = {key(r): list(r[n:]) for r in rows}
        arg[key(rows[i])].append(3) if len(dfs) == 1 or rng.random() < .5 else arg[key(rows[i])].pop()
    elif o == "dict of scalars":
        arg = {key(r): dict(zip(dfs, r[n:])) for r in rows}
        arg[key(rows[i])] = rng.choice([3, "abc", None])
    elif o == "value for no data fields":
        arg = {key(r): {} for r in rows}
        arg[key(rows[i])] = rng.choice([3, "abc", [1], {"a": 1}])
    else:
        arg = [dict(zip(s.fields(t), r)) for r in rows]
        arg[i][u] = 1
    args[name] = arg
    if name == t and rng.random() < 0.5:
        args = {t: arg}
    case.describe(schema=s, table=t, misfit=o, arg=arg)
    with case.must_raise("%s in table %s" % (o, t)):
        tdf.TicDat(**args)
    case.count(o)
    case.nontrivial(o, n, len(dfs), repr(arg))
    # the factory still works
    args = gen.tic_args(s, data)
    case.eq(gen.canon_rows(gen.tic_rows(s, tdf.TicDat(**args))), gen.canon_rows(data), "rows built after a rejected misfit")


def pan_shape(rng, s, t, rows):
    pks, fields = s.pks(t), s.fields(t)
    o = rng.choice(["frame", "frame", "columns dict", "list of dicts", "list of lists", "split dict", "split dict", "array",
                    "series dict"])
    if not rows and o in ("list of dicts", "list of lists", "array"):
        o = "columns dict"
    if {"columns", "data", "index"}.intersection(fields) and o == "split dict":
        o = "columns dict"
    want, extra = list(rows), []
    if o == "frame":
        shape, df, want = frame(rng, s, t, rows, permute=True)
        extra = [(c, list(df[c])) for c in df.columns if c not in fields]
        if shape != "frame":       # set_index keeps or drops the key columns; both are accepted
            o = shape
        return o, df, want, extra
    order = list(fields)
    if o in ("columns dict", "series dict"):
        if rng.random() < 0.5:
            rng.shuffle(order)
        drop = [f for f in s.dfs(t) if rng.random() < 0.15]
        if rows and len(drop) < len(fields):
            order = [f for f in order if f not in drop]
            want = [tuple(s.default(t, f) if f in drop else v for f, v in zip(fields, r)) for r in rows]
        box = list if o == "columns dict" else (lambda l: pd.Series(l, dtype=object))
        return o, {f: box([r[fields.index(f)] for r in rows]) for f in order}, want, extra
    if o == "list of dicts":
        return o, [dict(zip(fields, r)) for r in rows], want, extra
    if o == "split dict":
        if rng.random() < 0.5:
            rng.shuffle(order)
        d = {"columns": order, "data": [[r[fields.index(f)] for f in order] for r in rows]}
        if rng.random() < 0.5:
            d["index"] = list(range(3, 3 + len(rows)))
        return o, d, want, extra
    if o in ("array", "list of lists") and len(rows) and rng.random() < 0.2:      # cells past the schema's fields
        longer = [list(r) + ["more %d" % i] for i, r in enumerate(rows)]
        return o + ", more cells", longer if o == "list of lists" else np.array(longer, dtype=object), want, extra
    if o == "array":
        return o, np.array([list(r) for r in rows], dtype=object).reshape(len(rows), len(fields)), want, extra
    return o, [list(r) for r in rows], want, extra


@reg.scenario(quick=3000, thorough=40000, needs=("frame", "frame, keys in the index", "columns dict", "list of dicts",
                                                 "list of lists", "split dict", "array", "series dict",
                                                 "array, more cells", "list of lists, more cells"))
def pandat_shapes(case):
    """a PanDat built from any mix of shapes: schema columns first and in order, rows, defaults and extra columns"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, field_names=FIELDS))
    data = gen.rows(rng, s, n=(0, 6), unique=rng.random() < .7)
    pdf = s.build(ticdat.PanDatFactory)
    args, want, shapes, extras = {}, {}, {}, {}
    for t in s.normal():
        if rng.random() < 0.08:
            want[t] = []
            continue
        shapes[t], args[t], want[t], extras[t] = pan_shape(rng, s, t, data[t])
    case.describe(schema=s, data=data, shapes=shapes, args=args)
    before = {t: snapshot(a) for t, a in args.items() if not isinstance(a, np.ndarray)}
    dat = pdf.PanDat(**args)
    for t in s.normal():
        df = getattr(dat, t)
        case.eq(list(df.columns)[:len(s.fields(t))], list(s.fields(t)), "leading columns of %s" % t)
        case.eq(gen.canon_rows(gen.pan_rows(s, dat, [t]), order=True)[t], gen.canon_rows(want, order=True)[t],
                "rows of table %s built from %s" % (t, shapes.get(t, "nothing")))
        if t in shapes:
            case.count(shapes[t])
            for c, vals in extras[t]:
                case.check(c in df.columns and list(df[c]) == vals, "extra column %r of %s" % (c, t))
                case.count("extra_columns")
            if t in before:
                unchanged(case, shapes[t], args[t], before[t])
            if data[t]:
                case.nontrivial(shapes[t], len(s.pks(t)), len(s.dfs(t)), repr(want[t]))
    case.check(pdf.good_pan_dat_object(dat), "the built object is not a good PanDat object")
    case.sample(dict(schema=s, shapes=shapes, data=data))


@reg.scenario(quick=1200, thorough=12000, needs=("rejections_observed",))
def pandat_misfits(case):
    """unknown tables, missing key fields, rows that are too short and non-tables are rejected"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, field_names=FIELDS, no_pk=.2))
    s.defaults = collections.OrderedDict(((t, f), v) for (t, f), v in s.defaults.items() if f in s.dfs(t))
    data = gen.rows(rng, s, n=(1, 6))
    pdf = s.build(ticdat.PanDatFactory)
    args = gen.pan_args(s, data)
    t = rng.choice(s.normal())
    o = rng.choice(["unknown table", "missing key", "missing key", "short rows", "scalar"])
    name = t
    if not s.pks(t) and o == "missing key":
        o = "unknown table"
    if len(s.fields(t)) == 1 and o == "short rows":
        o = "unknown table"
    if o == "unknown table":
        name, arg = "not_" + t, args[t]
    elif o == "missing key":
        arg = args[t].drop(columns=[rng.choice(s.pks(t))])
        if rng.random() < .4 and len(arg.columns):
            arg = {c: list(arg[c]) for c in arg.columns}
    elif o == "short rows":
        arg = [list(r[:-1]) for r in data[t]]
    else:
        arg = rng.choice([5, "abc", 2.5])
    case.describe(schema=s, table=t, misfit=o, arg=arg)
    args[name] = arg
    with case.must_raise("%s in table %s" % (o, t)):
        pdf.PanDat(**args)
    case.count(o)
    case.nontrivial(o, repr(arg))
