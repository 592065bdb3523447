"""C10: duplicates are found exactly and never lost silently."""
import contextlib, io, json, os
import pandas as pd
from ..core import Registry
from .. import gen, ref, files
from .c05 import dtypes, reindex

reg = Registry()
reg.rule = ("rows with repeated primary keys; the reference counts keys; non-trivial when some key repeats; distinct by the "
            "repetition pattern")
reg.assumptions = ["CSV, SQLite and Excel readers keep the last row per key by design (find_duplicates is their "
                   "documented report); duplicates_ticdat_init governs TicDat construction and the JSON reader",
                   "no null key fields"]


def dup_data(rng, s, pool, n=(0, 10)):
    rtn = {}
    for t in s.normal():
        rs = []
        small = rng.sample(pool, min(len(pool), rng.randint(1, 4)))
        for i in range(gen.size(rng, n)):
            rs.append(tuple(rng.choice(small) for _ in s.pks(t)) + tuple(rng.randint(0, 9) for _ in s.dfs(t)))
        rtn[t] = rs
    return rtn


def counts(s, data):
    """{table: {key: count}} for keys seen more than once"""
    rtn = {}
    for t in s.normal():
        n = len(s.pks(t))
        if not n:
            continue
        c = {}
        for r in data[t]:
            k = r[0] if n == 1 else tuple(r[:n])
            c[k] = c.get(k, 0) + 1
        c = {k: v for k, v in c.items() if v > 1}
        if c:
            rtn[t] = c
    return rtn


STR_POOL = ["a", "b", "c d", "ñ", "e,f", "g'h", "Q"]
CSV_POOL = STR_POOL + ["a\nb", "a\r\nb", "a\rb", "é", "€", " a", "a "]
INT_POOL = [1, 2, 3, 40, 5]
MIX_POOL = STR_POOL + INT_POOL + [2.5]


@reg.scenario(quick=1500, thorough=25000, needs=("duplicate_rows",))
def pandat_find_duplicates(case):
    """PanDatFactory.find_duplicates against counting, all keep modes, both report forms"""
    import ticdat
    rng = case.rng
    s = gen.schema(rng, pks=(1, 4), no_pk=0.2)
    data = dup_data(rng, s, rng.choice([STR_POOL, INT_POOL, MIX_POOL]))
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.PanDatFactory)
    dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=rng.random() < .3))
    for t in s.normal():
        df = dtypes(case, reindex(case, getattr(dat, t)))
        if rng.random() < 0.2:
            df = df.assign(extra_col=range(len(df)))
        if rng.random() < 0.2:
            df = df[list(reversed(df.columns))]
        setattr(dat, t, df)
    real = gen.pan_rows(s, dat)
    before = {t: getattr(dat, t).copy(deep=True) for t in s.normal()}
    for keep in ["default", "first", "last", False]:
        want = {}
        for t in s.normal():
            n = len(s.pks(t))
            if not n:
                continue
            keys = [tuple(r[:n]) for r in real[t]]
            if keep in ("default", "first"):
                bad = [i for i, k in enumerate(keys) if k in keys[:i]]
            elif keep == "last":
                bad = [i for i, k in enumerate(keys) if k in keys[i + 1:]]
            else:
                bad = [i for i, k in enumerate(keys) if keys.count(k) > 1]
            if bad:
                want[t] = bad
        kw = {} if keep == "default" else {"keep": keep}
        got = fct.find_duplicates(dat, **kw)
        flags = fct.find_duplicates(dat, as_table=False, **kw)
        case.eq(set(got), set(want), "tables with duplicates, keep=%s" % keep)
        case.eq({t: [i for i, b in enumerate(v) if b] for t, v in flags.items()}, want, "flags, keep=%s" % keep)
        for t, bad in want.items():
            case.check(got[t].equals(getattr(dat, t).iloc[bad]), "duplicate rows of %s, keep=%s" % (t, keep))
            case.count("duplicate_rows", len(bad))
    for t in s.normal():
        case.check(getattr(dat, t).equals(before[t]), "find_duplicates changed " + t)
    if want:
        case.nontrivial(sorted((t, tuple(b), len(real[t]), len(s.pks(t))) for t, b in want.items()))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=700, thorough=6000, needs=("duplicate_keys", "csv", "json", "json pandas", "json split", "from_pandas", "sql", "xls", "xlsx", "offsets", "recoded_csv"))
def file_find_duplicates(case):
    """find_duplicates of every file reader against counting the rows that were put in the file"""
    import ticdat
    rng = case.rng
    fmt = rng.choice(["csv", "csv", "json", "json", "json pandas", "json split", "sql", "sql", "xls", "xlsx"])
    s = gen.schema(rng, pks=(1, 3), no_pk=0.15, dfs=(0, 3))
    pool = CSV_POOL if fmt == "csv" else rng.choice([STR_POOL, INT_POOL, MIX_POOL])
    data = dup_data(rng, s, pool)
    case.describe(fmt=fmt, schema=s, data=data)
    flat = gen.Schema({t: ((), s.fields(t)) for t in s.normal()})
    flat_tdf = flat.build(ticdat.TicDatFactory)
    dat = flat_tdf.TicDat(**gen.tic_args(flat, data))
    tdf = s.build(ticdat.TicDatFactory)
    kw, spell = {}, lambda t: t
    if rng.random() < 0.4:
        spell = lambda t: rng.choice([t.upper(), t.lower(), t.replace("_", " ")])
    if fmt == "csv":
        d = case.path("d")
        if rng.random() < 0.3:
            kw["headers_present"] = False
        if rng.random() < 0.3:
            kw["dialect"] = "excel-tab"
        flat_tdf.csv.write_directory(dat, d, write_header=kw.get("headers_present", True),
                                     dialect=kw.get("dialect", "excel"))
        for t in s.normal():
            os.rename(os.path.join(d, t + ".csv"), os.path.join(d, spell(t) + ".csv"))
        kw.update(files.recode(case, d))
        got = tdf.csv.find_duplicates(d, **kw)
    elif fmt.startswith("json"):
        p = case.path("x.json")
        if fmt == "json split":
            ix = rng.random() < .5
            with open(p, "w") as f:
                json.dump({t: dict({"columns": list(s.fields(t)), "data": [list(r) for r in data[t]]},
                                   **({"index": list(range(len(data[t])))} if ix else {})) for t in s.normal()}, f)
        else:
            flat_tdf.json.write_file(dat, p, to_pandas="pandas" in fmt,
                                     **({} if "pandas" in fmt else {"verbose": rng.random() < .5}))
        with open(p) as f:
            d = json.load(f)
        with open(p, "w") as f:
            json.dump({spell(k): v for k, v in d.items()}, f)
        from_pandas = fmt in ("json pandas", "json split") and rng.random() < .4
        got = tdf.json.find_duplicates(p, **({"from_pandas": True} if from_pandas else {}))
        case.count("from_pandas", from_pandas)
    elif fmt == "sql":
        p = case.path("x.db")
        flat_tdf.sql.write_db_data(dat, p)
        got = tdf.sql.find_duplicates(p)
    elif rng.random() < .5:
        from .c18 import build_book
        hdr = rng.random() < .7 or not all(data[t] for t in s.normal())
        off, sheets = {}, {}
        for t in s.normal():
            data[t] = list(data[t])
            for _ in range(rng.choice([0, 0, 1, 2])):            # rows that look like the header
                data[t].insert(rng.randint(0, len(data[t])), tuple(s.fields(t)))
            if rng.random() < .6:
                off[t] = rng.randint(1, 3)
            lead = [[rng.choice(["title", f]) for f in s.fields(t)] for _ in range(off.get(t, 0))]
            sheets[t] = lead + ([list(s.fields(t))] if hdr else []) + [list(r) for r in data[t]]
        p = case.path("x." + fmt)
        case.describe(fmt=fmt, schema=s, data=data, row_offsets=off, headers_present=hdr)
        build_book(case, p, sheets)
        got = tdf.xls.find_duplicates(p, **dict(({"row_offsets": off} if off else {}), **({} if hdr else {"headers_present": False})))
        case.count("offsets" if off else "no_offsets")
        case.count("headerless", not hdr)
    else:
        p = case.path("x." + fmt)
        flat_tdf.xls.write_file(dat, p, case_space_sheet_names=rng.random() < 0.3)
        got = tdf.xls.find_duplicates(p)
    case.eq({t: dict(v) for t, v in got.items()}, counts(s, data), "find_duplicates of the %s reader" % fmt)
    case.count(fmt)
    case.count("duplicate_keys", sum(map(len, counts(s, data).values())))
    if counts(s, data):
        case.nontrivial(fmt, repr(sorted(counts(s, data).items())))
    case.sample(dict(fmt=fmt, schema=s, data=data))


@reg.scenario(quick=900, thorough=15000, needs=("asserted", "warned", "ignored", "clean"))
def ticdat_construction(case):
    """duplicates_ticdat_init over every row-wise constructor shape and the JSON reader; the last row wins otherwise"""
    import ticdat
    rng = case.rng
    s = gen.schema(rng, pks=(1, 3), no_pk=0.15, dfs=(0, 3),
                   field_names=[f for f in gen.FIELD_NAMES if f != "name"])
    dups = rng.random() < 0.8
    data = dup_data(rng, s, MIX_POOL) if dups else gen.rows(rng, s, cell=lambda t, f: rng.randint(0, 9))
    mode = rng.choice(["default", "assert", "warn", "ignore"])
    case.describe(schema=s, data=data, mode=mode)
    tdf = s.build(ticdat.TicDatFactory)
    if mode != "default":
        tdf.set_duplicates_ticdat_init(mode)
    json_file = rng.random() < 0.3
    args = {}
    for t in s.normal():
        shape = rng.choice(["rows", "tuples", "dicts", "frame", "frame_index"])
        if shape == "frame" or (shape == "frame_index" and not s.pks(t)):
            args[t] = gen.pan_args(s, data, True)[t]
        elif shape == "frame_index":
            args[t] = gen.pan_args(s, data, True)[t].set_index(list(s.pks(t)))
        elif shape == "dicts":
            args[t] = [dict(zip(s.fields(t), r)) for r in data[t]]
        else:
            args[t] = [(list if shape == "rows" else tuple)(r) for r in data[t]]
    if json_file:
        p = case.path("x.json")
        with open(p, "w") as f:
            json.dump({t: ([dict(zip(s.fields(t), r)) for r in rs] if rng.random() < .5 else rs)
                       for t, rs in data.items()}, f)
        build = lambda: tdf.json.create_tic_dat(p)
    else:
        build = lambda: tdf.TicDat(**args)
    bad = counts(s, data)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if bad and mode in ("default", "assert"):
            with case.must_raise("duplicate rows in %s" % sorted(bad), AssertionError):
                build()
            case.count("asserted")
            case.nontrivial(repr(sorted(bad.items())), mode, json_file)
            return
        dat = build()
    if bad and mode == "warn":
        case.check(all(t in out.getvalue() for t in bad), "no warning about %s: %r" % (sorted(bad), out.getvalue()))
        case.count("warned")
    else:
        case.check("duplicate" not in out.getvalue().lower(), "unexpected output %r" % out.getvalue())
        case.count("ignored" if bad else "clean")
    want = {}
    for t in s.normal():
        n = len(s.pks(t))
        if n:
            d = {}
            for r in data[t]:
                d[r[:n]] = r
            want[t] = list(d.values())
        else:
            want[t] = data[t]
    case.eq(gen.canon_rows(gen.tic_rows(s, dat)), gen.canon_rows(want), "rows of the built object")
    if bad:
        case.nontrivial(repr(sorted(bad.items())), mode, json_file)


@reg.scenario(quick=300, thorough=4000, needs=("converted_duplicates", "date", "flag", "text", "both", "csv", "json", "sql", "xlsx", "xls"))
def converted_keys(case):
    """keys that are only equal (or only differ) once read by their declared type: dates, flagged infinities, text-only, numbers and text"""
    import ticdat, csv, datetime, sqlite3
    from .c18 import build_book
    rng = case.rng
    fmt = rng.choice(["csv", "json", "sql", "xlsx", "xls"])
    flag = rng.choice([100, 77.5, None])
    kinds = [rng.choice(["date", "flag" if flag else "date", "text", "both"]) for _ in range(rng.randint(1, 2))]
    INF = gen.INF
    dt = datetime.datetime
    groups = {"date": {dt(2020, 1, 2): ["2020-01-02", "2020-01-02 00:00:00", "01/02/2020", "Jan 2 2020"],
                       dt(2021, 3, 4, 5, 6): ["2021-03-04 05:06", "2021-03-04 05:06:00"]},
              "flag": {INF: [flag, (flag or 0) + 1, 5000], -INF: [-(flag or 0), -5001], 3: [3, 3.0]},
              "text": {"01": ["01"], "1": ["1"], "1.0": ["1.0"], "2020-01-02": ["2020-01-02"], "500": ["500"], "a": ["a"]},
              "both": {5: [5, "5", "5.0"] if fmt != "csv" else ["5", "5.0"], 7: [7], "x": ["x"], -2.5: ["-2.5"]}}
    if fmt == "csv":
        groups["text"].pop("2020-01-02")
    tdf = ticdat.TicDatFactory(t=[["k%d" % i for i in range(len(kinds))], ["v"]], u=[["a"], []])
    if flag:
        tdf.set_infinity_io_flag(flag)
    for i, k in enumerate(kinds):
        kw = {"date": dict(datetime=True), "flag": dict(min=-INF, max=INF, inclusive_max=True),
              "text": dict(number_allowed=False, strings_allowed="*"), "both": dict(min=-INF, strings_allowed="*")}[k]
        if k != "flag" or fmt == "csv" or rng.random() < .5:      # untyped csv keys stay text
            tdf.set_data_type("t", "k%d" % i, **kw)
    if rng.random() < .3:
        tdf = tdf.clone()
    rows, want = [], {}
    for n in range(rng.randint(2, 8)):
        key, cell = [], []
        for k in kinds:
            v = rng.choice(list(groups[k]))
            key.append(v)
            cell.append(rng.choice(groups[k][v]))
        rows.append(cell + [n])
        key = tuple(key) if len(key) > 1 else key[0]
        want[key] = want.get(key, 0) + 1
    raw = {}
    for r in rows:
        raw[tuple(map(repr, r[:-1]))] = raw.get(tuple(map(repr, r[:-1])), 0) + 1
    want = {k: n for k, n in want.items() if n > 1}
    case.describe(fmt=fmt, flag=flag, kinds=kinds, rows=rows, want=want)
    head = ["k%d" % i for i in range(len(kinds))] + ["v"]
    p = case.path("x." + fmt)
    if fmt == "csv":
        p = case.path("d")
        os.mkdir(p)
        with open(os.path.join(p, "t.csv"), "w", newline="") as f:
            csv.writer(f).writerows([head] + rows)
        got = tdf.csv.find_duplicates(p)
    elif fmt == "json":
        with open(p, "w") as f:
            json.dump({"t": rows if rng.random() < .5 else [dict(zip(head, r)) for r in rows]}, f)
        got = tdf.json.find_duplicates(p)
    elif fmt == "sql":
        con = sqlite3.connect(p)
        con.execute("create table t (%s)" % ", ".join(head))
        con.execute("create table u (a)")
        con.executemany("insert into t values (%s)" % ",".join("?" * len(head)), rows)
        con.commit()
        con.close()
        got = tdf.sql.find_duplicates(p)
    else:
        build_book(case, p, {"t": [head] + rows})
        got = tdf.xls.find_duplicates(p)
    cc = lambda k: tuple(map(ref.canon, k)) if isinstance(k, tuple) else ref.canon(k)
    case.eq({t: {cc(k): n for k, n in v.items()} for t, v in got.items()}, {"t": {cc(k): n for k, n in want.items()}} if want else {},
            "find_duplicates of the %s reader" % fmt)
    case.count(fmt)
    for k in kinds:
        case.count(k)
    case.count("converted_duplicates", want != {k: n for k, n in raw.items() if n > 1} and bool(want))
    if want:
        case.nontrivial(fmt, flag, repr(kinds), repr(rows))
