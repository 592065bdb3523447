"""C31: readers convert each cell by its field's declared type, and never otherwise."""
import collections, datetime, json
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf
from . import c24

reg = Registry()
reg.rule = ("sources written without ticdat; every cell drawn from pools of numeric-looking, date-looking and plain text, numbers, dates and "
            "nulls irrespective of the declared type of its field; one oracle per (declared type, format) says what must come back; distinct "
            "by (format, schema, cells)")
reg.assumptions = ["csv holds nothing but text: its TicDat reader tries numbers wherever numbers are allowed, whatever the automunge setting "
                   "(documented), and its PanDat reader is pandas' own",
                   "pandas types undeclared and number-only columns itself, so PanDat columns of those kinds are homogeneous here; a number in a "
                   "text-only PanDat column may come back as its text",
                   "text pandas takes for missing (csv, Excel) and the SQLite reader's documented words (true, false, inf) are not generated there",
                   "blank rows at the end of a sheet are pruned (C18), so the last row of every sheet has content"]
D = datetime.datetime
DATES = [("2020-01-02", D(2020, 1, 2)), ("2021-12-31 23:59:58", D(2021, 12, 31, 23, 59, 58)), ("1999/07/04", D(1999, 7, 4)),
         ("Jan 5 2015", D(2015, 1, 5)), ("2018-03-04T05:06:07", D(2018, 3, 4, 5, 6, 7)), ("3/4/2019", D(2019, 3, 4)),
         ("20 Feb 2020", D(2020, 2, 20)), ("2020-02-29 12:00", D(2020, 2, 29, 12)), ("July 4, 1976", D(1976, 7, 4)),
         ("2016-12-31T23:59:59.250", D(2016, 12, 31, 23, 59, 59, 250000)), ("12/31/1999 1:30 PM", D(1999, 12, 31, 13, 30)),
         ("1850-06-01", D(1850, 6, 1))]
DATE_OF = dict(DATES + [("20200102", D(2020, 1, 2))])
NOT_DATES = ["banana", "2020-13-45", "not a date", "31/31/31x", "2021-02-30", "2020-01-02 25:61:00", "q1 fy20", "12abc", "--", "$5"]
NUMS = ["12", "007", "1.5", "-3", "1e3", "0", "+4", " 5 ", "1_000", "0.10", "-0", ".5", "5.", "1E5", "00", "3.0", "123456789012", "-1.25e-3",
        "9" * 20, "١٢"]
TEXTS = ["abc", "12abc", "1,5", "$5", "0x1F", "1e", ".", "--", "5%", "1 2", "٣x", "e5", "+", "1/2", "x", "Ünï", "12:30", "a,b", 'q"q',
         "yes", "one", "1__0", "_1", "0b1", "1e5x"]
IO_TIC = ["csv", "sql", "json list", "json dict", "xls", "xlsx"]
IO_PAN = ["csv", "sql", "json split", "json list", "json records", "xlsx"]
KINDS = ["dt", "text", "both", "num", "none", None]


def a_type(rng, k):
    nullable = rng.random() < .4
    if k is None:
        return None
    if k == "dt":
        return dict(datetime=True, nullable=nullable)
    if k == "text":
        return dict(number_allowed=False, strings_allowed="*" if rng.random() < .6 else ["a", "007"], nullable=nullable)
    if k == "none":
        return dict(number_allowed=False, strings_allowed=(), nullable=nullable)
    kw = dict(number_allowed=True, min=rng.choice([0, -1000, -gen.INF]), max=gen.INF, nullable=nullable,
              inclusive_min=False, inclusive_max=rng.random() < .3)
    if k == "both":
        kw["strings_allowed"] = "*" if rng.random() < .6 else ["a", "12", "x"]
    if rng.random() < .25:
        kw["must_be_int"] = True
    return kw


def native(rng, fmt):
    """a cell that is not text, where the format has such"""
    opts = [3, 2.5, -7, 0, 10 ** 6, 43831, .25]
    if fmt in ("xls", "xlsx") and rng.random() < .35:
        return D(rng.randint(1990, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 12]), rng.choice([0, 30]))
    return rng.choice(opts)


def ok_cell(kind, fmt, v):
    if isinstance(v, str):
        if kind == "pan" and fmt in ("csv", "xlsx") and v in pf.NA:
            return False
        if fmt.startswith("sql") and v.lower() in ("true", "false", "inf", "-inf"):
            return False
        if v == "" and (fmt != "csv" or kind == "pan"):
            return False
        if fmt in ("xls", "xlsx") and v.lower() in ("inf", "-inf"):
            return False
    return True


def column(rng, kind, fmt, k, kw, n, pk):
    """n cells of a column whose field is declared as kind k"""
    def one():
        r = rng.random()
        if k == "dt" and r < .6:                                # dateutil makes dates of the strangest text: only clear cases
            return rng.choice(NOT_DATES) if r < .2 else rng.choice(DATES)[0] if kind == "pan" or r < .55 else "20200102"
        if k == "dt" and fmt == "csv" and r > .83:
            return rng.choice(NOT_DATES)
        if k == "dt" and r > .83:
            return native(rng, fmt)
        if k == "dt" and r < .78:
            return rng.choice(DATES)[0]
        if r < .3:
            return rng.choice(NUMS)
        if r < .55:
            return rng.choice(TEXTS)
        if r < .7:
            d = rng.choice(DATES)[0]
            return d if kind == "pan" or rng.random() < .85 else "20200102"
        if r < .78:
            return rng.choice(NOT_DATES)
        if r < .83 and fmt == "csv" and not pk and kind == "tic":
            return ""
        if fmt == "csv" and k == "dt":
            return rng.choice(NOT_DATES)
        if r < .83 and fmt != "csv" and not pk:
            return None
        if fmt == "csv":
            return rng.choice(NUMS)
        return native(rng, fmt)
    def cell():
        while True:
            v = one()
            if ok_cell(kind, fmt, v):
                return v
    if kind == "tic":
        return [cell() for _ in range(n)]
    if k in ("num", "none", None):                              # pandas' own typing rules these columns
        r = rng.random()
        if r < .4 or not n:
            return [rng.choice([1, 7, -3]) for _ in range(n)]
        return [rng.choice([x for x in TEXTS + NOT_DATES if ok_cell(kind, fmt, x)]) for _ in range(n)]
    if k == "dt":
        xs = []
        for _ in range(n):
            x = cell()
            while not isinstance(x, str) and fmt == "csv" or isinstance(x, str) and files.to_float(x) is not None:
                x = cell()
            xs.append(x)
        return xs
    if k == "text":
        return [c for c in (cell() for _ in range(60 + n)) if isinstance(c, str)][:n]
    return [cell() for _ in range(n)]


def conv(kind, fmt, s, t, f, v, munge):
    """acceptable canonical values of a cell"""
    c = ref.canon
    kw = s.types.get((t, f))
    k = pf.kind(kw)
    if fmt == "xls" and isinstance(v, D) and not (kind == "tic" and k == "dt"):
        v = (v - D(1899, 12, 30)).total_seconds() / 86400       # a date cell is a formatted number
    if fmt == "xls" and kind == "tic" and k == "dt" and ref.is_num(v):
        return {c(D(1899, 12, 30) + datetime.timedelta(days=v)), c(v)} if v >= 61 else {c(v)}
    if v is None or v == "":
        if fmt in ("xls", "csv") and kind == "tic":
            if (kw or {}).get("nullable") or kw is None and f in s.dfs(t) and s.default(t, f) is None:
                return {("null",)}
            return {("str", "")}
        return {("null",)}
    if k == "dt":
        if isinstance(v, str) and v in DATE_OF:
            return {c(DATE_OF[v])}
        return {c(v)}
    x = files.to_float(v)
    text = isinstance(v, str)
    if kind == "tic" and fmt == "csv":
        number = kw["number_allowed"] if kw else f in s.dfs(t) and ref.is_num(s.default(t, f))
        return {c(x)} if number and x is not None else {c(v)}
    if k == "both":
        if munge:
            return {c(x)} if text and x is not None else {c(v)}
        return {c(v)} if kind == "tic" or not text or x is None or fmt in ("sql", "json list") else {c(v), c(x)}
    if kind == "pan" and k == "text" and not text:
        return {c(v), c(str(v))}
    if kind == "pan" and fmt == "csv" and not text:
        return {c(v)}
    return {c(v)}


def setting(case, kind, fmt, keyed=None):
    rng = case.rng
    tabs = collections.OrderedDict()
    names = gen.names(rng, [f for f in gen.FIELD_NAMES if f != "name"], 7)
    for i in range(rng.randint(1, 2)):
        npk = rng.randint(1, 2) if (rng.random() < .7 if keyed is None else keyed) else 0
        ndf = rng.randint(1 if not npk else 0, 5)
        fs = rng.sample(names, npk + ndf)
        tabs["tb_%d" % i] = (tuple(fs[:npk]), tuple(fs[npk:]))
    s = gen.Schema(tabs)
    for t in s.normal():
        for f in s.fields(t):
            kw = a_type(rng, rng.choice(KINDS))
            if kw is not None:
                s.types[t, f] = kw
            if f in s.dfs(t) and rng.random() < .3:
                s.defaults[t, f] = rng.choice([None, "x", 1, 2.5])
    return s


def cells(case, kind, fmt, s, munge, dups=False, n=(1, 6)):
    rng = case.rng
    rows = {}
    for t in s.normal():
        m = rng.randint(*n)
        cols = [column(rng, kind, fmt, pf.kind(s.types.get((t, f))), s.types.get((t, f)), m, f in s.pks(t)) for f in s.fields(t)]
        out, seen = [], set()
        for r in zip(*cols):
            ok = [conv(kind, fmt, s, t, f, v, munge) for f, v in zip(s.fields(t), r)]
            if any(x is None for x in ok):
                continue
            k = tuple(str(sorted(map(str, x))) for x in ok[:len(s.pks(t))])
            if s.pks(t) and (k in seen and not dups or any(len(x) > 1 for x in ok[:len(s.pks(t))])):
                continue
            seen.add(k)
            out.append(r)
        if fmt in ("xls", "xlsx"):
            while out and all(ref.is_null(v) for v in out[-1]):
                out.pop()
        rows[t] = out
    return rows


def as_written(fmt, v):
    return v if fmt in ("xls", "xlsx") or not isinstance(v, D) else str(v)


def source(case, kind, fmt, s, rows):
    tables = []
    for t in s.normal():
        cols = list(range(len(s.fields(t))))
        if fmt != "json list":
            case.rng.shuffle(cols)
        tables.append(c24.Table(t, [s.fields(t)[i] for i in cols], [[r[i] for i in cols] for r in rows[t]]))
    return put(case, kind, fmt, tables)


def put(case, kind, fmt, tables):
    if fmt != "xls":
        return c24.put(case, kind, fmt, tables, decoys=False)
    import xlwt
    p = case.path("src.xls")
    b = xlwt.Workbook()
    st = xlwt.easyxf(num_format_str="YYYY-MM-DD HH:MM")
    for t in tables:
        sh = b.add_sheet(t.name)
        for i, r in enumerate([t.cols] + t.rows):
            for j, v in enumerate(r):
                if isinstance(v, D):
                    sh.write(i, j, v, st)
                elif v is not None:
                    sh.write(i, j, v)
    b.save(p)
    return p


def count_cell(case, s, t, f, v, munge):
    k = pf.kind(s.types.get((t, f)))
    if isinstance(v, str):
        w = "date" if v in DATE_OF else "number" if files.to_float(v) is not None else "text"
    else:
        w = "null" if v is None else "native"
    case.count("%s cell in %s field" % (w, k or "untyped"))
    if k == "both" and w == "number":
        case.count("munged" if munge else "not munged")


def judge(case, kind, fmt, s, fct, got, rows, munge):
    g = gen.tic_rows(s, got) if kind == "tic" else gen.pan_rows(s, got)
    for t in s.normal():
        w = [[conv(kind, fmt, s, t, f, v, munge) for f, v in zip(s.fields(t), r)] for r in rows[t]]
        left = [tuple(r) for r in g[t]]
        case.eq(len(left), len(w), "%s %s: rows of %s: %r" % (kind, fmt, t, left))
        for o, r in zip(w, rows[t]):
            i = next((i for i, m in enumerate(left) if all(any(files.close(fmt, ref.canon(a), x) or kind == "pan" and pf.near(fmt, ref.canon(a), x) or
                                                               date_near(fmt, ref.canon(a), x)
                                                               for x in ok) for a, ok in zip(m, o))), None)
            if i is None:
                near = min(left, key=lambda m: sum(ref.canon(a) not in ok for a, ok in zip(m, o))) if left else None
                case.fail("%s %s automunge %s: table %s fields %s types %s defaults %s: source row %r read as %r, want %r" % (
                    kind, fmt, munge, t, s.fields(t), [s.types.get((t, f)) for f in s.fields(t)], [s.default(t, f) for f in s.fields(t)],
                    r, near, o))
            if not s.pks(t) or kind == "pan":
                case.eq(i, 0, "%s %s: order of the rows of %s" % (kind, fmt, t))
            for f, a, v in zip(s.fields(t), left[i], r):
                kw = s.types.get((t, f)) or {}
                case.count("monitor_checks")
                case.count("cells_compared")
                count_cell(case, s, t, f, v, munge)
                if kw.get("must_be_int") and kind == "tic" and fmt in ("csv", "xls", "xlsx") and ref.is_num(a) and a == int(a) and \
                        not (isinstance(v, str) and fmt != "csv") and not kw.get("strings_allowed"):
                    case.check(isinstance(a, int), "%s: %s.%s must be int: read %r as %r" % (fmt, t, f, v, a))
                    case.count("ints")
            left.pop(i)


def date_near(fmt, a, x):
    return fmt in ("xls", "xlsx") and a[0] == x[0] == "dt" and abs((pd.Timestamp(a[1]) - pd.Timestamp(x[1])).total_seconds()) < .01


def factory(case, kind, s, munge, p=None):
    """the factory, possibly after other declarations and uses that must leave no trace"""
    import ticdat
    rng = case.rng
    cls = ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory
    fct = cls(**{t: [list(v[0]), list(v[1])] for t, v in s.tables.items()})
    if p and rng.random() < .5:
        path, fmt = p
        for t in s.normal():
            for f in s.fields(t):
                if rng.random() < .6:
                    fct.set_data_type(t, f, **(a_type(rng, rng.choice(KINDS[:-1]))))
                if f in s.dfs(t) and rng.random() < .4:
                    fct.set_default_value(t, f, rng.choice([None, "x", 1]))
        if kind == "tic":
            io = fct.json if fmt.startswith("json") else fct.xls if fmt.startswith("xls") else getattr(fct, fmt)
            if fmt in ("csv", "xls", "xlsx"):
                io.find_duplicates(path)                       # does not count as a use of the factory
                case.count("used_before")
        for t in s.normal():
            for f in s.fields(t):
                if (t, f) not in s.types:
                    fct.clear_data_type(t, f)
                if f in s.dfs(t):
                    fct.set_default_value(t, f, 0)
        case.count("redeclared")
    for (t, f), kw in s.types.items():
        fct.set_data_type(t, f, **kw)
    for (t, f), v in s.defaults.items():
        fct.set_default_value(t, f, v)
    if not munge:
        fct.set_automunge_multitype_fields(False)
    elif rng.random() < .2:
        fct.set_automunge_multitype_fields(False)
        fct.set_automunge_multitype_fields(True)
    return fct


CELLS = tuple("%s cell in %s field" % (w, k) for w in ("date", "number", "text") for k in ("dt", "text", "both", "num", "none", "untyped") if (w, k) != ("number", "dt"))


def go(case, kind, fmt):
    rng = case.rng
    munge = rng.random() < .7
    s = setting(case, kind, fmt)
    rows = cells(case, kind, fmt, s, munge)
    if fmt == "json records":
        for t in s.normal():
            if not rows[t]:
                raise Skip("no rows, no columns")
    case.describe(kind=kind, fmt=fmt, schema=s, rows=rows, automunge=munge)
    p = source(case, kind, fmt, s, rows)
    fct = factory(case, kind, s, munge, (p, fmt))
    got = c24.get(kind, fmt, fct, p)
    judge(case, kind, fmt, s, fct, got, rows, munge)
    case.count("%s %s" % (kind, fmt))
    if any(rows.values()):
        case.nontrivial(kind, fmt, munge, s.sig(), rows)
    case.sample(dict(kind=kind, fmt=fmt, automunge=munge, schema=s, rows=rows))


@reg.scenario(quick=2400, thorough=30000, needs=CELLS + ("munged", "not munged", "ints", "redeclared", "used_before", "null cell in both field") +
              tuple("tic " + f for f in IO_TIC))
def ticdat(case):
    """TicDat readers"""
    go(case, "tic", case.rng.choice(IO_TIC))


@reg.scenario(quick=1800, thorough=20000, needs=tuple(c for c in CELLS if not c.endswith(("num field", "none field", "untyped field"))) + ("munged", "not munged", "redeclared") + tuple("pan " + f for f in IO_PAN))
def pandat(case):
    """PanDat readers"""
    go(case, "pan", case.rng.choice(IO_PAN))


@reg.scenario(quick=700, thorough=8000, needs=("duplicates", "munged_into_duplicates") + tuple("tic " + f for f in IO_TIC))
def duplicates(case):
    """find_duplicates of the readers counts the keys as they are read"""
    rng = case.rng
    fmt = rng.choice(IO_TIC)
    munge = rng.random() < .7
    s = setting(case, "tic", fmt, keyed=True)
    rows = cells(case, "tic", fmt, s, munge, dups=True, n=(3, 12))
    for t in s.normal():
        for r in list(rows[t]):
            if rng.random() < .3:
                rows[t].append(r)
    case.describe(fmt=fmt, schema=s, rows=rows, automunge=munge)
    p = source(case, "tic", fmt, s, rows)
    fct = factory(case, "tic", s, munge, (p, fmt))
    want = {}
    for t in s.normal():
        n, raw = collections.Counter(), collections.Counter()
        for r in rows[t]:
            k = tuple(min(conv("tic", fmt, s, t, f, v, munge)) for f, v in zip(s.pks(t), r))
            n[k] += 1
            raw[tuple(map(repr, r[:len(k)]))] += 1
        want[t] = {k: v for k, v in n.items() if v > 1}
        case.count("duplicates", len(want[t]))
        if len(want[t]) > sum(v > 1 for v in raw.values()) or sum(want[t].values()) > sum(v for v in raw.values() if v > 1):
            case.count("munged_into_duplicates")
    io = fct.json if fmt.startswith("json") else fct.xls if fmt.startswith("xls") else getattr(fct, fmt)
    got = {t: {tuple(ref.canon(x) for x in (k if len(s.pks(t)) > 1 else (k,))): n for k, n in v.items()} for t, v in
           (io.find_duplicates(p) or {}).items()}
    case.eq(got, {t: v for t, v in want.items() if v}, "%s find_duplicates, types %s" % (fmt, dict(s.types)))
    case.count("tic " + fmt)
    case.nontrivial(fmt, munge, s.sig(), rows)
