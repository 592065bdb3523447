"""PanDat files: column generators that stay within what pandas' own readers carry, writers/readers, comparison."""
import csv, json, os, sqlite3, warnings
import numpy as np
import pandas as pd
from . import gen, ref, files

INF = gen.INF
# text that pandas' csv and Excel readers take for missing
NA = set(pd._libs.parsers.STR_NA_VALUES) | {""}
FORMATS = ["json", "json string", "json split", "json records", "json columns", "json index", "json pd string", "csv", "csv pretty",
           "csv sep", "sql", "sql con", "sql pretty", "xlsx", "xlsx pretty"]


def kind(kw):
    if kw is None:
        return None
    if kw.get("datetime"):
        return "dt"
    num, txt = kw.get("number_allowed", True), bool(kw.get("strings_allowed", ()))
    return "both" if num and txt else "num" if num else "text" if txt else "none"


def base(fmt):
    return "json pd" if fmt.startswith("json ") and fmt != "json string" else fmt.split()[0]


def spec(rng, types=.7, generic=.15, **kw):
    s = gen.schema(rng, tables=(1, 4), no_pk=.3, generic=generic, no_name=False, **kw)
    for t in s.normal():
        for f in s.fields(t):
            if rng.random() < types:
                s.types[t, f] = gen.type_spec(rng)
    return s


def a_text(rng, fmt, plain):
    """plain: text nobody reads as a number (undeclared and multitype columns)"""
    while True:
        v = rng.choice(files.TEXT) if plain or rng.random() < .5 else rng.choice(files.NUMTEXT)
        if v in NA and base(fmt) in ("csv", "xlsx"):
            continue
        if plain and files.to_float(v) is not None:
            continue
        if base(fmt) == "xlsx" and ("\r" in v or v.startswith("{=")):
            continue
        if base(fmt) == "csv" and "\r" in v:
            continue
        return v


def a_number(rng, integral=None):
    integral = rng.random() < .5 if integral is None else integral
    if integral:
        return rng.choice([0, 1, -1, 7, 100, 2 ** 31, -2 ** 40, rng.randint(-50, 50)])
    return rng.choice([0.1, -2.5, 1e-3, 3.0, 123456.789, 1 / 3, 99.99, round(rng.uniform(-1000, 1000), rng.randint(0, 5))])


def column(rng, fmt, kw, n, pk):
    k = kind(kw)
    null = (lambda: rng.random() < .15) if kw and kw.get("nullable") and not pk else (lambda: False)
    if k == "dt":
        def when():
            d = gen.a_datetime(rng)
            return d.replace(microsecond=d.microsecond // 1000 * 1000) if base(fmt) == "xlsx" else d     # workbooks hold milliseconds
        if rng.random() < .6:
            return [pd.NaT if null() else pd.Timestamp(when()) for _ in range(n)]
        return [None if null() else when() if rng.random() < .6 else rng.choice(gen.DATES_GOOD + gen.DATES_BAD[:1])
                for _ in range(n)]
    if k == "text":
        return [None if null() else a_text(rng, fmt, False) for _ in range(n)]
    if k == "both":
        return [None if null() else a_number(rng) if rng.random() < .5 else a_text(rng, fmt, rng.random() < .7) for _ in range(n)]
    if k in ("num", "none"):
        integral = rng.random() < .5
        return [None if null() else a_number(rng, integral) for _ in range(n)]
    r = rng.random()
    if r < .4:
        integral = rng.random() < .5
        return [a_number(rng, integral) for _ in range(n)]
    if r < .5 and not pk:
        return [rng.random() < .5 for _ in range(n)]
    if r < .6 and not pk:
        return [None if rng.random() < .2 else a_number(rng, False) for _ in range(n)]
    return [None if not pk and rng.random() < .1 else a_text(rng, fmt, True) for _ in range(n)]


def data(case, fmt, s, n=(0, 7), unique=True):
    """{table: rows}"""
    rng = case.rng
    rtn = {}
    for t in s.normal():
        m = gen.size(rng, n)
        cols = [column(rng, fmt, s.types.get((t, f)), m, f in s.pks(t)) for f in s.fields(t)]
        out, seen = [], set()
        for r in zip(*cols):
            k = tuple(repr(want(fmt, s, t, f, x)) for f, x in zip(s.pks(t), r))
            if m > n[1] and unique and k in seen:
                r = gen.fresh(rng, r, range(len(s.pks(t))))
                k = tuple(repr(want(fmt, s, t, f, x)) for f, x in zip(s.pks(t), r))
            if unique and s.pks(t) and k in seen:
                continue
            seen.add(k)
            out.append(r)
        while out and base(fmt) == "xlsx" and all(map(ref.is_null, out[-1])):
            out.pop()                                      # blank rows at the end of a sheet are documented to be pruned
        rtn[t] = out
    return rtn


def generic(rng, fmt, n=None):
    n = rng.randint(0, 5) if n is None else n
    cols = gen.names(rng, gen.FIELD_NAMES, rng.randint(1, 3))
    return pd.DataFrame({c: column(rng, fmt, None, n, True) for c in cols})


def frames(case, s, rows, fmt, messy=True):
    """constructor arguments: frames with their own index, column order, extra columns"""
    rng = case.rng
    out = {}
    for t in s.normal():
        df = gen.pan_args(s, {t: rows[t], **{x: [] for x in s.normal() if x != t}}, dtype_object=rng.random() < .3)[t]
        if messy and len(df) and rng.random() < .4:
            df.index = rng.choice([list(range(5, 5 + len(df))), list(range(len(df)))[::-1], ["i%d" % i for i in range(len(df))],
                                   [0] * len(df)])
        if messy and rng.random() < .3:
            df["extra!"] = [rng.choice([1, "x", None]) for _ in range(len(df))]
        if messy and rng.random() < .3:
            df = df[rng.sample(list(df.columns), len(df.columns))]
        out[t] = df
    for t, v in s.tables.items():
        if v == '*':
            out[t] = generic(rng, fmt)
    return out


def write(case, fmt, fct, dat, tag="p", **kw):
    """returns what read() needs"""
    if fmt == "json":
        p = case.path(tag + ".json")
        fct.json.write_file(dat, p, **kw)
        return p
    if fmt == "json string":
        return fct.json.write_file(dat, None, **kw)
    if fmt.startswith("json "):
        o = fmt.split()[1]
        o = "split" if o == "pd" else o
        if fmt == "json pd string":
            return fct.json.write_file_pd(dat, None, **kw)
        p = case.path(tag + ".json")
        fct.json.write_file_pd(dat, p, orient=o, **kw)
        return p
    if fmt.startswith("csv"):
        p = case.path(tag + "_csv")
        if fmt == "csv pretty":
            kw["case_space_table_names"] = True
        if fmt == "csv sep":
            kw["sep"] = ";"
        fct.csv.write_directory(dat, p, **kw)
        return p
    if fmt == "sql con":
        p = case.path(tag + ".db")
        with sqlite3.connect(p) as con:
            fct.sql.write_file(dat, None, con=con, **kw)
        con.close()
        return p
    if fmt.startswith("sql"):
        p = case.path(tag + ".db")
        if fmt == "sql pretty":
            kw["case_space_table_names"] = True
        fct.sql.write_file(dat, p, **kw)
        return p
    if fmt.startswith("xlsx"):
        p = case.path(tag + ".xlsx")
        if fmt == "xlsx pretty":
            kw["case_space_sheet_names"] = True
        fct.xls.write_file(dat, p, **kw)
        return p
    raise AssertionError(fmt)


def read(fmt, fct, p, **kw):
    if fmt.startswith("json"):
        o = fmt.split()[1] if fmt.startswith("json ") else "split"
        return fct.json.create_pan_dat(p, orient=o if o in ("records", "columns", "index") else "split", **kw)
    if fmt == "csv sep":
        return fct.csv.create_pan_dat(p, sep=";", **kw)
    if fmt.startswith("csv"):
        return fct.csv.create_pan_dat(p, **kw)
    if fmt == "sql con":
        with sqlite3.connect(p) as con:
            rtn = fct.sql.create_pan_dat(None, con=con, **kw)
        con.close()
        return rtn
    if fmt.startswith("sql"):
        return fct.sql.create_pan_dat(p, **kw)
    return fct.xls.create_pan_dat(p, **kw)


def raw(fmt, p):
    """{table name in the file: (columns, number of rows)} seen by an independent reader; None when not applicable"""
    b = base(fmt)
    if b == "csv":
        rtn = {}
        for x in sorted(os.listdir(p)):
            with open(os.path.join(p, x), newline="", encoding="utf8") as f:
                rows = list(csv.reader(f, delimiter=";" if fmt == "csv sep" else ","))
            rtn[x[:-4]] = (rows[0] if rows else [], len(rows) - 1)
        return rtn
    if b == "sql":
        with sqlite3.connect(p) as con:
            ts = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
            rtn = {t: ([r[1] for r in con.execute('PRAGMA table_info("%s")' % t)], con.execute('select count(*) from "%s"' % t).fetchone()[0])
                   for t in ts}
        con.close()
        return rtn
    if b == "xlsx":
        import openpyxl
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = openpyxl.load_workbook(p)
        rtn = {}
        for sh in w.worksheets:
            rows = list(sh.iter_rows(values_only=True))
            rtn[sh.title] = ([x for x in rows[0]] if rows else [], len(rows) - 1)
        w.close()
        return rtn
    if fmt == "json":
        with open(p) as f:
            return {t: (None, len(v)) for t, v in json.load(f).items()}
    if fmt == "json string":
        return {t: (None, len(v)) for t, v in json.loads(p).items()}
    if fmt in ("json split", "json pd string"):
        d = json.loads(p) if fmt == "json pd string" else json.load(open(p))
        return {t: (v["columns"], len(v["data"])) for t, v in d.items()}
    if fmt == "json records":
        return {t: (None, len(v)) for t, v in json.load(open(p)).items()}
    return None


def want(fmt, s, t, f, v, automunge=True):
    """set of acceptable canonical values"""
    c = ref.canon
    kw = s.types.get((t, f))
    k = kind(kw)
    b = base(fmt)
    if ref.is_null(v):
        return {("null",)}
    if k == "dt":
        if ref.is_dt(v):
            return {c(v)}
        d = ref.parse_date(v) if isinstance(v, str) else None
        return {c(d)} if d else {c(v)}
    if k == "both" and isinstance(v, str) and files.to_float(v) is not None:
        if automunge:
            return {c(files.to_float(v))}
        return {c(v), c(files.to_float(v))}
    if k == "both" and not automunge and not isinstance(v, str) and b in ("csv", "sql"):
        return {c(v), c(str(v)), c(str(float(v))), c("%.15g" % v)}           # pandas makes a mixed column text
    return {c(v)}


def near(fmt, a, o):
    if a == o:
        return True
    if a[0] == o[0] == "num" and abs(a[1]) != INF and abs(o[1]) != INF:
        x, y = a[1], o[1]
        b = base(fmt)
        rel = {"csv": 1e-14, "xlsx": 1e-14, "sql": 1e-13, "json pd": 1e-14}.get(b, 0)
        return abs(x - y) <= rel * abs(y) + (6e-11 if b == "json pd" else 0)
    return False


def rearrange(fmt, s, t, got, rows, automunge):
    """pandas reads the rows of these layouts in the order of their labels when the table has a single column"""
    if len(s.fields(t)) > 1:
        return got
    left, out = list(got), []
    for r in rows:
        i = next((i for i, m in enumerate(left) if all(any(near(fmt, ref.canon(a), o) for o in want(fmt, s, t, f, x, automunge))
                                                       for f, a, x in zip(s.fields(t), m, r))), 0)
        out.append(left.pop(i))
    return out


def compare(case, fmt, s, got, rows, what, automunge=True, tables=None):
    n = 0
    for t in tables or s.normal():
        df = getattr(got, t)
        case.eq(list(df.columns), list(s.fields(t)), "%s: columns of %s" % (what, t))
        g = [tuple(r) for r in df.itertuples(index=False, name=None)]
        if len(g) != len(rows[t]):
            case.fail("%s: table %s: %d rows written, %d read\n  written %r\n  read    %r" % (what, t, len(rows[t]), len(g),
                                                                                          rows[t][:6], g[:6]))
        if fmt in ("json columns", "json index"):
            g = rearrange(fmt, s, t, g, rows[t], automunge)
        for m, r in zip(g, rows[t]):
            for f, a, x in zip(s.fields(t), m, r):
                ok = want(fmt, s, t, f, x, automunge)
                ca = ref.canon(a)
                n += 1
                if not any(near(fmt, ca, o) for o in ok):
                    case.fail("%s: %s.%s (type %r): wrote %r read %r, want one of %s" % (what, t, f, s.types.get((t, f)), x, a, ok))
    case.count("cells_compared", n)
    case.count("monitor_checks", n)
