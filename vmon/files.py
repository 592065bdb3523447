"""What each TicDat file format is documented to carry: cell generators and the value expected back."""
import csv, datetime, math, os
import numpy as np
import pandas as pd
from . import gen, ref

INF = gen.INF
TEXT = ["a", "foo bar", "Ünï códe", "日本", "x,y", 'say "hi"', "it's", "a;b", "tab\there", "line\nbreak", "cr\r\nlf", "lone\rcr",
        " lead", "trail ", "%s %d", "{x}", "[br]", "\\n", "--", "/*", "select * from t", "#", "a" * 300, "x'y", "é\u0301", "☃",
        "null", "None", "nan?", "0x1F", "12abc", "1,5", "$5", "5%", "=1+2", "@x", "-", "+", "http://x.y/z", "internal:a",
        "mailto:a@b.c", "{=a}", "a|b", "~", "'", "N/A", "NaT", "T", "F", "yes", "\u00a0", "0 0", "1e", ".", "e5", "12:30",
        "file://x", "ftp://h/p", "external:x.xls", "=", "={1}", "{=SUM(1)}", "x\"", "\"", "a'b'c", "');", "a--b", "?"]
NUMTEXT = ["12", "007", "1.5", "-3", "1e3", "0", "+4", " 5 ", "1_000", "0.10", "-0", ".5", "100000000000000000000"]
INTS = [0, 1, -1, 7, 100, 2 ** 31, -2 ** 40, 10 ** 12 + 1, 2 ** 53 - 1, 5, 10]
FLOATS = [0.1, -2.5, 1e-9, 1.5e300, 3.0, 123456.789012345, 1 / 3, -1e-300, 2.0 ** 60, 0.5, 99.99]


csv.register_dialect("vmon_semicolon", delimiter=";", quotechar="'", lineterminator="\r\n", quoting=csv.QUOTE_MINIMAL)
csv.register_dialect("vmon_all", delimiter="|", quotechar='"', lineterminator="\n", quoting=csv.QUOTE_ALL)
DIALECTS = ["excel", "excel", "excel-tab", "unix", "vmon_semicolon", "vmon_all"]


def to_float(v):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return None
    return None


def text_ok(fmt, v):
    """text the format can not hold or is documented to read as something else"""
    if v == "":
        return fmt not in ("csv", "xls", "xlsx")
    if fmt == "sql" or fmt == "sql text":
        if v.lower() in ("inf", "-inf", "true", "false"):
            return False
        if "\0" in v:
            return False
        if fmt == "sql text" and "''" in v:
            return False
    if fmt in ("xls", "xlsx"):
        if v.lower() in ("inf", "-inf"):
            return False
        if fmt == "xlsx" and "\r" in v:                # xlsxwriter escapes it, openpyxl does not undo that
            return False
    return True


def a_text(rng, fmt, kw):
    while True:
        v = rng.choice(TEXT) if rng.random() < .75 else rng.choice(NUMTEXT)
        if rng.random() < .1:
            v = v + rng.choice(TEXT)
        if rng.random() < .04:
            v = ""
        if rng.random() < .03:
            v = rng.choice(["inf", "-inf", "true", "False"])
        if rng.random() < .06 and fmt.startswith("json"):
            v = rng.choice(["\x00", "\x1b[0m", "\u2028", "\ufeff", "\x7f", "\\u0041"])
        if text_ok(fmt, v):
            return v


def a_number(rng, fmt, kw):
    r = rng.random()
    v = rng.choice(INTS) if r < .4 else rng.choice(FLOATS) if r < .6 else rng.randint(-50, 50) if r < .8 else \
        round(rng.uniform(-1000, 1000), rng.randint(0, 6)) if r < .95 else rng.choice([np.int64(rng.randint(-9, 9)),
                                                                                      np.float64(rng.uniform(-9, 9))])
    if rng.random() < .03:
        v = rng.choice([INF, -INF])
    if fmt in ("json", "json verbose") and rng.random() < .03:
        v = 2 ** 70 + rng.randint(0, 9)
    return v


def a_cell(rng, fmt, s, t, f):
    """a cell the format can carry, mostly consistent with the declared type"""
    kw = s.types.get((t, f))
    pk = f in s.pks(t)
    r = rng.random()
    if kw and kw.get("datetime"):
        if r < .75:
            return gen.a_datetime(rng)
        if r < .85 and not pk:
            return None if rng.random() < .7 else pd.NaT
        return rng.choice(gen.DATES_GOOD) if r < .95 else rng.choice(gen.DATES_BAD)
    num = kw is None or kw.get("number_allowed", True)
    txt = kw is None or kw.get("strings_allowed", ()) in ("*",) or bool(kw.get("strings_allowed", ()))
    if kw and rng.random() < .3:
        v = gen.near(rng, kw)
        if (isinstance(v, str) and text_ok(fmt, v)) or (ref.is_num(v) and num and abs(v) < 2 ** 53):
            return v
    if r < .08 and not pk and (kw is None or kw.get("nullable")):
        return None
    if r < .12 and (kw is None) and not pk:
        return rng.random() < .5
    if num and (not txt or rng.random() < .5):
        return a_number(rng, fmt, kw)
    return a_text(rng, fmt, kw)


def norm_bool(v):
    return float(v) if isinstance(v, (bool, np.bool_)) else v


def expected(fmt, s, t, f, v, automunge=True):
    """set of acceptable canonical values, or None when the format is not claimed to carry v"""
    kw = s.types.get((t, f))
    pk = f in s.pks(t)
    dt = bool(kw and kw.get("datetime"))
    num = kw is not None and not dt and kw.get("number_allowed", True)
    txt = kw is not None and not dt and bool(kw.get("strings_allowed", ()))
    c = ref.canon
    if dt and isinstance(v, str):
        d = ref.parse_date(v)
        if d:
            return {c(d)}
        if fmt == "csv" or fmt in ("xls", "xlsx"):
            if v == "":
                return {("null",)} if kw.get("nullable") else {("str", ""), ("null",)}
    munge = automunge and num and txt and isinstance(v, str) and to_float(v) is not None
    if automunge and num and txt and ref.is_num(v) and abs(v) >= 2 ** 53:
        return {c(float(v))}
    if munge and not (isinstance(v, str) and v.strip().lower() in ("nan", "infinity", "+inf")):
        return {c(to_float(v))}
    if fmt == "json pandas":
        if kw is None and isinstance(v, str) and to_float(v) is not None:
            return {c(v), c(to_float(v))}
        return {c(v)}
    if fmt.startswith("json"):
        return {c(v)}
    if fmt == "csv":
        if ref.is_null(v) or v == "":
            if (kw and kw.get("nullable")) or (kw is None and not pk and s.default(t, f) is None):
                return {("null",)}
            return {("str", "")}
        try_float = num or (kw is None and not pk and ref.is_num(s.default(t, f)) )
        if isinstance(v, (bool, np.bool_)):
            return {("str", str(v))}
        if ref.is_num(v):
            return {c(float(v))} if try_float else {("str", str(v))}
        if isinstance(v, str):
            if try_float and to_float(v) is not None:
                x = to_float(v)
                return {c(x)}
            return {c(v)}
        if ref.is_dt(v):
            return {c(v)} if dt else {("str", str(v))}
        return None
    if fmt in ("xls", "xlsx"):
        if ref.is_null(v):
            if fmt == "xlsx":
                return {("null",)}
            if (kw and kw.get("nullable")) or (kw is None and not pk and s.default(t, f) is None):
                return {("null",)}
            return {("str", "")}
        if v == "":
            return {("null",), ("str", "")}
        if ref.is_dt(v) and not dt:
            return {("str", str(v))}
        return {c(v)}
    if fmt.startswith("sql"):
        if ref.is_num(v) and float(v) == INF:
            return {c(INF)}
        if ref.is_dt(v) and not dt:
            return {("str", str(v))}
        if isinstance(v, str) and to_float(v) is not None and kw is None and not pk:
            return {c(v), c(to_float(v))}                 # INT / FLOAT column affinity for untyped fields
        if isinstance(v, str) and not txt and not dt and to_float(v) is not None:
            return {c(v), c(to_float(v))}                 # text in a field declared not to hold text
        return {c(v)}
    raise AssertionError(fmt)


def close(fmt, a, b):
    if a == b:
        return True
    if a[0] == b[0] == "num" and fmt in ("xlsx", "sql text") and not math.isinf(b[1]):
        return abs(a[1] - b[1]) <= 1e-14 * abs(b[1])          # xlsxwriter writes 16 significant digits; SQLite reads literals to an ulp
    return False


def schema(rng, fmt, generic=0, gens=0, inf=False):
    s = gen.schema(rng, tables=(1, 4), no_pk=.3, generic=generic, no_name=fmt == "json pandas",
                   field_names=gen.FIELD_NAMES + ["data", "columns", "index", "row", "t", "from", "a,b", 'q"q', "x'y"][:9 if
                   not fmt.startswith("sql") else 6])
    for t in s.normal():
        for f in s.fields(t):
            if rng.random() < .55:
                s.types[t, f] = gen.type_spec(rng)
            elif f in s.dfs(t) and rng.random() < .2:
                s.defaults[t, f] = rng.choice([None, "x", 1, 2.5, "it's", "", True])
            if f in s.dfs(t) and (t, f) in s.types and rng.random() < .3:
                s.defaults[t, f] = rng.choice([None, "x", 1, "a"])
    return s


def data(case, fmt, s, n=(0, 8), automunge=True):
    """rows whose keys stay distinct when read back"""
    rng = case.rng
    rtn = {}
    for t in s.normal():
        out, seen = [], set()
        m = gen.size(rng, n)
        for _ in range(m):
            r = tuple(a_cell(rng, fmt, s, t, f) for f in s.fields(t))
            if m > n[1] and s.pks(t) and tuple(ref.canon(v) for v in r[:len(s.pks(t))]) in seen:
                r = gen.fresh(rng, r, range(len(s.pks(t))))
            k = tuple(expected(fmt, s, t, f, v, automunge) for f, v in zip(s.pks(t), r))
            ck = tuple(ref.canon(v) for v in r[:len(s.pks(t))])
            if any(x is None for x in k) or any(ref.is_null(v) for v in r[:len(s.pks(t))]):
                continue
            if any(len(x) > 1 for x in k):
                continue
            k = tuple(min(x) for x in k)
            if fmt in ("xlsx", "sql text"):                     # keys must differ in the digits the format keeps
                k = tuple(("num", "%.14g" % x[1]) if x[0] == "num" else x for x in k)
            if s.pks(t):
                if k in seen or ck in seen:
                    continue
                seen |= {k, ck}
            out.append(r)
        rtn[t] = out
    return rtn


def kw_free(s, t, f):
    kw = s.types.get((t, f))
    return not (kw and kw.get("number_allowed", True) and kw.get("strings_allowed", ()))


def compare(case, fmt, s, got, want, what, automunge=True, order=False, tables=None):
    """got / want: {table: rows}; keyed tables are matched by key, keyless ones by position"""
    n = 0
    for t in tables or s.normal():
        g, w = list(got[t]), list(want[t])
        if len(g) != len(w):
            case.fail("%s: table %s: %d rows written, %d read\n  written %r\n  read    %r" % (what, t, len(w), len(g), w[:6], g[:6]))
        npk = len(s.pks(t))
        if npk and not order:
            kk = lambda r: tuple(ref.canon(x) for x in r[:npk])
            by = {kk(r): r for r in g}
            pairs = []
            for r in w:
                k = tuple(min(expected(fmt, s, t, f, v, automunge)) for f, v in zip(s.pks(t), r))
                m = by.get(k)
                if m is None and fmt in ("xlsx", "sql text"):
                    m = next((x for kx, x in by.items() if all(close(fmt, a, b) for a, b in zip(kx, k))), None)
                case.check(m is not None, lambda: "%s: table %s: key %r not read back; keys read: %r" % (what, t, r[:npk],
                                                                                                       list(by)[:9]))
                pairs.append((m, r))
        else:
            pairs = zip(g, w)
        for m, r in pairs:
            for f, a, b in zip(s.fields(t), m, r):
                ok = expected(fmt, s, t, f, b, automunge)
                case.count("monitor_checks")
                if ok is None:
                    case.count("unclaimed_cells")
                    continue
                ca = ref.canon(a)
                if not any(close(fmt, ca, o) for o in ok):
                    case.fail("%s: %s.%s (type %r): wrote %r read %r, want one of %s" % (
                        what, t, f, s.types.get((t, f)), b, a, ok))
                n += 1
                if fmt.startswith("json") and kw_free(s, t, f) and isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
                    case.fail("%s: %s.%s: wrote %r read %r" % (what, t, f, b, a))
                if isinstance(b, bool) and not ca == ("str", str(b)) and not isinstance(a, (bool, np.bool_)):
                    case.count("bool_as_number")
    case.count("cells_compared", n)
    return n


def tic_args(case, s, rows, frames=.2):
    """constructor arguments in any of the accepted shapes"""
    rng = case.rng
    args = gen.tic_args(s, rows)
    for t in s.normal():
        if rng.random() < .2:
            args[t] = [list(r) for r in rows[t]]
        elif rng.random() < frames and t not in s.generators and not ("name" in s.fields(t) and s.pks(t) != ("name",)):
            args[t] = gen.pan_args(s, {t: rows[t], **{x: [] for x in s.normal() if x != t}}, dtype_object=True)[t]
    return args


TIC_FORMATS = ["json", "json verbose", "json pandas", "csv", "sql", "sql text", "xls", "xlsx"]


def write(case, fmt, fct, dat, tag="t", **kw):
    """write a TicDat; returns what read() needs"""
    if fmt.startswith("json"):
        p = case.path(tag + ".json")
        fct.json.write_file(dat, p, **{"json": {}, "json verbose": {"verbose": True}, "json pandas": {"to_pandas": True}}[fmt], **kw)
    elif fmt == "csv":
        p = case.path(tag + "_csv")
        fct.csv.write_directory(dat, p, **kw)
    elif fmt == "sql":
        p = case.path(tag + ".db")
        fct.sql.write_db_data(dat, p, **kw)
    elif fmt == "sql text":
        p = case.path(tag + ".sql")
        fct.sql.write_sql_file(dat, p, include_schema=True, **kw)
    else:
        p = case.path(tag + "." + fmt)
        fct.xls.write_file(dat, p, **kw)
    return p


def read(fmt, fct, p, **kw):
    if fmt.startswith("json"):
        return fct.json.create_tic_dat(p, **kw)
    if fmt == "csv":
        return fct.csv.create_tic_dat(p, **kw)
    if fmt == "sql":
        return fct.sql.create_tic_dat(p, **kw)
    if fmt == "sql text":
        return fct.sql.create_tic_dat_from_sql(p, includes_schema=True, **kw)
    if fct.generator_tables:
        kw["treat_inf_as_infinity"] = False
    return fct.xls.create_tic_dat(p, **kw)


def names_ok(case, found, tables, pretty, longest=None, what="names written"):
    """tables are stored under their own names, or (pretty) with spaces for underscores and capitals"""
    cut = lambda x: x[:longest] if longest else x
    case.eq(sorted(x.lower().replace(" ", "_") for x in found), sorted(cut(t).lower() for t in tables), what)
    if not pretty:
        case.eq(sorted(found), sorted(map(cut, tables)), what)
    elif len(set(t.lower() for t in tables)) == len(tables):
        case.check(all("_" not in x and x[:1] == x[:1].upper() for x in found), lambda: "%s, pretty: %r" % (what, sorted(found)))


def nudge(rng, s, rows):
    """the same rows with one digit of one data cell changed, so that a file of the data keeps its length"""
    spots = [(t, i, j) for t in s.normal() for i, r in enumerate(rows[t]) for j in range(len(s.pks(t)), len(r))
             if type(r[j]) is int and 1 <= r[j] <= 8]
    if not spots:
        return None
    t, i, j = rng.choice(spots)
    rtn = {k: list(v) for k, v in rows.items()}
    r = list(rtn[t][i])
    r[j] += 1
    rtn[t][i] = tuple(r)
    return rtn


def rename_table(rng, fmt, s, p):
    """another spelling of a table's name, which readers accept; False if this format or schema has none"""
    import os, json, sqlite3
    t = rng.choice(s.normal())
    new = rng.choice([t.upper(), t.capitalize(), t.replace("_", " ")])
    if new == t:
        return False
    if fmt == "csv":
        os.rename(os.path.join(p, t + ".csv"), os.path.join(p, new + ".csv"))
    elif fmt == "sql":
        if new.lower() == t.lower():
            return False
        con = sqlite3.connect(p)
        con.execute("pragma legacy_alter_table=on")
        con.execute("alter table [%s] rename to [%s]" % (t, new))
        con.commit()
        con.close()
    elif fmt in ("json", "json verbose"):
        j = json.load(open(p))
        j[new] = j.pop(t)
        json.dump(j, open(p, "w"))
    else:
        return False
    return True


def same_path(case, fmt, want=lambda s, rows: rows, make_schema=schema):
    """one path written and read again and again: what is read is what the file holds now, never what it held before"""
    import os, ticdat
    rng = case.rng
    s = make_schema(rng, fmt)
    for t in s.normal():                                      # room for nudges
        for f in s.dfs(t):
            if rng.random() < .5:
                s.types.pop((t, f), None)
    fct, rd = s.build(ticdat.TicDatFactory), s.build(ticdat.TicDatFactory)
    rd = rng.choice([fct, rd])
    rows = None
    for step in range(rng.randint(2, 4)):
        new = nudge(rng, s, rows) if rows and rng.random() < .4 else None
        if new:
            case.count("nudged")
        if not new:
            new = data(case, fmt, s)
            for t in s.normal():
                free = [j for j, f in enumerate(s.fields(t)) if f in s.dfs(t) and (t, f) not in s.types]
                new[t] = [tuple(rng.randint(1, 8) if j in free and rng.random() < .4 else x for j, x in enumerate(r)) for r in new[t]]
        case.describe(fmt=fmt, schema=s, step=step, before=rows, rows=new)
        rows = new
        dat = fct.TicDat(**tic_args(case, s, rows))
        real = gen.tic_rows(s, dat)
        p = write(case, fmt, fct, dat, **(dict(allow_overwrite=True) if step else {}))
        back = read(fmt, rd, p)
        compare(case, fmt, s, want(s, gen.tic_rows(s, back)), want(s, real), "%s, write number %d" % (fmt, step + 1))
        if rng.random() < .3:
            again = read(fmt, rd, p)
            compare(case, fmt, s, want(s, gen.tic_rows(s, again)), want(s, real), "%s, read once more" % fmt)
            case.check(all(not getattr(again, t) or getattr(again, t) is not getattr(back, t) for t in s.normal()), "two reads share a table")
        case.count("steps")
    if not s.fks and rename_table(rng, fmt, s, p):
        back = read(fmt, rd, p)
        compare(case, fmt, s, want(s, gen.tic_rows(s, back)), want(s, real), "%s, other spelling of a table name" % fmt)
        case.count("renamed")
    if fmt == "csv":
        t = rng.choice(s.normal())
        for n in os.listdir(p):
            if n.lower().replace(" ", "_") == t.lower() + ".csv":
                os.remove(os.path.join(p, n))
        case.eq(len(getattr(read(fmt, rd, p), t)), 0, "rows of a table whose file is gone")
    else:
        os.remove(p)
        with case.must_raise("reading a file that is gone"):
            read(fmt, rd, p)
    if any(rows.values()):
        case.nontrivial(fmt, s.sig(), rows)


ENCODINGS = ["utf-16", "utf-8-sig", "latin-1", "cp1252", "utf-32", "cp037", "utf-16-be"]


def recode(case, d, p=.3):
    """rewrite the csv files of a directory in another encoding; the keyword that tells a reader so"""
    import random
    rng = random.Random(case.rng.random())
    if rng.random() >= p:
        return {}
    texts = {x: open(os.path.join(d, x), encoding="utf8", newline="").read() for x in sorted(os.listdir(d)) if x.lower().endswith(".csv") and os.path.isfile(os.path.join(d, x))}
    encs = [e for e in ENCODINGS if all(can_encode(x, e) for x in texts.values())]
    if not encs:
        return {}
    enc = rng.choice(encs)
    for x, text in texts.items():
        with open(os.path.join(d, x), "w", encoding=enc, newline="") as f:
            f.write(text)
    case.count("recoded_csv")
    return {"encoding": enc}


def can_encode(text, enc):
    try:
        return text.encode(enc).decode(enc) == text
    except UnicodeError:
        return False
