"""C11: parameters - defaults complete the table, bad names or values are reported, typed values survive files."""
import collections, math, os
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref

reg = Registry()
reg.rule = ("parameters tables over random parameter declarations; non-trivial when at least one default was used, one row "
            "was bad, or one value had to be converted back by type; distinct by (format, declarations, values)")
reg.assumptions = [
    "a parameter that allows both numbers and text turns numeric text into a number on reading (documented); text that "
    "looks numeric is only expected back verbatim for text-only parameters",
    "formats without a null (CSV, Excel): null of a parameter that also accepts '' may come back as ''",
    "PanDat CSV/Excel: text pandas itself reads as missing ('', 'NA', 'n/a', 'None', ...) is not generated",
    "integers beyond 2**53 are not generated (parameters are documented to be cast to float)"]

NAMES = ["Speed", "max load", "mode", "date", "ñame", "p5", "is ok?", "x,y", "It's", "42 things", "a;b"]
NA = {"", "na", "n/a", "none", "null", "nan", "#n/a", "-nan", "<na>", "1.#ind", "#na", "-1.#ind", "1.#qnan", "-1.#qnan",
      "#n/a n/a"}


def param_schema(rng, extra=0.3):
    s = gen.schema(rng, tables=(1, 2), dfs=(1, 2), no_name=True) if rng.random() < extra else \
        gen.Schema(collections.OrderedDict())
    s.tables["parameters"] = ((rng.choice(["Name", "Parameter", "key"]),), (rng.choice(["Value", "Setting"]),))
    names = rng.sample(NAMES, rng.randint(1, 6))
    for p in names:
        s.params[p] = declaration(rng)
    return s


def declaration(rng):
    if rng.random() < 0.15:
        return rng.choice([0, "x", 1.5, None, gen.INF]), None
    for _ in range(80):
        kw = gen.type_spec(rng)
        v = a_value(rng, kw)
        if ref.is_dt(v):
            v = rng.choice(gen.DATES_GOOD)                   # documented: defaults are numbers, text or None
        if ref.valid(kw, v):
            return v, kw
    return 0, None


def plain(v):
    if hasattr(v, "dtype"):
        v = v.item()
    return v


def a_value(rng, kw):
    """a value for a parameter of this type, good or bad; never a bool"""
    while True:
        if kw is None:
            v = rng.choice([lambda: rng.randint(-5, 20), lambda: rng.uniform(-9, 9), lambda: rng.choice(["a", "b c", "ñ"]),
                            lambda: gen.INF, lambda: None])()
        elif rng.random() < 0.25 and not kw.get("number_allowed", True) and not kw.get("datetime"):
            v = rng.choice(["5", "007", "1.50", "1e3", "-3", "2020-01-02", "1_0"])
        else:
            v = gen.near(rng, kw)
        if not isinstance(v, bool) and not (ref.is_num(v) and abs(v) != gen.INF and abs(v) > 2 ** 53):
            return plain(v)


def looks_numeric(v):
    try:
        float(v)
        return True
    except (TypeError, ValueError):
        return False


def table(rng, s, bad=0.3, undeclared=0.2):
    rows = []
    for p, (dv, kw) in s.params.items():
        if rng.random() < 0.25:
            continue
        v = a_value(rng, kw)
        if rng.random() > bad:
            for _ in range(60):
                if ref.valid(kw, v):
                    break
                v = a_value(rng, kw)
            else:
                v = dv
        rows.append((p, v))
    for _ in range(rng.randint(0, 2)):
        if rng.random() < undeclared:
            n = rng.choice(["bogus", "speed", "SPEED", "Mode ", "P5", " max load", "zz"])
            if n not in [k for k, _ in rows] and n not in s.params:
                rows.append((n, rng.choice([1, "x", 2.5])))
    rng.shuffle(rows)
    return rows


def build(case, s, rows, kind, data=None, cls=None):
    import ticdat
    fct = s.build(getattr(ticdat, "TicDatFactory" if kind == "tic" else "PanDatFactory"))
    data = dict(data or {t: [] for t in s.normal()}, parameters=rows)
    if kind == "tic":
        return fct, fct.TicDat(**gen.tic_args(s, data))
    return fct, fct.PanDat(**gen.pan_args(s, data, dtype_object=True))


def want_default(kw, v):
    """documented: a datetime parameter's default is coerced to a datetime"""
    if kw and kw.get("datetime") and isinstance(v, str):
        return ref.parse_date(v)
    return v


@reg.scenario(quick=2500, thorough=40000, needs=("default_used", "table_value"))
def full_parameters(case):
    """create_full_parameters_dict: the table where it has the parameter, the declared default elsewhere"""
    rng = case.rng
    s = param_schema(rng)
    rows = table(rng, s)
    kind = rng.choice(["tic", "pan"])
    case.describe(schema=s, rows=rows, kind=kind)
    fct, dat = build(case, s, rows, kind)
    want = {p: ref.canon(want_default(kw, dv)) for p, (dv, kw) in s.params.items()}
    used = [p for p in want if p not in dict(rows)]
    want.update({p: ref.canon(v) for p, v in rows})
    if kind == "pan" and rng.random() < .4:
        # any index, column order or extra column
        df = dat.parameters
        df = df.assign(extra=1)[list(reversed(df.columns)) + ["extra"]]
        df.index = ["r%d" % i for i in range(len(df))]
        dat.parameters = df
    if kind == "tic" and rng.random() < .3:
        dat = fct.freeze_me(dat)
    got = fct.create_full_parameters_dict(dat)
    case.eq({k: ref.canon(v) for k, v in got.items()}, want, "full parameters (%s)" % kind)
    case.check(isinstance(got, dict), "not a dict")
    got["bogus2"] = 1
    for p in list(got):
        got[p] = "changed"
    case.eq({k: ref.canon(v) for k, v in fct.create_full_parameters_dict(dat).items()}, want,
            "full parameters after the caller changed the first result")
    case.count("default_used", len(used))
    case.count("table_value", len(rows))
    if used:
        case.nontrivial(kind, repr(sorted(want.items())))
    case.sample(dict(schema=s, rows=rows, got=got))


@reg.scenario(quick=2500, thorough=40000, needs=("bad_name", "bad_value", "good"))
def bad_rows_reported(case):
    """find_data_row_failures reports exactly the rows with an undeclared name or a value outside its type"""
    rng = case.rng
    s = param_schema(rng)
    rows = table(rng, s, bad=0.6, undeclared=0.7)
    case.describe(schema=s, rows=rows)
    extra_name = rng.random() < 0.3
    for kind in ("tic", "pan"):
        import ticdat
        fct = s.build(getattr(ticdat, "TicDatFactory" if kind == "tic" else "PanDatFactory"))
        if extra_name:                                       # a user predicate already using the reserved name
            taken = ["Good Name/Value Check"] + ["Good Name/Value Check_%d" % i for i in range(rng.randint(0, 3))]
            for name in taken:
                fct.add_data_row_predicate("parameters", lambda row: True, predicate_name=name)
        data = dict({t: [] for t in s.normal()}, parameters=rows)
        dat = fct.TicDat(**gen.tic_args(s, data)) if kind == "tic" else \
            fct.PanDat(**gen.pan_args(s, data, dtype_object=True))
        got = fct.find_data_row_failures(dat)
        real = rows if kind == "tic" else gen.pan_rows(s, dat)["parameters"]
        bad = []
        for p, v in real:
            if p not in s.params:
                case.count("bad_name"); bad.append(p)
            elif not ref.valid(s.params[p][1], v) if s.params[p][1] is not None else False:
                case.count("bad_value"); bad.append(p)
            else:
                case.count("good")
        case.check(set(k[0] for k in got) <= {"parameters"}, "failures in another table: %r" % list(got))
        case.eq(len(got), 1 if bad else 0, "number of failing predicates")
        for k, v in got.items():
            if kind == "tic":
                case.eq(sorted(v, key=repr), sorted(bad, key=repr), "rows reported (tic)")
            else:
                case.eq(sorted(v[s.pks("parameters")[0]], key=repr), sorted(bad, key=repr), "rows reported (pan)")
            if extra_name:
                case.check(k[1] not in taken, "the user predicate was blamed: %r" % (k,))
        k = rng.randint(1, 3)
        lim = fct.find_data_row_failures(dat, max_failures=k)
        case.eq(sum(len(v) for v in lim.values()), min(k, len(bad)), "rows with max_failures=%s" % k)
    if bad:
        case.nontrivial(repr(bad), repr(rows))


# ------------------------------------------------------------------ files
def tic_io(case, fmt, fct, dat, rd=None):
    """write dat and read it back"""
    rng, rd = case.rng, rd or fct
    if fmt == "csv":
        hdr = rng.random() < .8
        d = case.path("csv_dir")
        kw = {} if rng.random() < .6 else {"dialect": "excel-tab"}
        fct.csv.write_directory(dat, d, write_header=hdr, **kw)
        return rd.csv.create_tic_dat(d, headers_present=hdr, **kw)
    if fmt.startswith("json"):
        p = case.path("x.json")
        kw = {"json": {}, "json verbose": {"verbose": True}, "json pandas": {"to_pandas": True}}[fmt]
        fct.json.write_file(dat, p, **kw)
        return rd.json.create_tic_dat(p)
    if fmt == "sql":
        p = case.path("x.db")
        fct.sql.write_db_data(dat, p)
        return rd.sql.create_tic_dat(p)
    if fmt == "sql text":
        p = case.path("x.sql")
        schema = rng.random() < .5
        fct.sql.write_sql_file(dat, p, include_schema=schema)
        return rd.sql.create_tic_dat_from_sql(p, includes_schema=schema)
    p = case.path("x." + fmt)
    fct.xls.write_file(dat, p)
    return rd.xls.create_tic_dat(p)


def pan_io(case, fmt, fct, dat, rd=None):
    rng, rd = case.rng, rd or fct
    if fmt == "json":
        if rng.random() < .3:
            return rd.json.create_pan_dat(fct.json.write_file(dat, None))
        p = case.path("x.json")
        fct.json.write_file(dat, p)
        return rd.json.create_pan_dat(p)
    if fmt.startswith("json_pd"):
        p = case.path("x.json")
        orient = fmt.split()[1]
        fct.json.write_file_pd(dat, p, orient=orient)
        return rd.json.create_pan_dat(p, orient=orient)
    if fmt == "csv":
        d = case.path("csv_dir")
        fct.csv.write_directory(dat, d)
        return rd.csv.create_pan_dat(d)
    if fmt == "sql":
        p = case.path("x.db")
        fct.sql.write_file(dat, p)
        return rd.sql.create_pan_dat(p)
    p = case.path("x.xlsx")
    fct.xls.write_file(dat, p)
    return rd.xls.create_pan_dat(p)


TIC_FORMATS = ["csv", "json", "json verbose", "json pandas", "sql", "sql text", "xls", "xlsx"]
PAN_FORMATS = ["csv", "json", "json_pd split", "json_pd columns", "json_pd records", "json_pd index", "sql", "xlsx"]
NULLLESS = {"csv", "xls", "xlsx"}


def expected(fmt, kw, v):
    """acceptable canonical values after the round trip"""
    if kw and kw.get("datetime"):
        if ref.is_null(v) or v == "":
            return {("null",)} | ({("str", "")} if fmt in NULLLESS and not kw["nullable"] else set())
        if ref.is_dt(v):
            return {ref.canon(v)}
        if isinstance(v, str):
            d = ref.parse_date(v)
            return {ref.canon(d)} if d else {ref.canon(v)}
        return None                                            # numbers in datetime parameters: not specified
    if ref.is_null(v):
        if fmt in NULLLESS and (kw is None or not kw["nullable"] or ref.valid(kw, "")):
            return {("null",), ("str", "")}
        return {("null",)}
    number_ok = kw is None or kw.get("number_allowed", True)
    if isinstance(v, str):
        if v == "":
            bad = kw is not None and kw["nullable"] and not ref.valid(kw, "")
            return {("null",), ("str", "")} if fmt in NULLLESS or bad else {("str", "")}
        if number_ok and looks_numeric(v):
            return {ref.canon(float(v))}
        return {ref.canon(v)}
    if not number_ok or ref.is_dt(v):
        return None                                            # outside the declared type
    return {ref.canon(v)}


def close(fmt, a, b):
    """pandas.to_json writes 10 decimals, xlsxwriter 16 significant digits; SQLite keeps 15 digits of the numbers that
    pandas puts in a mixed (so TEXT) column"""
    if a == b:
        return True
    if a[0] == b[0] == "num":
        return abs(a[1] - b[1]) <= 1e-10 if fmt.startswith("json_pd") else \
            abs(a[1] - b[1]) <= 1e-14 * abs(b[1]) if fmt in ("xlsx", "sql") else False
    return False


def round_trip(case, kind, fmt):
    rng = case.rng
    s = param_schema(rng)
    data = gen.rows(rng, s, n=(0, 3), cell=lambda t, f: rng.randint(0, 9), key=lambda t, f: rng.choice("abcde"))
    rows = [r for r in table(rng, s, bad=0.1) if r[1] is None or not ref.is_dt(r[1]) or
            (s.params.get(r[0], (0, None))[1] or {}).get("datetime")]
    rows = [(p, v) for p, v in rows if not (v == "" and kind == "pan") and
            not (kind == "pan" and isinstance(v, str) and v.strip().lower() in NA)]
    case.describe(kind=kind, fmt=fmt, schema=s, rows=rows)
    fct, dat = build(case, s, rows, kind, data)
    rd = None
    if kind == "tic":
        back = tic_io(case, fmt, fct, dat)
        got = {k: v[s.dfs("parameters")[0]] for k, v in back.parameters.items()}
        order = list(got)
    else:
        back = pan_io(case, fmt, fct, dat)
        pairs = gen.pan_rows(s, back)["parameters"]
        got = dict(pairs)
        case.eq(len(pairs), len(rows), "number of rows")
    case.eq(set(got), {p for p, v in rows}, "%s %s: names read back" % (kind, fmt))
    for p, v in rows:
        kw = s.params[p][1] if p in s.params else None
        ok = expected(fmt, kw, v)
        if ok is None:
            case.count("untyped_skipped")
            continue
        case.check(any(close(fmt, ref.canon(got[p]), o) for o in ok), lambda: "%s %s: parameter %r wrote %r read %r want %r" % (
            kind, fmt, p, v, got[p], ok))
        if isinstance(v, str) and looks_numeric(v):
            case.count("numeric_text")
        if ref.is_dt(v) or (kw and kw.get("datetime")):
            case.count("datetimes")
        if v is None:
            case.count("nulls")
        if v in (gen.INF, -gen.INF):
            case.count("infinities")
        case.check(not isinstance(got[p], bool), "parameter %r became a bool" % p)
    case.count("fmt " + fmt)
    # what was valid before is valid after
    bad = {p for p, v in rows if p not in s.params or not (s.params[p][1] is None or ref.valid(s.params[p][1], v))}
    munged = {p for p, v in rows if isinstance(v, str) and looks_numeric(v) and
              (s.params.get(p, (0, None))[1] or {}).get("number_allowed", True)}
    if bad == munged == set():
        f = fct.find_data_row_failures(back)
        if fmt in NULLLESS:
            f = {k: [] for k, x in f.items()
                 if not all(dict(rows)[p] in (None, "") for p in
                            (x if kind == "tic" else list(x[s.pks("parameters")[0]])))}
        if fmt.startswith("json_pd") or fmt in ("xlsx", "sql"):        # rounding can cross an open bound
            f = {k: v for k, v in f.items() if not all(ref.is_num(x) for x in dict(rows).values())}
            case.count("rounding_formats")
        else:
            case.eq(f, {}, "row failures after the round trip of valid parameters")
    if rows:
        case.nontrivial(kind, fmt, repr(sorted((p, repr(v)) for p, v in rows)))
    case.sample(dict(fmt=fmt, schema=s, rows=rows))


@reg.scenario(quick=1600, thorough=16000, needs=["numeric_text", "datetimes", "nulls", "infinities"] +
              ["fmt " + f for f in TIC_FORMATS])
def ticdat_files(case):
    """parameters through every TicDat file format"""
    round_trip(case, "tic", case.rng.choice(TIC_FORMATS))


@reg.scenario(quick=1600, thorough=16000, needs=["numeric_text", "datetimes", "nulls", "infinities"] +
              ["fmt " + f for f in PAN_FORMATS])
def pandat_files(case):
    """parameters through every PanDat file format"""
    round_trip(case, "pan", case.rng.choice(PAN_FORMATS))
