"""C24: readers match tables and fields by name and refuse incomplete sources."""
import csv, json, os, sqlite3
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf
from .c04 import tic_snap, pan_snap

reg = Registry()
reg.rule = ("sources written without ticdat (csv module, json, sqlite3, openpyxl, xlwt) whose table names, field names, column order, extra and "
            "missing columns and tables are drawn independently of the data; every cell of a source is distinct, so that a value read "
            "from the wrong column or table shows; distinct by (format, schema, arrangement)")
reg.assumptions = ["field names ignore case for the TicDat csv, Excel and SQLite readers and are literal for PanDat; spaces count in field names",
                   "TicDat JSON rows are lists in field order or dicts by field name, as for the TicDat constructor: dict rows may omit data "
                   "fields (defaults apply), so incomplete dict rows are judged for PanDat only",
                   "TicDat csv files without rows are not judged on their fields; nor is SQLite on field or table names that differ in case only",
                   "a column name occurring twice is judged for TicDat only (pandas renames the second one)"]
LONG = ["a_rather_long_table_name_for_excel", "another_quite_long_table_name_"]
TIC = ["csv", "sql", "sql text", "json list", "json dict", "json split", "xls", "xlsx"]
PAN = ["csv", "sql", "json split", "json records", "json columns", "json list", "xlsx", "xls"]
NAMELESS = ("json list",)


class Table(object):
    """what a source holds under one table name"""
    def __init__(self, name, cols, rows):
        self.name, self.cols, self.rows = name, cols, rows
    def __repr__(self):
        return "Table(%r, %r, %r)" % (self.name, self.cols, self.rows)


def vary_case(rng, name):
    r = rng.random()
    return name if r < .3 else name.upper() if r < .45 else name.lower() if r < .6 else name.title() if r < .7 else \
        "".join(rng.choice([c.upper(), c.lower()]) for c in name)


def vary_name(rng, fmt, name):
    """another spelling the readers are to accept"""
    name = "".join(rng.choice("_ ") if c == "_" else c for c in name) if rng.random() < .7 else name
    name = vary_case(rng, name)
    if fmt in ("xls", "xlsx"):
        name = name[:31] if rng.random() < .5 else name[:30]
        if name.endswith(" "):
            name = name[:-1] + "_"
    return name


def norm(fmt, name):
    name = name.lower().replace(" ", "_")
    return name[:30] if fmt in ("xls", "xlsx") else name


def spec(rng, kind, fmt):
    s = gen.schema(rng, tables=(1, 4), no_pk=.3, no_name=kind == "pan" or fmt == "json split", generic=0 if fmt == "json list" or (
                   fmt.startswith("json") and kind == "tic") else .12, table_names=gen.TABLE_NAMES + (LONG if fmt in ("xls", "xlsx") else LONG[:1]) * 2)
    if not s.normal() or (fmt == "xls" and kind == "tic" and any(v == '*' for v in s.tables.values())):
        raise Skip("nothing but generic tables")
    for t in s.normal():
        for f in s.dfs(t):
            if rng.random() < .25:
                s.defaults[t, f] = rng.choice([5, 2.5, -1, "dflt"])
    return s


def cell(rng, kinds, t, f, n):
    return "%s%d" % (rng.choice(["k", "key ", "Q-"]), n) if kinds[t, f] == "text" else n if kinds[t, f] == "int" else n + .5


def content(case, s, n=(0, 6)):
    """distinct cells, {table: rows}"""
    rng = case.rng
    kinds = {(t, f): "text" if f in s.pks(t) or isinstance(s.default(t, f), str) or rng.random() < .3 else rng.choice(["int", "float"]) for t in s.normal() for f in s.fields(t)}
    i, rows = 100, {}
    for t in s.normal():
        rows[t] = []
        for _ in range(gen.size(rng, n)):
            r = []
            for f in s.fields(t):
                i += 1
                r.append(cell(rng, kinds, t, f, i))
            rows[t].append(tuple(r))
    for t, v in s.tables.items():
        if v == '*':
            cols = gen.names(rng, gen.FIELD_NAMES, rng.randint(1, 3))
            rows[t] = (cols, [["g%d_%d" % (j, m) for j in range(len(cols))] for m in range(rng.randint(1, 3))])
    return rows


def arrange(case, kind, fmt, s, rows):
    """{schema table: Table} with permuted and additional columns and other spellings that change nothing"""
    rng = case.rng
    src = {}
    junk = iter("junk %d" % i for i in range(10 ** 6))
    for t, v in s.tables.items():
        name = vary_name(rng, fmt, t)
        if name != t:
            case.count("renamed_tables")
        if v == '*':
            src[t] = Table(name, list(rows[t][0]), [list(r) for r in rows[t][1]])
            continue
        fields = list(s.fields(t))
        cols = [(f, i) for i, f in enumerate(fields)]
        if fmt not in NAMELESS:
            if rng.random() < .6:
                rng.shuffle(cols)
                if [i for _, i in cols] != sorted(i for _, i in cols):
                    case.count("permuted_columns")
            if fmt != "json dict" and rng.random() < .5:
                for _ in range(rng.randint(1, 3)):
                    x = extra_name(rng, kind, fmt, s, t, [c for c, _ in cols])
                    if x is not None:
                        cols.insert(rng.randint(0, len(cols)), (x, None))
                        case.count("extra_columns")
            if kind == "tic" and not fmt.startswith("json") and rng.random() < .6:
                cols = [(vary_case(rng, c) if i is not None and (not fmt.startswith("sql") or c.isascii()) else c, i) for c, i in cols]
                if any(i is not None and c != fields[i] for c, i in cols):
                    case.count("renamed_fields")
        src[t] = Table(name, [c for c, _ in cols], [[next(junk) if i is None else r[i] for _, i in cols] for r in rows[t]])
    return src


def extra_name(rng, kind, fmt, s, t, have):
    pool = ["extra", "zzz", "comment", "a b c", "Unnamed: 0", "1", "index", "x.1", "data"]
    fs = s.fields(t)
    f = rng.choice(fs)
    pool += [f + " ", " " + f, f + "_", f + "2", f + ".1", "_" + f, f[:-1]]
    if fmt in ("csv", "xls", "xlsx") and rng.random() < .2:
        pool = [""]
    if kind == "pan" and not fmt.startswith("sql"):
        pool += [x for x in (f.upper(), f.lower(), f.swapcase()) if x not in fs]
    elif "_" in f or " " in f:
        pool.append(f.replace("_", " ") if "_" in f else f.replace(" ", "_"))
    x = rng.choice(pool)
    if not x and fmt not in ("csv", "xls", "xlsx"):
        return None
    bad = {y.lower() for y in list(fs) + have} if kind == "tic" or fmt.startswith("sql") else set(fs) | set(have)
    if (x.lower() if kind == "tic" or fmt.startswith("sql") else x) in bad:
        return None
    if kind == "pan" and (x.endswith(".1") or any(h == x for h in have)):
        return None
    return x


def others(rng, fmt, s, have):
    """tables the schema does not know"""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        t = rng.choice(list(s.tables))
        n = rng.choice(["notes", "Summary", "x " + t, t + " 2", t + "_old", t + "x", t[:-1], t.replace("_", "-") if "_" in t else "_" + t,
                        t.replace("_", "") if "_" in t else t + "_"])[:30]
        if fmt in ("xls", "xlsx") and len(t) >= 30:
            n = "notes"
        if not n or n.endswith(" ") or n.startswith(" ") or {norm(fmt, n)} & {norm(fmt, h) for h in have}:
            continue
        have = have + [n]
        out.append(Table(n, ["q", "r"], [["foreign", -1]]))
    return out


def put(case, kind, fmt, tables, tag="src", decoys=True):
    """write the source without ticdat"""
    rng = case.rng
    if fmt == "csv":
        p = case.path(tag + "_csv")
        os.mkdir(p)
        for t in tables:
            with open(os.path.join(p, t.name + ".csv"), "x", newline="", encoding="utf8") as f:
                w = csv.writer(f)
                w.writerow(t.cols)
                w.writerows(t.rows)
        if decoys and rng.random() < .4:
            n = rng.choice(tables).name if tables else "t"
            for x in (n + ".txt", n + ".csv.bak", "~" + n + ".csv", n):
                with open(os.path.join(p, x), "w") as f:
                    f.write("not,a\ntable,1\n")
            folder = os.path.join(p, n.swapcase() + ".csv")
            if not os.path.exists(folder):
                os.mkdir(folder)
            case.count("decoy_files")
        return p
    if fmt == "sql text":
        p = case.path(tag + ".sql")
        with open(p, "w", newline="") as f:
            for t in tables:
                f.write("create table [%s] (%s);\n" % (t.name, ", ".join("[%s]" % c for c in t.cols)))
            for t in tables:
                for r in t.rows:
                    f.write("insert into [%s] values (%s);\n" % (t.name, ", ".join("'%s'" % v if isinstance(v, str) else repr(v) for v in r)))
        return p
    if fmt == "sql":
        p = case.path(tag + ".db")
        with sqlite3.connect(p) as con:
            for t in tables:
                con.execute("create table [%s] (%s)" % (t.name, ", ".join("[%s]" % c for c in t.cols)))
                con.executemany("insert into [%s] values (%s)" % (t.name, ",".join("?" for _ in t.cols)), t.rows)
        con.close()
        return p
    if fmt.startswith("json"):
        lay = fmt.split()[1]
        d = {}
        for t in tables:
            assert t.name not in d
            d[t.name] = {"list": lambda: t.rows, "dict": lambda: [dict(zip(t.cols, r)) for r in t.rows],
                         "records": lambda: [dict(zip(t.cols, r)) for r in t.rows],
                         "split": lambda: dict(columns=t.cols, data=t.rows, **({"index": list(range(len(t.rows)))} if rng.random() < .5 else {})),
                         "columns": lambda: {c: {str(i): r[j] for i, r in enumerate(t.rows)} for j, c in enumerate(t.cols)}}[lay]()
        text = json.dumps(d, indent=rng.choice([None, 2]))
        if rng.random() < .3:
            return text
        p = case.path(tag + ".json")
        with open(p, "w") as f:
            f.write(text)
        return p
    p = case.path(tag + "." + fmt)
    if fmt == "xlsx":
        import openpyxl
        b = openpyxl.Workbook()
        b.remove(b.active)
        for t in tables:
            sh = b.create_sheet(t.name)
            assert sh.title == t.name
            for r in [[c or None for c in t.cols]] + t.rows:
                sh.append(list(r))
        if not tables:
            b.create_sheet("empty")
        b.save(p)
    else:
        import xlwt
        b = xlwt.Workbook()
        for t in tables:
            sh = b.add_sheet(t.name)
            for i, r in enumerate([t.cols] + t.rows):
                for j, v in enumerate(r):
                    sh.write(i, j, v)
        if not tables:
            b.add_sheet("empty")
        b.save(p)
    return p


def get(kind, fmt, fct, p, **kw):
    if kind == "tic":
        return files.read("json" if fmt.startswith("json") else fmt, fct, p, **kw)
    if fmt in ("json records", "json columns"):
        return fct.json.create_pan_dat(p, orient=fmt.split()[1], **kw)
    if fmt.startswith("json"):
        return fct.json.create_pan_dat(p, **kw)
    return pf.read("xlsx" if fmt == "xls" else fmt, fct, p, **kw)


def judge(case, kind, fmt, s, got, rows, what):
    for t, v in s.tables.items():
        if v == '*':
            df = getattr(got, t)
            if df is None or not len(df):
                case.eq([], rows[t][1] if rows[t] else [], "%s: generic table %s" % (what, t))
                continue
            case.check(rows[t], "%s: generic table %s read from nowhere" % (what, t))
            case.eq(list(df.columns), rows[t][0], "%s: columns of generic table %s" % (what, t))
            case.eq(df.values.tolist(), rows[t][1], "%s: generic table %s" % (what, t))
            case.count("generic_tables")
    g = gen.tic_rows(s, got) if kind == "tic" else gen.pan_rows(s, got)
    for t in s.normal():
        if kind == "pan":
            case.eq(list(getattr(got, t).columns), list(s.fields(t)), "%s: columns of %s" % (what, t))
        a = [tuple(ref.canon(x) for x in r) for r in g[t]]
        b = [tuple(ref.canon(x) for x in r) for r in rows[t]]
        if kind == "tic" and s.pks(t):
            a, b = sorted(a), sorted(b)
        case.eq(a, b, "%s: table %s" % (what, t))
        case.count("tables_compared")
        case.count("cells_compared", sum(map(len, a)))


def start(case, kind, fmt, n=(0, 6)):
    import ticdat
    s = spec(case.rng, kind, fmt)
    rows = content(case, s, n)
    fct = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
    if fmt == "json columns" or (fmt == "json records"):      # a table without rows has no columns in this layout
        for t in s.normal():
            if not rows[t]:
                rows[t] = [tuple(("k%d" % i if f in s.pks(t) else i) for i, f in enumerate(s.fields(t)))]
    return s, rows, fct


def pick(case):
    kind = case.rng.choice(["tic", "pan"])
    return kind, case.rng.choice(TIC if kind == "tic" else PAN)


FMTS = tuple("tic " + f for f in TIC) + tuple("pan " + f for f in PAN)


@reg.scenario(quick=2500, thorough=30000, needs=FMTS + ("renamed_tables", "renamed_fields", "permuted_columns", "extra_columns", "other_tables",
                                                        "absent_tables", "decoy_files", "generic_tables"))
def complete(case):
    """complete sources in any spelling, order and company: every table holds exactly its rows"""
    rng = case.rng
    kind, fmt = pick(case)
    s, rows, fct = start(case, kind, fmt)
    src = arrange(case, kind, fmt, s, rows)
    for t in list(src):
        if rng.random() < .15:
            del src[t]
            rows[t] = []
            case.count("absent_tables")
    tables = list(src.values())
    x = others(rng, fmt, s, [t.name for t in tables] + list(s.tables))
    case.count("other_tables", len(x))
    tables += x
    rng.shuffle(tables)
    case.describe(kind=kind, fmt=fmt, schema=s, source=tables)
    if fmt.startswith("json") and not tables:
        raise Skip("nothing in the file")
    p = put(case, kind, fmt, tables)
    kw = dict(fill_missing_fields=rng.choice([True, False])) if kind == "pan" and rng.random() < .3 else {}
    judge(case, kind, fmt, s, get(kind, fmt, fct, p, **kw), rows, "%s %s" % (kind, fmt))
    if kind == "tic" and fmt != "sql text" and rng.random() < .4:
        io = fct.json if fmt.startswith("json") else fct.xls if fmt.startswith("xls") else getattr(fct, fmt)
        if not fct.generic_tables or fmt == "csv":
            case.eq(io.find_duplicates(p) or {}, {}, "%s find_duplicates on unique keys" % fmt)
            case.count("find_duplicates")
    case.count("%s %s" % (kind, fmt))
    case.nontrivial(kind, fmt, s.sig(), [(t.name, tuple(t.cols)) for t in tables])
    case.sample(dict(kind=kind, fmt=fmt, schema=s, source=tables))


@reg.scenario(quick=1200, thorough=15000, needs=FMTS + ("ambiguous",))
def ambiguous(case):
    """two tables that match one name equally well are refused; so are, for TicDat, two columns"""
    rng = case.rng
    kind, fmt = pick(case)
    s, rows, fct = start(case, kind, fmt, n=(1, 4))
    src = arrange(case, kind, fmt, s, rows)
    tables = list(src.values())
    if kind == "tic" and fmt in ("csv", "xls", "xlsx") and rng.random() < .4:
        t = rng.choice(s.normal())
        f = rng.choice(s.fields(t))
        tb = src[t]
        i = rng.randint(0, len(tb.cols))
        name = vary_case(rng, f)
        if fmt == "csv":                                     # csv.DictReader keeps one of two columns with exactly one name
            if name in tb.cols:
                name = next((x for x in (f.upper(), f.lower(), f.title()) if x not in tb.cols), None)
                if name is None:
                    raise Skip("no other spelling")
        tb.cols.insert(i, name)
        for r in tb.rows:
            r.insert(i, rng.choice(["dup", 3]))
        what = "%s: field %s of %s twice: %s" % (fmt, f, t, tb.cols)
        case.count("ambiguous_fields")
    else:
        t = rng.choice(list(s.tables))
        for _ in range(60):
            name = vary_name(rng, fmt, t)
            a, b = name, src[t].name
            if fmt in ("xls", "xlsx") and a.lower() == b.lower() or fmt.startswith("sql") and a.lower() == b.lower() or a == b:
                continue
            break
        else:
            raise Skip("only one spelling")
        tables.append(Table(name, list(src[t].cols), [list(r) for r in src[t].rows] if rng.random() < .7 or fmt in (
            "json columns", "json records") else []))
        what = "%s %s: table %s twice: %r and %r" % (kind, fmt, t, src[t].name, name)
        case.count("ambiguous_tables")
    rng.shuffle(tables)
    case.describe(kind=kind, fmt=fmt, schema=s, source=tables)
    p = put(case, kind, fmt, tables)
    with case.must_raise(what):
        get(kind, fmt, fct, p)
    case.count("ambiguous")
    case.count("%s %s" % (kind, fmt))
    case.nontrivial(kind, fmt, s.sig(), [(t.name, tuple(t.cols)) for t in tables])


@reg.scenario(quick=400, thorough=5000, needs=("collisions", "told_apart", "written", "tic", "pan"))
def long_names(case):
    """tables an Excel file could not tell apart by the (case-insensitive) start of their names are refused by readers and writers, others are kept apart"""
    rng = case.rng
    import ticdat
    kind, fmt = rng.choice(["tic", "pan"]), rng.choice(["xls", "xlsx", "xlsx", "csv", "sql"])
    if kind == "pan" and fmt == "xls":
        fmt = "xlsx"
    n = rng.choice([24, 28, 29, 30, 30, 31, 34])
    stem = "".join(rng.choice("abcdefgh_XY") for _ in range(n - 1))
    stem = "t" + stem
    a = stem + "_first"
    b = ("".join(rng.choice([c.upper(), c.lower()]) for c in stem) if rng.random() < .5 else stem) + rng.choice(["_second", "x", "_firs"])
    if a.lower() == b.lower():
        raise Skip("one name")
    s = gen.Schema({a: (("k",), ("v",)), b: (("k",), ("v", "w")), "other": (("o",), ())})
    rows = {t: [tuple("%s%d" % (f, rng.randrange(10 ** 6)) if f in "ko" else rng.randrange(10 ** 6) for f in s.fields(t)) for _ in range(3)] for t in s.tables}
    fct = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
    excel = fmt.startswith("xls")
    collide = excel and a[:30].lower() == b[:30].lower()
    here = [a, b] if rng.random() < .6 and not collide else [rng.choice([a, b])]
    cut = rng.choice([30, 31]) if excel else 99
    tables = [Table(t[:cut], list(s.fields(t)), [list(r) for r in rows[t]]) for t in here + ["other"]]
    case.describe(kind=kind, fmt=fmt, tables=[a, b], source=tables)
    p = put(case, kind, fmt, tables)
    io = (fct.xls if excel else getattr(fct, fmt))
    if collide:
        with case.must_raise("%s: reading sheet %r of tables %r and %r" % (fmt, tables[0].name, a, b)):
            get(kind, fmt, fct, p)
        if kind == "tic":
            with case.must_raise("%s: duplicate search in sheet %r of tables %r and %r" % (fmt, tables[0].name, a, b)):
                io.find_duplicates(p)
        case.count("collisions")
    else:
        judge(case, kind, fmt, s, get(kind, fmt, fct, p), {t: rows[t] if t in here or t == "other" else [] for t in s.tables}, "%s %s" % (kind, fmt))
        case.count("told_apart")
    if rng.random() < .6:
        dat = fct.TicDat(**gen.tic_args(s, rows)) if kind == "tic" else fct.PanDat(**gen.pan_args(s, rows))
        if collide:
            with case.must_raise("%s: writing tables %r and %r" % (fmt, a, b)):
                (files if kind == "tic" else pf).write(case, fmt, fct, dat)
        else:
            q = (files if kind == "tic" else pf).write(case, fmt, fct, dat)
            judge(case, kind, fmt, s, get(kind, fmt, fct, q), rows, "%s %s written" % (kind, fmt))
        case.count("written")
    case.count(kind)
    case.nontrivial(kind, fmt, a, b, here)


@reg.scenario(quick=1500, thorough=20000, needs=tuple(f for f in FMTS if f != "tic json dict") + ("dropped_keys", "dropped_data", "misspelt"))
def incomplete(case):
    """a table that lacks a schema field is refused"""
    rng = case.rng
    kind, fmt = pick(case)
    if fmt == "json dict":
        fmt = "json split"
    s, rows, fct = start(case, kind, fmt, n=(1, 4))
    src = arrange(case, kind, fmt, s, rows)
    t = rng.choice(s.normal())
    tb = src[t]
    keys = [i for i, c in enumerate(tb.cols) if c.lower() in [f.lower() for f in s.fields(t)] and
            (kind == "tic" or c in s.fields(t))]
    if fmt in NAMELESS:
        keys = [len(s.fields(t)) - 1]
    i = rng.choice(keys)
    f = next(f for f in s.fields(t) if f.lower() == tb.cols[i].lower())
    r = rng.random()
    if r < .4 and fmt not in NAMELESS:                       # present under a name that does not match
        n = rng.choice([f + "x", f[:-1], f + " ", " " + f, f.replace(" ", "_") if " " in f else f + "_"] +
                       ([x for x in (f.upper(), f.lower(), f.swapcase()) if x != f] if kind == "pan" else []))
        if not n or n.lower() in [c.lower() for j, c in enumerate(tb.cols) if j != i] or n in s.fields(t) or (
                kind == "tic" and n.lower() in [x.lower() for x in s.fields(t)]):
            raise Skip("the other name clashes")
        tb.cols[i] = n
        case.count("misspelt")
    else:
        if len(tb.cols) == 1:
            raise Skip("no column left")
        del tb.cols[i]
        for row in tb.rows:
            del row[i]
    case.count("dropped_keys" if f in s.pks(t) else "dropped_data")
    tables = list(src.values()) + others(rng, fmt, s, [x.name for x in src.values()] + list(s.tables))
    rng.shuffle(tables)
    case.describe(kind=kind, fmt=fmt, schema=s, lacking=(t, f), source=tables)
    p = put(case, kind, fmt, tables)
    with case.must_raise("%s %s: table %s lacks field %s: %s" % (kind, fmt, t, f, tb.cols)):
        get(kind, fmt, fct, p)
    case.count("%s %s" % (kind, fmt))
    case.nontrivial(kind, fmt, s.sig(), t, f, [(x.name, tuple(x.cols)) for x in tables])


@reg.scenario(quick=1200, thorough=15000, needs=tuple("pan " + f for f in PAN if f != "json list") + ("filled_fields", "unfillable"))
def filled(case):
    """fill_missing_fields: missing data fields get their default value, everything else is read as it is; key fields have no default"""
    rng = case.rng
    fmt = rng.choice([f for f in PAN if f != "json list"])
    s, rows, fct = start(case, "pan", fmt, n=(0, 5))
    src = arrange(case, "pan", fmt, s, rows)
    unfillable = None
    drop = {}
    for t in s.normal():
        for f in s.fields(t):
            if f in s.dfs(t) and rng.random() < .4 or f in s.pks(t) and rng.random() < .04:
                if len(src[t].cols) == 1:
                    continue
                i = src[t].cols.index(f)
                del src[t].cols[i]
                for r in src[t].rows:
                    del r[i]
                if f in s.pks(t):
                    unfillable = (t, f)
                else:
                    drop[t, f] = s.default(t, f)
    if not drop and not unfillable:
        raise Skip("nothing missing")
    tables = list(src.values())
    rng.shuffle(tables)
    case.describe(fmt=fmt, schema=s, source=tables, dropped=drop, unfillable=unfillable)
    p = put(case, "pan", fmt, tables)
    if unfillable:
        with case.must_raise("%s: key field %s of %s is missing" % (fmt, unfillable[1], unfillable[0])):
            get("pan", fmt, fct, p, fill_missing_fields=True)
        case.count("unfillable")
    else:
        want = {t: (v if s.tables[t] == '*' else [tuple(drop.get((t, f), x) for f, x in zip(s.fields(t), r)) for r in v])
                for t, v in rows.items()}
        judge(case, "pan", fmt, s, get("pan", fmt, fct, p, fill_missing_fields=True), want, "%s filled" % fmt)
        case.count("filled_fields", len(drop))
        with case.must_raise("%s: fields %s are missing" % (fmt, list(drop))):
            get("pan", fmt, fct, p)
    case.count("pan " + fmt)
    case.nontrivial(fmt, s.sig(), sorted(drop), [(x.name, tuple(x.cols)) for x in tables])


@reg.scenario(quick=500, thorough=6000, needs=("short_rows", "damaged", "not_there"))
def broken(case):
    """headerless csv and Excel files with too few columns, damaged files and files that do not exist are refused"""
    import ticdat
    rng = case.rng
    what = rng.choice(["short", "damaged", "absent", "other"])
    kind, fmt = pick(case)
    if what == "short":
        kind, fmt = "tic", rng.choice(["csv", "xls", "xlsx"])
    s, rows, fct = start(case, kind, fmt, n=(1, 4))
    if any(v == '*' for v in s.tables.values()):
        raise Skip("generic tables need headers")
    src = {t: Table(t[:30] if fmt.startswith("xls") else t, list(s.fields(t)), [list(r) for r in rows[t]]) for t in s.normal()}
    if what == "short":
        t = rng.choice(s.normal())
        good = rng.random() < .4
        for x in src.values():
            x.cols, x.rows = x.rows[0], x.rows[1:]
        if not good:
            n = len(s.fields(t))
            if n == 1:
                raise Skip("single column")
            k = rng.randint(1, n - 1)
            src[t].cols, src[t].rows = src[t].cols[:k], [r[:k] for r in src[t].rows]
        case.describe(kind=kind, fmt=fmt, schema=s, source=src)
        p = put(case, kind, fmt, list(src.values()), decoys=False)
        if good:
            judge(case, kind, fmt, s, get(kind, fmt, fct, p, headers_present=False), rows, "%s without headers" % fmt)
        else:
            with case.must_raise("%s without headers: table %s has %d of %d columns" % (fmt, t, k, n)):
                get(kind, fmt, fct, p, headers_present=False)
            case.count("short_rows")
    elif what == "damaged":
        if fmt in ("csv", "xls") or fmt.startswith("json") and kind == "pan" and fmt != "json split":
            raise Skip("any prefix may be a file of its own")
        p = put(case, kind, fmt, list(src.values()))
        if os.path.exists(p):
            b = open(p, "rb").read()
            # the catalogue of these formats is at their end (xlsx), or in every page (sqlite)
            b = b[:rng.randint(1, len(b) - 2)] if not fmt.startswith("sql") else bytes(rng.randrange(256) for _ in range(40)) + b[40:]
            open(p, "wb").write(b)
            case.describe(kind=kind, fmt=fmt, damaged="cut to %d bytes" % len(b))
        else:
            p = p[:rng.randint(1, len(p) - 2)]
            case.describe(kind=kind, fmt=fmt, text=p)
        if fmt.startswith("sql"):
            raise Skip("left to sqlite")
        with case.must_raise("%s %s: a damaged file is read" % (kind, fmt)):
            get(kind, fmt, fct, p)
        case.count("damaged")
    elif what == "other":
        p = case.path("thing")
        if fmt == "csv":
            with open(p, "w") as f:
                f.write("a,b\n1,2\n")
        else:
            os.mkdir(p)
        if fmt.startswith("json") and kind == "tic" and rng.random() < .5:
            p = rng.choice([5, None, ["a"], {}, {t: [] for t in s.tables}, 2.5])
        case.describe(kind=kind, fmt=fmt, source=p, directory=fmt != "csv")
        with case.must_raise("%s %s: reading %r" % (kind, fmt, "a directory" if isinstance(p, str) else p)):
            get(kind, fmt, fct, p)
        case.count("other_things")
    else:
        p = case.path(rng.choice(["nothing", "no such"]) + {"csv": "", "sql": ".db", "xls": ".xls", "xlsx": ".xlsx"}.get(fmt, ".json"))
        case.describe(kind=kind, fmt=fmt, path=p)
        with case.must_raise("%s %s: a file that does not exist is read" % (kind, fmt)):
            get(kind, fmt, fct, p)
        case.check(not os.path.exists(p), "reading created %s" % p)
        case.count("not_there")
    case.nontrivial(kind, fmt, what, s.sig())
