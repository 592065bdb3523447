"""C20: PanDat file round trips preserve the data."""
import os, sqlite3
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf
from .c04 import pan_snap

reg = Registry()
reg.rule = ("random schemas with and without data types; columns of text (numeric-looking, non-ASCII, formula-like), numbers, "
            "datetimes, mixed content, nulls; frames with arbitrary index, column order and extra columns; every writer option; the "
            "monitor reads the written files with the csv, sqlite3, openpyxl and json modules and compares every cell read back by "
            "position; distinct by (format, schema, rows)")
reg.assumptions = ["text that pandas' csv and Excel readers take for missing (NA, None, empty, ...) is not generated for those formats",
                   "carriage returns in .csv/.xlsx text and {=...} text in .xlsx are pandas / xlsxwriter / openpyxl behaviour",
                   "write_file_pd keeps pandas' 10 decimals; csv, Excel and SQLite numbers are compared to 1e-13 relative",
                   "undeclared text columns hold no text that looks numeric (documented caveat)"]


def make(case, fmt):
    import ticdat
    rng = case.rng
    s = pf.spec(rng)
    if rng.random() < .2:
        s.tables = {t: v for t, v in s.tables.items() if v != '*'}
    if not s.tables:
        raise Skip("no tables left")
    rows = pf.data(case, fmt, s)
    case.describe(fmt=fmt, schema=s, rows=rows)
    fct, rd = s.build(ticdat.PanDatFactory), s.build(ticdat.PanDatFactory)
    return s, fct, rd, fct.PanDat(**pf.frames(case, s, rows, fmt)), rows


def check_raw(case, fmt, s, p, rows, pretty=False):
    r = pf.raw(fmt, p)
    if r is None:
        return
    by = {n.lower().replace(" ", "_"): v for n, v in r.items()}
    files.names_ok(case, list(r), list(s.tables), pretty or "pretty" in fmt, 30 if fmt.startswith("xlsx") else None, "tables in the file")
    for t in s.normal():
        cols, n = by[t.lower()[:30]]
        if cols is not None:
            case.eq(list(cols), list(s.fields(t)), "columns of %s in the file" % t)
        case.eq(n, len(rows[t]), "rows of %s in the file" % t)


def generic_check(case, fmt, s, dat, back):
    for t, v in s.tables.items():
        if v == '*':
            a, b = getattr(dat, t), getattr(back, t)
            if fmt in ("json", "json string"):
                continue                            # list-of-lists has no place for the columns
            case.eq(len(b), len(a), "rows of generic table " + t)
            if len(a):
                case.eq(list(map(str, b.columns)), list(map(str, a.columns)), "columns of generic table " + t)
                for r, q in zip(a.itertuples(index=False, name=None), b.itertuples(index=False, name=None)):
                    for x, y in zip(r, q):
                        case.check(pf.near(fmt, ref.canon(y), ref.canon(x)), lambda: "generic %s: wrote %r read %r" % (t, x, y))
            case.count("generic")


@reg.scenario(quick=1800, thorough=24000, needs=tuple("fmt " + f for f in pf.FORMATS) + ("cells_compared", "generic"))
def round_trip(case):
    """write, look at the file, read, compare by position"""
    rng = case.rng
    fmt = rng.choice(pf.FORMATS)
    s, fct, rd, dat, rows = make(case, fmt)
    if fmt in ("json", "json string") and '*' in s.tables.values():
        raise Skip("list-of-lists json with generic tables")
    before = pan_snap(s, dat)
    kw = {}
    if fmt in ("json split", "json pd string") and rng.random() < .3:
        kw["index"] = True
        case.count("index_written")
    if fmt.startswith("csv") and rng.random() < .2:
        kw["index"] = True
    if pf.base(fmt) == "json pd" and rng.random() < .3:
        kw["double_precision"] = 15
    if pf.base(fmt) == "json pd" and rng.random() < .2:
        kw["case_space_table_names"] = True
    if fmt == "json split" and rng.random() < .2:
        kw["sort_keys"] = True
    if kw.get("index") and ('*' in s.tables.values() or not fmt.startswith("json")):
        kw["index"] = kw["index"] and '*' not in s.tables.values()       # the index would be one more column of the generic table
    if kw.get("index") and any(not d.index.is_unique for d in (getattr(dat, t) for t in s.tables)):
        kw["index"] = False
    if fmt in ("json columns", "json index"):
        if any(not d.index.is_unique for d in (getattr(dat, t) for t in s.tables)):
            raise Skip("pandas refuses these layouts for repeated index values")
        if fmt == "json columns" and any(len(set(map(str, d.index))) != len(d) for d in (getattr(dat, t) for t in s.tables)):
            raise Skip("index")
    p = pf.write(case, fmt, fct, dat, **kw)
    case.eq(pan_snap(s, dat), before, "writing changed the object")
    if not kw.get("index"):
        check_raw(case, fmt, s, p, rows, kw.get("case_space_table_names", False))
    if kw.get("index") and fmt.startswith("csv") and rng.random() < .5:
        case.count("csv_index_written")
    back = pf.read(fmt, rd, p)
    case.check(rd.good_pan_dat_object(back), "read object is not good")
    if fmt == "json index":
        for t in s.normal():                        # an empty table has no columns in this layout
            if not rows[t]:
                case.eq(len(getattr(back, t)), 0, "rows of " + t)
    pf.compare(case, fmt, s, back, rows, fmt)
    generic_check(case, fmt, s, dat, back)
    case.count("fmt " + fmt)
    if any(rows.values()):
        case.nontrivial(fmt, s.sig(), rows)
    case.sample(dict(fmt=fmt, schema=s, rows=rows))


@reg.scenario(quick=300, thorough=4000, needs=("appended", "replaced", "failed"))
def sql_if_exists(case):
    """if_exists: replace drops old rows, append keeps them, fail raises and keeps them"""
    rng = case.rng
    s, fct, rd, dat, rows = make(case, "sql")
    if '*' in s.tables.values() or not s.tables:
        raise Skip("generic")
    old = {t: [r for r in rows[t] if rng.random() < .5] for t in s.normal()}
    p = case.path("x.db")
    fct.sql.write_file(fct.PanDat(**gen.pan_args(s, old, dtype_object=rng.random() < .5)), p)
    mode = rng.choice(["replace", "append", "fail", None])
    def go():
        fct.sql.write_file(dat, p, **({} if mode is None else {"if_exists": mode}))
    if mode == "fail":
        with case.must_raise("writing over existing tables with if_exists='fail'"):
            go()
        want = old
        case.count("failed")
    else:
        go()
        want = rows if mode != "append" else {t: old[t] + list(rows[t]) for t in rows}
        case.count("appended" if mode == "append" else "replaced")
    if mode == "append" and (not all(old.values()) or any(isinstance(x, str) or ref.is_dt(x) for t in old for r in list(old[t]) + list(rows[t]) for x in r)):
        # column types of the existing table apply; only the number of rows is claimed
        with sqlite3.connect(p) as con:
            for t in s.normal():
                case.eq(con.execute("select count(*) from [%s]" % t).fetchone()[0], len(want[t]), "rows of " + t)
        return
    pf.compare(case, "sql", s, rd.sql.create_pan_dat(p), want, "if_exists=%s" % mode)
    if any(rows.values()):
        case.nontrivial(mode, s.sig(), rows)


@reg.scenario(quick=250, thorough=3500, needs=("cells_compared",))
def chain(case):
    """the data travels through several formats one after the other"""
    import ticdat
    rng = case.rng
    fmts = [rng.choice(pf.FORMATS) for _ in range(3)]
    s = pf.spec(rng, types=1, generic=0)
    rows = pf.data(case, "xlsx", s)
    rows = {t: [r for r in rs if not any(isinstance(x, str) and "\r" in x for x in r)] for t, rs in rows.items()}
    rd = s.build(ticdat.PanDatFactory)
    dat = rd.PanDat(**pf.frames(case, s, rows, "xlsx", messy=not any(len(s.fields(t)) == 1 for t in s.normal())))
    case.describe(fmts=fmts, schema=s, rows=rows)
    for i, fmt in enumerate(fmts):
        if fmt in ("json columns", "json index") and any(len(s.fields(t)) == 1 or not getattr(dat, t).index.is_unique for t in s.tables):
            fmt = "json"                                   # pandas orders the labels of a lone column as text
        dat = pf.read(fmt, rd, pf.write(case, fmt, rd, dat, tag="p%d" % i))
    lax = next((f for f in ("json split", "sql", "csv") if any(pf.base(x) == pf.base(f) for x in fmts)), fmts[0])
    pf.compare(case, lax, s, dat, rows, "chain %s" % fmts)
    if any(rows.values()):
        case.nontrivial(tuple(fmts), s.sig(), rows)


@reg.scenario(quick=150, thorough=2000, needs=("cells_compared",))
def automunge_off(case):
    """with automunge off nothing but pandas' own typing happens, text-only and number-only fields are unaffected"""
    import ticdat
    rng = case.rng
    fmt = rng.choice(pf.FORMATS)
    s = pf.spec(rng, types=1, generic=0)
    rows = pf.data(case, fmt, s)
    fct, rd = s.build(ticdat.PanDatFactory), s.build(ticdat.PanDatFactory)
    rd.set_automunge_multitype_fields(False)
    case.describe(fmt=fmt, schema=s, rows=rows)
    back = pf.read(fmt, rd, pf.write(case, fmt, fct, fct.PanDat(**gen.pan_args(s, rows))))
    keep = {t: [tuple(x for f, x in zip(s.fields(t), r)) for r in rows[t]] for t in rows}
    pf.compare(case, fmt, s, back, keep, fmt + " automunge off", automunge=False)
    if any(rows.values()):
        case.nontrivial(fmt, s.sig(), rows)


@reg.scenario(quick=300, thorough=4000, needs=("steps", "nudged", "renamed", "cells_compared"))
def same_path(case):
    """one path written and read again and again by the same objects: what is read is what the file holds now"""
    import ticdat
    rng = case.rng
    fmt = rng.choice([f for f in pf.FORMATS if "string" not in f])
    s = pf.spec(rng, generic=0)
    fct, rd = s.build(ticdat.PanDatFactory), s.build(ticdat.PanDatFactory)
    rd = rng.choice([fct, rd])
    rows = None
    for step in range(rng.randint(2, 4)):
        new = files.nudge(rng, s, rows) if rows and rng.random() < .4 else None
        if new:
            case.count("nudged")
        new = new or pf.data(case, fmt, s)
        case.describe(fmt=fmt, schema=s, step=step, before=rows, rows=new)
        rows = new
        p = pf.write(case, fmt, fct, fct.PanDat(**pf.frames(case, s, rows, fmt, messy=fmt not in ("json columns", "json index"))))
        for n in range(rng.choice([1, 1, 2])):
            pf.compare(case, fmt, s, pf.read(fmt, rd, p), rows, "%s, write number %d, read %d" % (fmt, step + 1, n + 1))
        case.count("steps")
    plain = {"csv": "csv", "csv sep": "csv", "sql": "sql", "sql con": "sql"}.get(fmt)
    if plain and files.rename_table(rng, plain, s, p):
        pf.compare(case, fmt, s, pf.read(fmt, rd, p), rows, "%s, other spelling of a table name" % fmt)
        case.count("renamed")
    if fmt.startswith("csv"):
        t = rng.choice(s.normal())
        for n in os.listdir(p):
            if n.lower().replace(" ", "_") == t.lower() + ".csv":
                os.remove(os.path.join(p, n))
        case.eq(len(getattr(pf.read(fmt, rd, p), t)), 0, "rows of a table whose file is gone")
    elif fmt != "sql con":
        os.remove(p)
        with case.must_raise("reading a file that is gone"):
            pf.read(fmt, rd, p)
    if any(rows.values()):
        case.nontrivial(fmt, s.sig(), rows)
