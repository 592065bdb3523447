"""C17: SQLite database and SQL text round trips of a TicDat preserve the data."""
import os, sqlite3
import numpy as np
from ..core import Registry, Skip
from .. import gen, ref, files
from .c04 import tic_snap, generic_frame

reg = Registry()
reg.rule = ("random typed schemas with defaults and (cyclic, compound) foreign keys; databases and SQL text with and without schema; "
            "the monitor opens the database itself (PRAGMA table_info, foreign_key_list, raw rows) and compares every cell read back; "
            "distinct by (schema, form, rows)")
reg.assumptions = ["text reading true/false/inf/-inf is documented to come back as boolean/infinity",
                   "integers fit in 64 bits", "SQLite reads number literals of SQL text to within an ulp (third party)", "text that looks like a number keeps its type only in fields declared to allow text "
                   "(an untyped field has the column type of its default)", "SQL text can not hold NUL characters"]


def sql_schema(rng, **kw):
    s = files.schema(rng, "sql")
    if rng.random() < .4 and len(s.normal()) > 1:
        gen.add_fks(rng, s, n=(1, 3))
    return s


def make(case, fmt, gens=False):
    import ticdat
    rng = case.rng
    s = sql_schema(rng)
    if gens:
        s.generators = [t for t in s.normal() if not s.pks(t) and rng.random() < .6]
    rows = files.data(case, fmt, s)
    if rng.random() < .1 and not gens:
        s.tables["gen_tbl"] = '*'
    case.describe(fmt=fmt, schema=s, rows=rows)
    fct, rd = s.build(ticdat.TicDatFactory), s.build(ticdat.TicDatFactory)
    args = files.tic_args(case, s, rows)
    if "gen_tbl" in s.tables:
        args["gen_tbl"] = generic_frame(rng)
    dat = fct.TicDat(**args)
    return s, fct, rd, dat, gen.tic_rows(s, dat)


def check_db(case, s, path, rows):
    """the schema and the rows as SQLite itself sees them"""
    with sqlite3.connect(path) as con:
        have = {r[0] for r in con.execute("select name from sqlite_master where type='table'")}
        case.check(have >= set(s.normal()), lambda: "tables missing from the database: %s" % (set(s.normal()) - have))
        for t in s.normal():
            info = con.execute("PRAGMA table_info([%s])" % t).fetchall()
            case.eq({r[1] for r in info}, set(s.fields(t)), "columns of " + t)
            case.eq(tuple(r[1] for r in sorted((r for r in info if r[5]), key=lambda r: r[5])), s.pks(t), "primary key of " + t)
            for r in info:
                if r[1] in s.dfs(t):
                    got = con.execute("select %s" % r[4]).fetchone()[0] if r[4] is not None else None
                    want = s.default(t, r[1])
                    case.eq(ref.canon(got), ("str", str(want)) if isinstance(want, bool) else ref.canon(want),
                            "default of %s.%s" % (t, r[1]))
            fks = {}
            for r in con.execute("PRAGMA foreign_key_list([%s])" % t):
                fks.setdefault(r[0], []).append((r[2], r[3], r[4]))
            case.eq(sorted((x[0][0], tuple(sorted((a, b) for _, a, b in x))) for x in fks.values()),
                    sorted((ft, tuple(sorted(mp))) for nt, ft, mp in s.fks if nt == t), "foreign keys of " + t)
            case.eq(con.execute("select count(*) from [%s]" % t).fetchone()[0], len(rows[t]), "rows in " + t)
            raw = con.execute("select %s from [%s]" % (",".join("[%s]" % f for f in s.fields(t)), t)).fetchall()
            case.eq(sorted(repr(tuple(big(ref.canon(x)) for x in r)) for r in raw),
                    sorted(repr(tuple(big(stored(s, t, f, x)) for f, x in zip(s.fields(t), r))) for r in rows[t]), "raw rows of " + t)


def big(c):
    """the storage class of a number (integer, float, text such as inf) is SQLite's business"""
    if c[0] == "num" or (c[0] == "str" and files.to_float(c[1]) is not None):
        return ("num", float("%.14g" % float(c[1])) + 0.0)      # SQLite reads number literals to within an ulp
    return c


def stored(s, t, f, x):
    """what the database is expected to hold for a cell"""
    if isinstance(x, (bool, np.bool_)):
        return ("str", str(x))
    if ref.is_dt(x):
        return ("str", str(x))
    return ref.canon(x)


@reg.scenario(quick=1800, thorough=20000, needs=("generic sql text True", "generic sql text False", "cells_compared", "form db", "form sql text with schema", "form sql text",
                                                "overwritten", "generic"))
def round_trip(case):
    """write, inspect with sqlite3, read, compare"""
    rng = case.rng
    form = rng.choice(["db", "db", "sql text", "sql text with schema"])
    fmt = "sql" if form == "db" else "sql text"
    s, fct, rd, dat, rows = make(case, fmt)
    if rng.random() < .15:
        dat = fct.freeze_me(dat)
    before = tic_snap(s, dat)
    frz = rng.random() < .2
    if form == "db":
        p = case.path("x.db")
        kw = {}
        if rng.random() < .2 and "gen_tbl" not in s.tables:
            old = fct.TicDat(**gen.tic_args(s, {t: [tuple("old%s" % i for _ in s.fields(t)) for i in range(5)] for t in s.normal()}))
            fct.sql.write_db_data(old, p)
            kw["allow_overwrite"] = True
            case.count("overwritten")
        elif rng.random() < .3 and "gen_tbl" not in s.tables:
            fct.sql.write_db_schema(p)
        fct.sql.write_db_data(dat, p, **kw)
        check_db(case, s, p, rows)
        back = rd.sql.create_tic_dat(p, freeze_it=frz)
    else:
        p = case.path("x.sql")
        sch = form.endswith("schema")
        if rng.random() < .2:
            open(p, "w").write("create table junk (x);\n" * 50)
        fct.sql.write_sql_file(dat, p, include_schema=sch, allow_overwrite=True)
        if "gen_tbl" in s.tables and not len(dat.gen_tbl.columns):
            raise Skip("SQL text of a generic table without columns")
        case.count("generic sql text %s" % sch, "gen_tbl" in s.tables)
        back = rd.sql.create_tic_dat_from_sql(p, includes_schema=sch, freeze_it=frz)
        if sch:
            db = case.path("y.db")
            with sqlite3.connect(db) as con:
                con.executescript(open(p, newline="").read())
            check_db(case, s, db, rows)
    case.eq(tic_snap(s, dat), before, "writing changed the object")
    case.check(rd.good_tic_dat_object(back), "read object is not good")
    got = gen.tic_rows(s, back)
    files.compare(case, fmt, s, got, rows, form)
    for t in s.normal():
        for m in got[t]:
            for f, a in zip(s.fields(t), m):
                case.check(not isinstance(a, bytes), "bytes read back")
    for t in s.normal():                                           # booleans come back as booleans
        kk = lambda r: tuple(ref.canon(x) for x in r[:len(s.pks(t))])
        src = {kk(r): r for r in rows[t]} if s.pks(t) else dict(enumerate(rows[t]))
        for k, m in ({kk(r): r for r in got[t]} if s.pks(t) else dict(enumerate(got[t]))).items():
            for f, a, b in zip(s.fields(t), m, src.get(k, m)):
                case.check(not isinstance(b, bool) or a is b, lambda: "%s.%s: wrote %r read %r" % (t, f, b, a))
    if "gen_tbl" in s.tables:
        case.eq(len(back.gen_tbl), len(dat.gen_tbl), "rows of the generic table")
        if len(dat.gen_tbl):
            case.eq(list(back.gen_tbl.columns), list(dat.gen_tbl.columns), "columns of the generic table")
            cells = lambda df: [[big(stored(s, "gen_tbl", f, x)) for f, x in zip(df.columns, r)] for r in df.itertuples(index=False, name=None)]
            case.eq(cells(back.gen_tbl), cells(dat.gen_tbl), "cells of the generic table")
        case.count("generic")
    case.count("form " + form)
    if any(rows.values()):
        case.nontrivial(s.sig(), form, rows)
    case.sample(dict(form=form, schema=s, rows=rows))


@reg.scenario(quick=150, thorough=2000, needs=("cells_compared", "generator_rows"))
def generators(case):
    """generator tables are written completely and read as generators (database) or refused (SQL text)"""
    rng = case.rng
    s, fct, rd, dat, rows = make(case, "sql", gens=True)
    if not s.generators:
        raise Skip("no generator table")
    p = case.path("x.db")
    fct.sql.write_db_data(dat, p)
    check_db(case, s, p, rows)
    back = rd.sql.create_tic_dat(p)
    for _ in range(2):
        files.compare(case, "sql", s, gen.tic_rows(s, back), rows, "generators")
    q = case.path("x.sql")
    fct.sql.write_sql_file(dat, q, include_schema=True)
    db = case.path("y.db")
    if all(files.text_ok("sql text", x) for t in rows for r in rows[t] for x in r if isinstance(x, str)):
        with sqlite3.connect(db) as con:
            con.executescript(open(q, newline="").read())
        check_db(case, s, db, rows)
    case.count("generator_rows", sum(len(rows[t]) for t in s.generators))
    if any(rows.values()):
        case.nontrivial(s.sig(), rows)


@reg.scenario(quick=150, thorough=2000, needs=("cells_compared",))
def twice(case):
    """database and SQL text agree; a second trip changes nothing"""
    rng = case.rng
    s, fct, rd, dat, rows = make(case, "sql text")
    if "gen_tbl" in s.tables:
        raise Skip("generic")
    p, q = case.path("x.db"), case.path("x.sql")
    fct.sql.write_db_data(dat, p)
    a = rd.sql.create_tic_dat(p)
    fct.sql.write_sql_file(dat, q)
    b = rd.sql.create_tic_dat_from_sql(q)
    files.compare(case, "sql text", s, gen.tic_rows(s, b), gen.tic_rows(s, a), "database against SQL text")
    files.compare(case, "sql", s, gen.tic_rows(s, a), rows, "db")
    p2 = case.path("x2.db")
    fct.sql.write_db_data(a, p2)
    case.eq(gen.canon_rows(gen.tic_rows(s, rd.sql.create_tic_dat(p2))), gen.canon_rows(gen.tic_rows(s, a)), "second trip")
    if any(rows.values()):
        case.nontrivial(s.sig(), rows)


@reg.scenario(quick=60, thorough=600, needs=("quotes",))
def consecutive_quotes(case):
    """SQL text with consecutive single quotes inside a string"""
    import ticdat
    rng = case.rng
    fct = ticdat.TicDatFactory(t=[["k"], ["v"]])
    fct.set_data_type("t", "v", strings_allowed="*", number_allowed=False)
    v = rng.choice("abc") + "'" * rng.randint(2, 5) + rng.choice(["", "x", "y z"])
    dat = fct.TicDat(t={1: [v]})
    case.describe(value=v)
    case.count("quotes")
    case.nontrivial(v)
    p = case.path("x.sql")
    fct.sql.write_sql_file(dat, p)
    try:
        back = fct.sql.create_tic_dat_from_sql(p)
    except sqlite3.Error:
        case.count("refused")
        case.fail("text with consecutive single quotes can not be read back from the SQL file", key="consecutive_quotes")
    case.check(back.t[1]["v"] == v, lambda: "text %r came back as %r" % (v, back.t[1]["v"]), key="consecutive_quotes")


@reg.scenario(quick=150, thorough=1800, needs=("steps", "nudged", "renamed"))
def same_path(case):
    """one path written and read repeatedly by the same objects: always the current content"""
    rng = case.rng
    files.same_path(case, rng.choice(["sql", "sql", "sql text"]), make_schema=lambda rng, fmt: sql_schema(rng))
