"""C16: CSV round trip of a TicDat preserves the data up to CSV typing rules."""
import csv, os
from ..core import Registry, Skip
from .. import gen, ref, files
from .c04 import tic_snap, generic_frame

reg = Registry()
reg.rule = ("random typed schemas, defaults, dialects, with and without headers; text includes delimiters, quotes, all line breaks, "
            "non-ASCII, numeric-looking and formula-like text; the monitor parses the written files with its own csv reader and "
            "compares every cell read back with the documented typing rule; distinct by (schema, dialect, rows)")
reg.assumptions = ["an untyped primary key field is text in a CSV file (documented), so numbers in it come back as their text",
                   "booleans come back as their text", "the null/empty-string rule is the documented one (nullable, default None)"]


def make(case, gens=False):
    import ticdat
    rng = case.rng
    s = files.schema(rng, "csv")
    rows = files.data(case, "csv", s)
    if gens:
        s.generators = [t for t in s.normal() if not s.pks(t) and rng.random() < .5]
    if rng.random() < .1:
        s.tables["gen_tbl"] = '*'
    case.describe(schema=s, rows=rows)
    fct, rd = s.build(ticdat.TicDatFactory), s.build(ticdat.TicDatFactory)
    args = files.tic_args(case, s, rows)
    if "gen_tbl" in s.tables:
        args["gen_tbl"] = generic_frame(rng)
    dat = fct.TicDat(**args)
    return s, fct, rd, dat, gen.tic_rows(s, dat)


def text_of(x):
    return "" if ref.is_null(x) else str(x.item() if hasattr(x, "item") else x)


def check_files(case, s, d, rows, dialect, hdr, names=None):
    """an independent reader of the directory"""
    for t in s.normal():
        with open(os.path.join(d, (names or {}).get(t, t) + ".csv"), newline="", encoding="utf8") as f:
            got = list(csv.reader(f, dialect=dialect))
        if hdr:
            case.eq(got[:1], [list(s.fields(t))], "header of " + t)
            got = got[1:]
        case.eq(got, [[text_of(x) for x in r] for r in rows[t]], "cells of %s in the file" % t)


@reg.scenario(quick=2000, thorough=30000, needs=("cells_compared", "no_header", "overwritten", "dialect excel-tab", "dialect unix",
                                                "dialect vmon_semicolon", "dialect vmon_all", "recoded_csv"))
def round_trip(case):
    """write, independent parse, read, compare"""
    rng = case.rng
    s, fct, rd, dat, rows = make(case)
    if rng.random() < .15:
        dat = fct.freeze_me(dat)
    before = tic_snap(s, dat)
    dialect, hdr = rng.choice(files.DIALECTS), rng.random() < .8 or '*' in s.tables.values()
    d = case.path("csv")
    kw = dict(dialect=dialect, write_header=hdr)
    if rng.random() < .15:
        old = fct.TicDat(**gen.tic_args(s, {t: [tuple("old%s" % i for _ in s.fields(t)) for i in range(12)] for t in s.normal()}))
        fct.csv.write_directory(old, d, **kw)
        kw["allow_overwrite"] = True
        case.count("overwritten")
    elif rng.random() < .3:
        os.mkdir(d)
    fct.csv.write_directory(dat, d, **kw)
    case.eq(tic_snap(s, dat), before, "write_directory changed the object")
    check_files(case, s, d, rows, dialect, hdr)
    frz = rng.random() < .2
    enc = {"encoding": "utf8"} if rng.random() < .3 else files.recode(case, d)
    back = rd.csv.create_tic_dat(d, dialect=dialect, headers_present=hdr, freeze_it=frz, **enc)
    case.check(rd.good_tic_dat_object(back), "read object is not good")
    files.compare(case, "csv", s, gen.tic_rows(s, back), rows, "csv %s header=%s" % (dialect, hdr))
    if "gen_tbl" in s.tables:
        case.eq(list(back.gen_tbl.columns), list(dat.gen_tbl.columns) if len(dat.gen_tbl) else list(back.gen_tbl.columns),
                "columns of the generic table")
        case.eq(len(back.gen_tbl), len(dat.gen_tbl), "rows of the generic table")
        case.count("generic")
    if not hdr:
        case.count("no_header")
    case.count("dialect " + dialect)
    if any(rows.values()):
        case.nontrivial(s.sig(), dialect, hdr, rows)
    case.sample(dict(schema=s, dialect=dialect, rows=rows))


@reg.scenario(quick=400, thorough=6000, needs=("cells_compared", "pretty_names", "second_trip"))
def twice(case):
    """pretty file names; what was read once is stable under further round trips"""
    rng = case.rng
    s, fct, rd, dat, rows = make(case)
    if "gen_tbl" in s.tables:
        raise Skip("generic")
    d, d2 = case.path("csv"), case.path("csv2")
    pretty = rng.random() < .5
    fct.csv.write_directory(dat, d, case_space_table_names=pretty)
    found = sorted(os.listdir(d))
    case.check(all(x.endswith(".csv") for x in found), lambda: "files written: %r" % found)
    files.names_ok(case, [x[:-4] for x in found], s.normal(), pretty, what="files written")
    if pretty and any(" " in x for x in found):
        case.count("pretty_names")
    a = rd.csv.create_tic_dat(d)
    files.compare(case, "csv", s, gen.tic_rows(s, a), rows, "csv pretty=%s" % pretty)
    fct.csv.write_directory(a, d2, case_space_table_names=not pretty)
    b = fct.csv.create_tic_dat(d2)
    got = gen.tic_rows(s, a)
    keyed = {(t, f) for t in s.normal() for f in s.pks(t)}
    if any(ref.is_num(x) and s.types.get((t, f)) is None for t in got for r in got[t] for f, x in zip(s.fields(t), r)
           if (t, f) in keyed):
        case.fail("harness: numbers in untyped keys")
    files.compare(case, "csv", s, gen.tic_rows(s, b), got, "second csv trip")
    case.count("second_trip")
    if any(rows.values()):
        case.nontrivial(s.sig(), pretty, rows)


@reg.scenario(quick=200, thorough=3000, needs=("cells_compared", "generator_rows", "recoded_csv"))
def generators(case):
    """keyless tables written from generators and read as generators"""
    rng = case.rng
    s, fct, rd, dat, rows = make(case, gens=True)
    if not s.generators or "gen_tbl" in s.tables:
        raise Skip("no generator table")
    d, dialect = case.path("csv"), rng.choice(files.DIALECTS)
    fct.csv.write_directory(dat, d, dialect=dialect)
    check_files(case, s, d, rows, dialect, True)
    back = rd.csv.create_tic_dat(d, dialect=dialect, **files.recode(case, d, .4))
    for _ in range(2):
        files.compare(case, "csv", s, gen.tic_rows(s, back), rows, "csv generators")
    case.count("generator_rows", sum(len(rows[t]) for t in s.generators))
    if any(rows.values()):
        case.nontrivial(s.sig(), dialect, rows)


@reg.scenario(quick=240, thorough=2880, needs=("steps", "nudged", "renamed"))
def same_path(case):
    """one path written and read repeatedly by the same objects: always the current content"""
    rng = case.rng
    files.same_path(case, "csv")
