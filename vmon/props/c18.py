"""C18: Excel round trip of a TicDat preserves the data; offsets, absent headers, trailing blank rows."""
import datetime, os, warnings
import numpy as np
import pandas
from ..core import Registry, Skip
from .. import gen, ref, files
from .c04 import tic_snap, generic_frame

reg = Registry()
reg.rule = ("random typed schemas and rows written to .xls / .xlsx and read back, plus workbooks built by the harness itself with "
            "xlwt / openpyxl (rows to skip, no headers, extra columns and sheets, blank rows, real date cells); the monitor opens "
            "the written workbooks itself and compares every cell; distinct by (schema, format, rows)")
reg.assumptions = ["a row whose cells are all empty at the end of a sheet is documented to be pruned",
                   "xlsxwriter writes 16 significant digits of a number (third party)",
                   "text inf/-inf is documented to be read as infinity; .xls reads an empty cell as empty text (documented flaw)",
                   "datetimes in fields not declared datetime come back as their text", "integers beyond 2^53 are doubles in Excel"]
NA = pandas._libs.parsers.STR_NA_VALUES              # generic tables are read by pandas, which takes these for null
LONG = ["a_table_with_a_really_long_name_1", "Another_Long_Table_Name_For_Truncation_Purposes"]


def blank(r):
    return all(ref.is_null(x) or x == "" for x in r)


def pruned(s, rows):
    """without the trailing rows that are empty"""
    out = {}
    for t in s.normal():
        r = list(rows[t])
        while r and blank(r[-1]) and not s.pks(t):
            r.pop()
        out[t] = r
    return out


def make(case, fmt):
    import ticdat
    rng = case.rng
    s = files.schema(rng, fmt)
    if rng.random() < .15:
        t = rng.choice(s.normal())
        new = rng.choice(LONG)
        gen_rename(s, t, new)
    rows = files.data(case, fmt, s)
    if rng.random() < .1:
        s.tables["gen_tbl"] = '*'
    if fmt == "xls":                               # the documented order of xls sheets keeps integers of any size as doubles
        rows = {t: [tuple(x for x in r) for r in rs] for t, rs in rows.items()}
    case.describe(fmt=fmt, schema=s, rows=rows)
    fct, rd = s.build(ticdat.TicDatFactory), s.build(ticdat.TicDatFactory)
    args = files.tic_args(case, s, rows)
    if "gen_tbl" in s.tables:
        args["gen_tbl"] = generic_frame(rng)
    dat = fct.TicDat(**args)
    return s, fct, rd, dat, gen.tic_rows(s, dat)


def gen_rename(s, t, new):
    s.tables = {(new if k == t else k): v for k, v in s.tables.items()}
    s.types = {((new if a == t else a), f): v for (a, f), v in s.types.items()}
    s.defaults = {((new if a == t else a), f): v for (a, f), v in s.defaults.items()}


def raw_sheets(path):
    """{sheet title: [rows]} as an independent reader sees them"""
    if path.endswith(".xls"):
        import xlrd
        b = xlrd.open_workbook(path)
        return {sh.name: [sh.row_values(i) for i in range(sh.nrows)] for sh in b.sheets()}
    import openpyxl
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = openpyxl.load_workbook(path, data_only=True)
    return {sh.title: [[c.value for c in r] for r in sh.iter_rows(min_row=1, min_col=1, max_row=sh.max_row, max_col=sh.max_column)]
            for sh in b.worksheets}


def raw_ok(fmt, x, got):
    if ref.is_null(x) or x == "":
        return got in (None, "")
    if isinstance(x, (bool, np.bool_)):
        return bool(x) == bool(got) and got in (0, 1)
    if ref.is_dt(x):
        return got == str(x)
    if ref.is_num(x):
        if abs(float(x)) == gen.INF:
            return str(got).lower() == str(float(x)) or got == float(x)
        return isinstance(got, (int, float)) and abs(float(got) - float(x)) <= 1e-14 * abs(float(x))
    return got == x


@reg.scenario(quick=700, thorough=9000, needs=("cells_compared", "format xls", "format xlsx", "overwritten", "pretty_names", "generic",
                                               "truncated_name"))
def round_trip(case):
    """write, inspect the workbook, read, compare"""
    rng = case.rng
    fmt = rng.choice(["xls", "xlsx"])
    s, fct, rd, dat, rows = make(case, fmt)
    if "gen_tbl" in s.tables and fmt == "xls":
        raise Skip("generic tables in old Excel files")
    if rng.random() < .15:
        dat = fct.freeze_me(dat)
    before = tic_snap(s, dat)
    p = case.path("x." + fmt)
    kw = {}
    if rng.random() < .15:
        old = fct.TicDat(**gen.tic_args(s, {t: [tuple("old%s" % i for _ in s.fields(t)) for i in range(12)] for t in s.normal()}))
        fct.xls.write_file(old, p)
        kw["allow_overwrite"] = True
        case.count("overwritten")
    pretty = rng.random() < .3
    if pretty:
        kw["case_space_sheet_names"] = True
    fct.xls.write_file(dat, p, **kw)
    case.eq(tic_snap(s, dat), before, "write_file changed the object")
    sheets = raw_sheets(p)
    files.names_ok(case, list(sheets), [t for t in s.tables if t != "gen_tbl" or len(dat.gen_tbl)], pretty, 30, "sheets written")
    if pretty:
        if any(" " in n for n in sheets):
            case.count("pretty_names")
    by = {n.lower().replace(" ", "_"): v for n, v in sheets.items()}
    want = pruned(s, rows)
    for t in s.normal():
        got = by[t.lower()[:30]]
        case.eq(list(got[0]), list(s.fields(t)), "header of " + t)
        got = got[1:]
        case.check(len(got) >= len(want[t]), lambda: "rows of %s in the file" % t)
        for r, g in zip(want[t], got):
            for f, x, c in zip(s.fields(t), r, g):
                case.check(raw_ok(fmt, x, c), lambda: "%s.%s: %r is %r in the workbook" % (t, f, x, c))
        if len(t) > 30:
            case.count("truncated_name")
    frz = rng.random() < .2
    back = rd.xls.create_tic_dat(p, freeze_it=frz)
    case.check(rd.good_tic_dat_object(back), "read object is not good")
    files.compare(case, fmt, s, pruned(s, gen.tic_rows(s, back)), want, fmt)
    if "gen_tbl" in s.tables:
        n = [not all(ref.is_null(x) or x in NA for x in r) for r in dat.gen_tbl.itertuples(index=False)]
        n = max([i + 1 for i, x in enumerate(n) if x] or [0])
        case.eq(len(back.gen_tbl), n, "rows of the generic table, without blank rows at the end")
        if len(dat.gen_tbl):
            case.eq(list(back.gen_tbl.columns), list(dat.gen_tbl.columns), "columns of the generic table")
        case.count("generic")
    case.count("format " + fmt)
    if any(rows.values()):
        case.nontrivial(s.sig(), fmt, rows)
    case.sample(dict(format=fmt, schema=s, rows=rows))


def build_book(case, path, sheets):
    """sheets: {title: rows of cells}, written without ticdat"""
    if path.endswith(".xls"):
        import xlwt
        b = xlwt.Workbook()
        style = xlwt.easyxf(num_format_str="YYYY-MM-DD HH:MM:SS")
        for n, rows in sheets.items():
            sh = b.add_sheet(n)
            for i, r in enumerate(rows):
                for j, x in enumerate(r):
                    if x is not None:
                        sh.write(i, j, x, *([style] if isinstance(x, datetime.datetime) else []))
        b.save(path)
    else:
        import openpyxl
        b = openpyxl.Workbook()
        b.remove(b.active)
        for n, rows in sheets.items():
            sh = b.create_sheet(n)
            for i, r in enumerate(rows):
                for j, x in enumerate(r):
                    if x is not None:
                        c = sh.cell(row=i + 1, column=j + 1, value=x)
                        if isinstance(x, str):
                            c.data_type = "s"
        b.save(path)


def sheet_cell(rng, fmt, kw, pk):
    """a cell for a harness-made workbook"""
    if kw and kw.get("datetime"):
        return gen.a_datetime(rng).replace(microsecond=0) if rng.random() < .8 else rng.choice(gen.DATES_GOOD)
    r = rng.random()
    num = kw is None or kw.get("number_allowed", True)
    txt = kw is None or bool(kw.get("strings_allowed", ()))
    if r < .06 and not pk and (kw is None or kw.get("nullable")):
        return None
    if num and (not txt or r < .6):
        return rng.choice([0, 1, 5, -3, 2.5, 1e6, 0.1, 12345.678, 99])
    return rng.choice(["a", "foo bar", "Ünï", "x,y", "007", "12", "T", "=1+2", "line\nbreak", "c d"])


@reg.scenario(quick=700, thorough=9000, needs=("offset_tables", "no_headers", "blank_tail", "format xls", "format xlsx", "blank_lead",
                                               "date_cells", "extra_columns"))
def offsets(case):
    """harness-made workbooks: skipped rows, no headers, extra columns and sheets, blank rows at the end"""
    import ticdat
    rng = case.rng
    fmt = rng.choice(["xls", "xlsx"])
    s = files.schema(rng, fmt)
    hdr = rng.random() < .6
    fct = s.build(ticdat.TicDatFactory)
    sheets, off, want = {}, {}, {}
    offs = rng.random() < .7
    for t in s.normal():
        fl = list(s.fields(t))
        rows, seen = [], set()
        for _ in range(rng.randint(0, 6)):
            r = tuple(sheet_cell(rng, fmt, s.types.get((t, f)), f in s.pks(t)) for f in fl)
            k = tuple(min(files.expected(fmt, s, t, f, v)) for f, v in zip(s.pks(t), r))
            if (s.pks(t) and k in seen) or (not s.pks(t) and blank(r)):
                continue
            seen.add(k)
            rows.append(r)
        want[t] = rows
        cols = list(fl)
        extra = []
        if rng.random() < .3:
            extra = ["extra %d" % i for i in range(rng.randint(1, 2))]
            case.count("extra_columns")
        if hdr:
            cols = cols + extra
            rng.shuffle(cols)
        else:
            cols = cols + extra
            if any(r[-1] is None for r in rows):
                cols.append("filler")                      # else the sheet could physically lack the last field
        body = [[(r[fl.index(c)] if c in fl else 7 if c == "filler" else rng.choice([None, "junk", 7])) for c in cols] for r in rows]
        lead = []
        if offs and rng.random() < .7:
            n = rng.randint(1, 4)
            off[t] = n
            if rng.random() < .4:
                lead = [[None] * len(cols) for _ in range(n)]
                if rows or hdr:
                    case.count("blank_lead")
            else:
                lead = [[rng.choice([None, "title", 3, fl[0]]) for _ in cols] for _ in range(n)]
            case.count("offset_tables")
        head = []
        if hdr:
            head = [[(rng.choice([c, c.upper(), c.lower()]) if c in fl and (c.upper().lower() == c.lower()) and
                      rng.random() < .4 else c) for c in cols]]
        tail = []
        if fmt == "xlsx" and rng.random() < .3 and (rows or hdr):
            case.count("blank_tail")
            tail = [[None] * len(cols) for _ in range(rng.randint(1, 4))]
        if not hdr and not rows:
            if lead:
                raise Skip("offset beyond an empty sheet without headers")
        title = rng.choice([t, t.upper(), t.lower(), t.replace("_", " ")])[:30]
        sheets[title] = (lead, head, body, tail)
        if any(isinstance(x, datetime.datetime) for r in rows for x in r):
            case.count("date_cells")
    if rng.random() < .4:
        sheets["zz other"] = ([], [["a", "b"]], [[1, 2]], [])
    p = case.path("x." + fmt)
    order = list(sheets)
    rng.shuffle(order)
    case.describe(fmt=fmt, schema=s, sheets=sheets, offsets=off, headers=hdr)
    build_book(case, p, {n: [r for part in sheets[n] for r in part] for n in order})
    if fmt == "xlsx":                              # blank but formatted cells make openpyxl see rows
        import openpyxl
        b = openpyxl.load_workbook(p)
        for n in order:
            lead, head, body, tail = sheets[n]
            if tail:
                at = len(lead) + len(head) + len(body)
                for i in range(len(tail)):
                    c = b[n].cell(row=at + i + 1, column=1)
                    c.number_format = "0.00"
        b.save(p)
    before = open(p, "rb").read()
    back = fct.xls.create_tic_dat(p, row_offsets=off or rng.choice([None, {}]), headers_present=hdr)
    case.eq(open(p, "rb").read(), before, "reading changed the file")
    case.check(fct.good_tic_dat_object(back), "read object is not good")
    files.compare(case, fmt, s, gen.tic_rows(s, back), want, "%s headers=%s offsets=%s" % (fmt, hdr, off))
    if not hdr:
        case.count("no_headers")
    case.count("format " + fmt)
    if any(want.values()):
        case.nontrivial(s.sig(), fmt, hdr, tuple(sorted(off.items())), want)
    case.sample(dict(format=fmt, offsets=off, headers=hdr, rows=want))


@reg.scenario(quick=200, thorough=2500, needs=("tic kept", "tic cut", "pan kept", "pan cut", "generic kept", "generic cut"))
def trailing_frames(case):
    """the same for PanDat tables and for tables declared with '*'"""
    import ticdat, openpyxl
    rng = case.rng
    kind = rng.choice(["tic", "pan", "generic"])
    cls = ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory if kind == "pan" else rng.choice([ticdat.TicDatFactory, ticdat.PanDatFactory])
    fct = cls(t=[[], ["a", "b"]]) if kind != "generic" else cls(t="*", u=[["x"], ["y"]])
    modes = [rng.choice(["prune", "ignore"]) for _ in range(rng.randint(0, 2))]
    for m in modes:
        fct.set_xlsx_trailing_empty_rows(m)
    if rng.random() < .3:
        fct = cls.create_from_full_schema(fct.schema(include_ancillary_info=True))
    rows = [[None, None] if rng.random() < .3 else [rng.randint(0, 9), rng.choice([None, "x"])] for _ in range(rng.randint(1, 6))]
    rows[0] = [rng.randint(0, 9), "x"]
    tail = rng.randint(0, 3)
    b = openpyxl.Workbook()
    sh = b.active
    sh.title = "t"
    body = [["a", "b"]] + rows + [[None, None]] * tail
    for i, r in enumerate(body):
        for j, x in enumerate(r):
            sh.cell(row=i + 1, column=j + 1, value=x).number_format = "0.00"
    if kind != "tic":                                  # pandas itself drops rows without any value: "NA" is a null that it keeps
        for i in range(2, len(body) + 1):
            if body[i - 1] == [None, None]:
                sh.cell(row=i, column=rng.randint(1, 2), value=rng.choice(["NA", "nan", "NULL"]))
    p = case.path("x.xlsx")
    b.save(p)
    case.describe(kind=kind, cls=cls.__name__, rows=rows, tail=tail, modes=modes)
    dat = fct.xls.create_tic_dat(p) if cls is ticdat.TicDatFactory else fct.xls.create_pan_dat(p)
    nn = lambda x: None if ref.is_null(x) else x
    got = [[r["a"], r["b"]] for r in dat.t] if kind == "tic" else [[nn(x) for x in r] for r in dat.t[["a", "b"]].values.tolist()]
    want = body[1:]
    ignore = modes[-1:] == ["ignore"]
    if not ignore:
        while want and want[-1] == [None, None]:
            want = want[:-1]
    case.eq([[ref.canon(x) for x in r] for r in got], [[ref.canon(x) for x in r] for r in want], "%s rows read, modes %s" % (kind, modes))
    case.count(kind + " cut", len(body) - 1 - len(want))
    case.count(kind + " kept", sum(r == [None, None] for r in want))
    case.nontrivial(kind, cls.__name__, repr(modes), rows, tail)


@reg.scenario(quick=150, thorough=2000, needs=("kept", "cut"))
def trailing(case):
    """all-empty rows: kept inside the data, pruned at the end, kept there when set to ignore"""
    import ticdat, openpyxl
    rng = case.rng
    fct = ticdat.TicDatFactory(t=[[], ["a", "b"]])
    mode = rng.choice(["prune", "ignore", None])
    if mode:
        fct.set_xlsx_trailing_empty_rows(mode)
    lead = rng.randint(0, 3)
    rows = [[None, None] if rng.random() < .3 else [rng.randint(0, 9), rng.choice([None, "x"])] for _ in range(rng.randint(0, 6))]
    tail = rng.randint(0, 3)
    b = openpyxl.Workbook()
    sh = b.active
    sh.title = "t"
    body = [["a", "b"]] + rows + [[None, None]] * tail
    for i, r in enumerate(body):
        for j, x in enumerate(r):
            c = sh.cell(row=lead + i + 1, column=j + 1, value=x)
            c.number_format = "0.00"
    p = case.path("x." + rng.choice(["xlsx", "xlsm"]))
    b.save(p)
    case.describe(lead=lead, rows=rows, tail=tail, mode=mode)
    got = [[r["a"], r["b"]] for r in fct.xls.create_tic_dat(p, row_offsets={"t": lead}).t]
    want = body[1:]
    if mode != "ignore":
        while want and want[-1] == [None, None]:
            want = want[:-1]
    case.eq(got, want, "rows read, mode %s" % mode)
    case.count("cut", len(body) - 1 - len(want))
    case.count("kept", sum(r == [None, None] for r in want))
    case.nontrivial(lead, mode, rows, tail)


@reg.scenario(quick=100, thorough=1200, needs=("steps", "nudged"))
def same_path(case):
    """one path written and read repeatedly by the same objects: always the current content"""
    rng = case.rng
    files.same_path(case, rng.choice(["xls", "xlsx"]), want=pruned)
