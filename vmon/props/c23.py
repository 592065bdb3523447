"""C23: writers never change their input and never destroy existing files unasked."""
import hashlib, json, os, resource, sqlite3
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf, rules
from .c04 import generic_frame

reg = Registry()
reg.rule = ("data objects of random schemas written to and read from every format while the monitor compares exact snapshots (object "
            "identities, dtypes, index, column order, cell identities, factory rules, bytes of every file in the scratch directory) "
            "from before and after; targets that already exist (earlier data, foreign files, tables, junk); writes under a kernel file "
            "size limit (RLIMIT_FSIZE, a real EFBIG from write(2) at a random byte); distinct by (scenario, format, schema, rows)")
reg.assumptions = ["a file size limit stands for any write(2) failure; failures of rename/unlink/close are not injected",
                   "with allow_overwrite=True nothing is claimed about the old file when the new write fails",
                   "PanDat writers have no allow_overwrite option (documented); sql if_exists='fail' is theirs (also in C20)",
                   "pandas itself only warns when it truncates .xlsx text beyond 32767 characters (PanDat)"]
TIC = files.TIC_FORMATS
PAN = pf.FORMATS


# ------------------------------------------------------------------ snapshots
def tree(d):
    rtn = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                rtn[os.path.relpath(p, d)] = hashlib.sha256(h.read()).hexdigest()
        rtn[os.path.relpath(root, d) + "/"] = "dir"
    return rtn


def frame_exact(df):
    return (id(df), [(repr(c), str(df.iloc[:, i].dtype)) for i, c in enumerate(df.columns)], [repr(i) for i in df.index], str(df.index.dtype),
            df.index.names, [[(type(x).__name__, repr(x)) for x in df.iloc[:, i]] for i in range(len(df.columns))])


def tic_exact(s, dat):
    rtn = {}
    for t in s.tables:
        tbl = getattr(dat, t)
        if s.tables[t] == '*':
            rtn[t] = frame_exact(tbl)
        elif s.pks(t):
            rtn[t] = (id(tbl), [(id(k), repr(k), id(r), [(f, id(v), repr(v)) for f, v in r.items()]) for k, r in tbl.items()])
        elif callable(tbl):
            rtn[t] = (id(tbl), [[(f, repr(v)) for f, v in r.items()] for r in tbl()])
        else:
            rtn[t] = (id(tbl), [(id(r), [(f, id(v), repr(v)) for f, v in r.items()]) for r in tbl])
    rtn["attributes"] = sorted(vars(dat))
    return rtn


def pan_exact(s, dat):
    rtn = {t: frame_exact(getattr(dat, t)) for t in s.tables}
    rtn["attributes"] = sorted(vars(dat))
    return rtn


# ------------------------------------------------------------------ objects
def tic_case(case, fmt, generic=0, flag=.3, n=(0, 8)):
    import ticdat
    rng = case.rng
    s = files.schema(rng, fmt, generic=generic)
    if not s.normal():
        raise Skip("no table with fields")
    rows = files.data(case, fmt, s, n=n)
    if generic and any(v == '*' for v in s.tables.values()):
        case.count("generic")
    if rng.random() < .2 and fmt in ("csv", "sql", "xls", "xlsx") and not generic and any(not s.pks(t) for t in s.normal()):
        s.generators = [t for t in s.normal() if not s.pks(t) and rng.random() < .6]
    if rng.random() < flag:
        s.inf_flag = rng.choice([999, 50.5])
        if any(ref.is_num(x) and abs(x) >= s.inf_flag for t in s.normal() for r in rows[t] for x in r[:len(s.pks(t))]):
            s.inf_flag = "N/A"                             # keys would collide
    fct = s.build(ticdat.TicDatFactory)
    args = files.tic_args(case, s, rows)
    for t, v in s.tables.items():
        if v == '*':
            args[t] = pd.DataFrame({"a": [1, 2.5], "b c": ["x", "y"]}) if rng.random() < .5 else pf.generic(rng, "xlsx" if "xls" in fmt else "csv")
    dat = fct.TicDat(**args)
    if rng.random() < .2 and not s.generators:
        dat = fct.freeze_me(dat)
        case.count("frozen")
    case.describe(fmt=fmt, schema=s, rows=rows)
    return s, rows, fct, dat


def pan_case(case, fmt, generic=.15):
    import ticdat
    rng = case.rng
    s = pf.spec(rng, generic=generic)
    if not s.tables:
        raise Skip("no tables")
    if rng.random() < .3:
        s.inf_flag = rng.choice([999, 50.5])
    rows = pf.data(case, fmt, s)
    fct = s.build(ticdat.PanDatFactory)
    dat = fct.PanDat(**pf.frames(case, s, rows, fmt))
    for t in s.tables:                                     # the user may well hold frames with what is not in the schema
        if rng.random() < .15:
            getattr(dat, t)["zz extra"] = 3
    case.describe(fmt=fmt, schema=s, rows=rows)
    return s, rows, fct, dat


def write_options(rng, fmt, kind):
    kw = {}
    if kind == "tic":
        if rng.random() < .3:
            kw["allow_overwrite"] = True
        if fmt == "csv" and rng.random() < .3:
            kw["case_space_table_names"] = True
        if fmt in ("xls", "xlsx") and rng.random() < .3:
            kw["case_space_sheet_names"] = True
    return kw


@reg.scenario(quick=800, thorough=10000, needs=tuple("fmt " + f for f in TIC) + ("generic", "frozen", "find_duplicates", "reads"))
def ticdat_input_untouched(case):
    """writing leaves the TicDat and the factory exactly as they were; reading leaves the files and the factory as they were"""
    rng = case.rng
    fmt = rng.choice(TIC)
    s, rows, fct, dat = tic_case(case, fmt, generic=0 if fmt.startswith("json") or fmt == "sql text" else .2)
    a, r = tic_exact(s, dat), rules.observe(fct, "tic")
    p = files.write(case, fmt, fct, dat, **write_options(rng, fmt, "tic"))
    case.eq(tic_exact(s, dat), a, "TicDat after writing " + fmt, key="write changed the object")
    case.eq(rules.observe(fct, "tic"), r, "factory rules after writing " + fmt, key="rules")
    f = tree(case.tmp)
    for i in range(rng.randint(1, 2)):
        if rng.random() < .3 and not fmt.startswith("sql") and not s.generators:
            io = {"csv": fct.csv, "xls": fct.xls, "xlsx": fct.xls}.get(fmt, fct.json)
            io.find_duplicates(p)
            case.count("find_duplicates")
        files.read(fmt, fct, p, **(dict(freeze_it=True) if rng.random() < .2 and fmt != "json pandas" else {}))
        case.count("reads")
        case.eq(tree(case.tmp), f, "files after reading " + fmt, key="read changed files")
        case.eq(rules.observe(fct, "tic"), r, "factory rules after reading " + fmt, key="rules")
        case.eq(tic_exact(s, dat), a, "the TicDat written, after reading " + fmt, key="read changed the object")
    case.count("fmt " + fmt)
    if any(rows.values()):
        case.nontrivial(fmt, s.sig(), rows)
    case.sample(dict(fmt=fmt, schema=s, rows=rows))


@reg.scenario(quick=800, thorough=10000, needs=tuple("fmt " + f for f in PAN) + ("reads",))
def pandat_input_untouched(case):
    """writing leaves the PanDat, its frames and the factory exactly as they were; reading leaves files and factory as they were"""
    rng = case.rng
    fmt = rng.choice(PAN)
    s, rows, fct, dat = pan_case(case, fmt, generic=0 if pf.base(fmt) == "json" else .15)
    if fmt in ("json columns", "json index"):
        for t in s.tables:
            getattr(dat, t).reset_index(drop=True, inplace=True)
    a, r = pan_exact(s, dat), rules.observe(fct, "pan")
    p = pf.write(case, fmt, fct, dat)
    case.eq(pan_exact(s, dat), a, "PanDat after writing " + fmt, key="write changed the object")
    case.eq(rules.observe(fct, "pan"), r, "factory rules after writing " + fmt, key="rules")
    f = tree(case.tmp)
    pf.read(fmt, fct, p, **(dict(fill_missing_fields=True) if rng.random() < .2 else {}))
    case.count("reads")
    case.eq(tree(case.tmp), f, "files after reading " + fmt, key="read changed files")
    case.eq(rules.observe(fct, "pan"), r, "factory rules after reading " + fmt, key="rules")
    case.eq(pan_exact(s, dat), a, "the PanDat written, after reading " + fmt, key="read changed the object")
    case.count("fmt " + fmt)
    if any(rows.values()):
        case.nontrivial(fmt, s.sig(), rows)


# ------------------------------------------------------------------ existing targets
def pretty(t):
    return " ".join(x[:1].upper() + x[1:] for x in t.replace("_", " ").split(" ")) if t == t.lower() else t


def db_dump(p):
    """every table with its rows"""
    con = sqlite3.connect(p)
    try:
        ts = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        return {t: list(map(repr, con.execute("select * from [%s]" % t))) for t in ts}
    finally:
        con.close()


@reg.scenario(quick=900, thorough=12000, needs=tuple("refused " + f for f in TIC) + ("junk", "pretty names", "one table has rows"))
def refuses_existing(case):
    """allow_overwrite=False and something in the way: the call raises, nothing that was there changes"""
    import ticdat
    rng = case.rng
    fmt = rng.choice(TIC)
    s, rows, fct, dat = tic_case(case, fmt, generic=0, flag=.1)
    old = {t: (rs if rng.random() < .7 else []) for t, rs in files.data(case, fmt, s).items()}
    kw = {k: v for k, v in write_options(rng, fmt, "tic").items() if k != "allow_overwrite"}
    if fmt == "csv":
        d = case.path("t_csv")
        prev = dict(kw) if rng.random() < .6 else {}
        fct.csv.write_directory(fct.TicDat(**gen.tic_args(s, old)), d, **prev)
        names = sorted(os.listdir(d))
        keep = rng.sample(names, rng.randint(1, len(names)))
        for x in names:
            if x not in keep:
                os.remove(os.path.join(d, x))
        case.info.update(existing=keep, options=kw)
        tgt = set()
        probe = case.path("probe")
        fct.csv.write_directory(dat, probe, **kw)
        tgt = set(os.listdir(probe))
        if kw and prev:
            case.count("pretty names")
        must = bool(tgt & set(keep))
        before = tree(d)
        try:
            fct.csv.write_directory(dat, d, **kw)
            raised = False
        except Exception:
            raised = True
        after = tree(d)
        for k, v in before.items():
            case.eq(after.get(k), v, "existing file %s was changed by write_directory(allow_overwrite=False)" % k, key="csv overwritten")
        if must:
            case.check(raised, "write_directory over %s raised nothing" % sorted(tgt & set(keep)), key="csv not refused")
            case.eq(after, before, "a refused write left files behind", key="csv partial")
            case.count("refused csv")
            case.nontrivial(fmt, s.sig(), rows, keep)
        return
    what = rng.choice(["data", "data", "junk"])
    p = case.path("t." + {"sql": "db", "sql text": "sql"}.get(fmt, "json" if fmt.startswith("json") else fmt))
    if what == "junk" or fmt != "sql":
        with open(p, "wb") as h:
            h.write(rng.choice([b"", b"\x00\x01junk", b"{}", b"PK\x03\x04", b"x" * 5000]) if what == "junk" else b"[1, 2]")
        case.count("junk")
    if fmt == "sql":
        if what == "junk":
            if os.path.getsize(p) == 0:
                raise Skip("an empty file is an empty database")
        else:
            files.write(case, fmt, fct, fct.TicDat(**gen.tic_args(s, old)))
            if rng.random() < .4:
                con = sqlite3.connect(p)
                con.execute("create table other_table (x)")
                con.execute("insert into other_table values (1)")
                con.commit()
                con.close()
            n = sum(1 for t in old if old[t])
            if not n:
                raise Skip("all tables empty")
            if n == 1:
                case.count("one table has rows")
            dump = db_dump(p)
    before = tree(case.tmp)
    with case.must_raise("%s: writing to an existing %s with allow_overwrite=False" % (fmt, what), key=fmt + " not refused"):
        files.write(case, fmt, fct, dat, **kw)
    if fmt == "sql" and what == "data":
        case.eq(db_dump(p), dump, "rows of the existing database", key="sql overwritten")
    else:
        case.eq(tree(case.tmp), before, "files", key=fmt + " overwritten")
    case.count("refused " + fmt)
    case.nontrivial(fmt, what, s.sig(), rows)


@reg.scenario(quick=600, thorough=8000, needs=tuple("replaced " + f for f in TIC))
def replaces_when_asked(case):
    """allow_overwrite=True: the result is what writing to an empty place gives; unrelated files and tables stay"""
    rng = case.rng
    fmt = rng.choice(TIC)
    s, rows, fct, dat = tic_case(case, fmt, flag=0)
    s2 = s
    old = files.data(case, fmt, s, n=(0, 12))
    ext = {"sql": "db", "sql text": "sql"}.get(fmt, "json" if fmt.startswith("json") else fmt)
    if fmt == "csv":
        os.mkdir(case.path("t_csv"))
    bystander = case.path("t_csv/other.csv") if fmt == "csv" else case.path("other." + ext)
    with open(bystander, "w") as h:
        h.write("mine")
    p = files.write(case, fmt, fct, fct.TicDat(**gen.tic_args(s, old)))
    if fmt == "sql":
        con = sqlite3.connect(p)
        con.execute("create table other_table (x)")
        con.execute("insert into other_table values (1)")
        con.commit()
        con.close()
    elif fmt != "csv" and rng.random() < .4:               # longer than anything that will be written
        with open(p, "ab") as h:
            h.write(b"tail " * 20000)
    files.write(case, fmt, fct, dat, allow_overwrite=True)
    p2 = files.write(case, fmt, fct, dat, tag="fresh")
    if fmt == "sql":
        d, d2 = db_dump(p), db_dump(p2)
        case.eq(d.pop("other_table", None), ["(1,)"], "a table that is not in the schema")
        case.eq({t: sorted(v) for t, v in d.items()}, {t: sorted(v) for t, v in d2.items()}, "database contents")
    elif fmt == "csv":
        a, b = tree(p), tree(p2)
        a.pop("other.csv")
        case.eq(a, b, "csv files")
    elif fmt.startswith("json") or fmt == "sql text":
        with open(p) as x, open(p2) as y:
            case.eq(x.read(), y.read(), "file contents")
    back, fresh = files.read(fmt, fct, p), files.read(fmt, fct, p2)
    case.eq(gen.canon_rows(gen.tic_rows(s, back)), gen.canon_rows(gen.tic_rows(s, fresh)), "data read back", key="old data left")
    with open(bystander) as h:
        case.eq(h.read(), "mine", "an unrelated file")
    case.count("replaced " + fmt)
    if any(rows.values()) and any(old.values()):
        case.nontrivial(fmt, s.sig(), rows, old)


# ------------------------------------------------------------------ write errors
class limit(object):
    """no file may grow beyond n bytes: write(2) fails with EFBIG"""
    def __init__(self, n):
        self.n = n
    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))
    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def biggest(p):
    if os.path.isfile(p):
        return os.path.getsize(p)
    return max(os.path.getsize(os.path.join(p, x)) for x in os.listdir(p))


def same_workbook(a, b):
    import zipfile
    def content(p):
        with zipfile.ZipFile(p) as z:
            return {n: z.read(n) for n in z.namelist() if n != "docProps/core.xml"}     # z.read verifies the checksums
    try:
        return content(a) == content(b)
    except Exception:
        return False


def reported(case, kind, fmt, io, fct, dat, size_path, again=None):
    rng = case.rng
    size = biggest(size_path)
    n = rng.choice([0, rng.randint(0, size - 1), rng.randint(0, size - 1), size - 1])
    case.info.update(limit=n, size=size)
    raised = None
    with limit(n):
        try:
            p = io.write(case, fmt, fct, dat, tag="full")
        except Exception as e:
            raised = e
    case.count("monitor_checks")
    if raised is None and same_workbook(p, size_path):     # workbooks carry the time of day: a few bytes more or less
        raise Skip("the second workbook fits")
    if raised is None:
        case.fail("%s %s: writing %d bytes with room for %d raised nothing" % (kind, fmt, size, n), key="silent: %s %s" % (kind, fmt))
    case.count("faults")
    case.count("fault " + fmt)


@reg.scenario(quick=400, thorough=5000, needs=("faults",) + tuple("fault " + f for f in TIC))
def ticdat_write_errors(case):
    """a TicDat writer that runs out of room raises"""
    fmt = case.rng.choice(TIC)
    s, rows, fct, dat = tic_case(case, fmt, flag=0, n=(1, 40))
    p = files.write(case, fmt, fct, dat)
    if biggest(p) == 0:
        raise Skip("nothing to write")
    reported(case, "TicDat", fmt, files, fct, dat, p)
    if not fmt.startswith("sql"):                          # with room again the same call succeeds
        q = files.write(case, fmt, fct, dat, tag="full", allow_overwrite=True)
        case.eq(gen.canon_rows(gen.tic_rows(s, files.read(fmt, fct, q))), gen.canon_rows(gen.tic_rows(s, files.read(fmt, fct, p))),
                "data written after the failure")
    case.nontrivial(fmt, s.sig(), rows, case.info.get("limit"))


@reg.scenario(quick=400, thorough=5000, needs=("faults",) + tuple("fault " + f for f in PAN if "string" not in f))
def pandat_write_errors(case):
    """a PanDat writer that runs out of room raises"""
    fmt = case.rng.choice([f for f in PAN if "string" not in f])
    s, rows, fct, dat = pan_case(case, fmt, generic=0)
    if fmt in ("json columns", "json index"):
        for t in s.tables:
            getattr(dat, t).reset_index(drop=True, inplace=True)
    p = pf.write(case, fmt, fct, dat)
    if biggest(p) == 0:
        raise Skip("nothing to write")
    if pf.base(fmt) == "sql" and not any(rows.values()):
        raise Skip("no rows")
    reported(case, "PanDat", fmt, pf, fct, dat, p)
    case.nontrivial(fmt, s.sig(), rows, case.info.get("limit"))


@reg.scenario(quick=120, thorough=1000, needs=("bad places", "too long"))
def impossible_targets(case):
    """missing directories, directories in place of files and files in place of directories, cells the format can not hold"""
    import ticdat
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    fct = (ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)(t=[["a"], ["b"]], u=[[], ["c"]])
    make = fct.TicDat if kind == "tic" else fct.PanDat
    if rng.random() < .35 and kind == "tic":
        fmt = rng.choice(["xls", "xlsx"])
        n = rng.choice([32767, 32768, 40000])
        text = "q" * n
        dat = make(t=[["k", text]], u=[["x"]]) if rng.random() < .5 else make(t=[[text, "z"]], u=[])
        case.describe(fmt=fmt, length=n)
        try:
            p = files.write(case, fmt, fct, dat)
        except Exception:
            case.check(n > 32767, "text of %d characters refused" % n)
        else:
            back = files.read(fmt, fct, p)
            case.eq([tuple(map(len, map(str, r))) for r in gen.tic_rows(gen.Schema({"t": (("a",), ("b",))}), back)["t"]],
                    [tuple(map(len, map(str, r))) for r in gen.tic_rows(gen.Schema({"t": (("a",), ("b",))}), dat)["t"]],
                    "lengths of the text read back", key="text cut silently")
        case.count("too long")
        case.nontrivial(fmt, n)
        return
    dat = make(t=[["k", 1]], u=[["x"]])
    fmt = rng.choice(["json", "csv", "sql", "xlsx"] + (["xls", "sql text"] if kind == "tic" else []))
    how = rng.choice(["missing", "occupied"])
    if how == "missing":
        base = case.path("no_such/dir")
    else:
        base = case.path("there")
        ext = {"sql": ".db", "sql text": ".sql"}.get(fmt, "." + fmt)
        if fmt == "csv":
            with open(base + "_csv", "w") as h:
                h.write("x")
        else:
            os.mkdir(base + ext)
    case.describe(kind=kind, fmt=fmt, how=how)
    before = tree(case.tmp)
    with case.must_raise("%s %s: %s target" % (kind, fmt, how)):
        (files if kind == "tic" else pf).write(case, fmt, fct, dat, tag=os.path.relpath(base, case.tmp))
    case.eq(tree(case.tmp), before, "files")
    case.count("bad places")
    case.nontrivial(kind, fmt, how)
