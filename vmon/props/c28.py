"""C28: standard_main runs the whole pipeline faithfully."""
import collections, contextlib, io, os, re, sys
from ..core import Registry, Skip
from .. import gen, ref
from .c07 import low
from .c09 import Pred, Maker
from .c23 import tree

reg = Registry()
reg.rule = ("random schemas with data types, foreign keys, row predicates and parameters, random data with and without faults, every "
            "input, output and error file format, command lines spelled in every way; the monitor records every call of solve (with "
            "the rows it was given) and hashes every file before and after; distinct by command line, schema and rows")
reg.assumptions = ["the rows of the input are those the format's own reader returns (that they are the rows of the file is C15-C18, C20)",
                   "duplicates in a TicDat input stop the run with an error instead of the report (TicDat objects can not hold them)",
                   "null and nan are the same missing value in the report; numbers may be reported as equal numbers of another type",
                   "a row predicate that raises stops the run (the documented __debug__ behaviour)",
                   "there is no Foresta server here: dspotconnect is replaced by a recorder"]

TIC_IN = [".json", ".xlsx", ".xls", ".db", ".sql", ""]
PAN_IN = [".json", ".xlsx", ".db", ""]
NOISE = {"native_field", "foreign_field"}
ERR = [".json", ".json", ".xlsx", ".db", ""]
POOLS = [["a", "b", "c"], ["p q", "ñ", "z", "x-1", "y"], [1, 2, 3], [1, 2, 3, 4, 5, 6], [1.5, 2, 7.25], ["a", "b", 1, 2, 3.5], list(range(12))]


def schema(rng, generic=.12):
    s = gen.schema(rng, tables=(1, 4), dfs=(0, 3), pks=(1, 3), no_pk=0.2, no_name=True,
                   field_names=rng.choice([["a", "b", "c", "d", "e f"], gen.FIELD_NAMES]))
    if rng.random() < .6:
        gen.add_fks(rng, s)
    fkf = {(t, f) for nt, ft, mp in s.fks for a, b in mp for t, f in ((nt, a), (ft, b))}
    data = gen.fk_data(rng, s, null=0, pool=rng.choice(POOLS), n=(0, 8))
    for t in s.normal():
        n = len(s.pks(t))
        for i, r in enumerate(data[t]):
            data[t][i] = r[:n] + tuple(None if (t, f) not in fkf and rng.random() < .06 else v for f, v in zip(s.dfs(t), r[n:]))
    for t in s.normal():
        for f in s.fields(t):
            if rng.random() < .4:
                s.types[t, f] = gen.type_spec(rng, False)
    if rng.random() < generic:
        s.tables["generic_one"] = '*'
    return s, data


def build(s, cls, preds):
    fct = s.build(cls)
    for (t, n), p in preds.items():
        fct.add_data_row_predicate(t, getattr(p, "given", p), predicate_name=n, predicate_kwargs_maker=p.maker.given if p.maker else None, predicate_failure_response=p.response)
    return fct


def predicates(rng, s, kind):
    makers = [m for m in (Maker(rng, None) for _ in range(2)) if m.kind != "raise"]
    rtn = {}
    for t in s.normal():
        for i in range(rng.choice([0, 0, 1, 2]) if t not in s.generators else 0):   # documented: none for generators
            p = Pred(rng, s, t, "p%d" % i, rng.choice(makers) if makers and rng.random() < .4 else None)
            p.p_raise = 0
            if rng.random() < .2:
                f = rng.choice(s.fields(t))
                p = NotNull(p, f, kind)
            rtn[t, "p%d" % i] = p
    return rtn


class NotNull(object):
    """a typical predicate: the field is there"""
    def __init__(self, p, f, kind):
        self.p, self.f, self.kind = p, f, kind
        self.maker, self.response = None, "Boolean"
    def outcome(self, key, kw):
        return ("bad" if key[self.p.fields.index(self.f)] == ref.canon(None) else "ok"), 0
    def __call__(self, row):
        return row[self.f] is not None if self.kind == "tic" else not ref.is_null(row[self.f])
    def __repr__(self):
        return "NotNull(%r)" % self.f


# ---- the report, computed from the rows
def ident(s, t, r):
    return tuple(cell(x) for x in (r[:len(s.pks(t))] if s.pks(t) else r))


def cell(x):
    """report cells survive files as numbers or as their text"""
    if ref.is_null(x) or (isinstance(x, str) and x in ("", "None", "nan")):
        return None
    try:
        return round(float(x), 9)
    except (TypeError, ValueError):
        return str(x)


def width(s):
    return max([len(s.pks(t) or s.dfs(t)) for t in s.normal()] or [0])


def report(s, data, preds):
    w = width(s)
    pad = lambda i: i + (None,) * (w - len(i))
    out = {k: collections.Counter() for k in ("duplicate_rows", "data_type_failures", "data_row_failures", "foreign_key_failures")}
    for t in s.normal():
        if s.pks(t):
            cnt = collections.Counter(tuple(map(ref.canon, r[:len(s.pks(t))])) for r in data[t])
            for r in data[t]:
                k = tuple(map(ref.canon, r[:len(s.pks(t))]))
                if cnt[k] > 1:
                    cnt[k] -= 1
                    out["duplicate_rows"][(t,) + pad(ident(s, t, r))] += 1
    for (t, f), bad in ref.type_failures(s, data).items():
        for n in bad:
            out["data_type_failures"][(t, f) + pad(ident(s, t, data[t][n]))] += 1
    for fk, bad in ref.fk_failures(s, data).items():
        nt, ft, mp = low(fk)
        for n in bad:
            out["foreign_key_failures"][(nt, ft, str(mp)) + pad(ident(s, nt, data[nt][n]))] += 1
    for (t, name), p in preds.items():
        kw = p.maker.result() if p.maker else {}
        if not isinstance(kw, dict):
            out["data_row_failures"][(t, name, "*") + (None,) * w] += 1
            continue
        for r in data[t]:
            what, x = p.outcome(tuple(map(ref.canon, r)), kw)
            if what == "bad":
                out["data_row_failures"][(t, name, x if p.response == "Error Message" else None) + pad(ident(s, t, r))] += 1
    if s.params and "parameters" in data:
        for r in data["parameters"]:
            if r[0] not in s.params or not ref.valid(s.params[r[0]][1], r[1]):
                out["data_row_failures"][("parameters", "Good Name/Value Check", None) + pad(ident(s, "parameters", r))] += 1
    return out


def err_factory(s):
    import ticdat
    f = ["Field %d" % (i + 1) for i in range(width(s))]
    return ticdat.PanDatFactory(duplicate_rows=[["Table Name"] + f, []], data_type_failures=[["Table Name", "Field Name"] + f, []],
                                data_row_failures=[["Table Name", "Predicate Name", "Error Message"] + f, []],
                                foreign_key_failures=[["Native Table", "Foreign Table", "Mapping"] + f, []])


def read_any(fct, kind, p):
    """what the format's own reader makes of a file"""
    name = "create_pan_dat" if kind == "pan" else "create_tic_dat"
    if p.endswith(".json"):
        return getattr(fct.json, name)(p)
    if p.endswith((".xls", ".xlsx")):
        return getattr(fct.xls, name)(p)
    if p.endswith(".db"):
        return getattr(fct.sql, name)(p)
    if p.endswith(".sql"):
        return fct.sql.create_tic_dat_from_sql(p)
    return getattr(fct.csv, name)(p)


def write_any(fct, kind, dat, p, pretty=None):
    kw = {"allow_overwrite": True} if kind == "tic" else {}
    space = {} if pretty is None else {"case_space_table_names": pretty}
    if p.endswith(".json"):
        fct.json.write_file(dat, p, **kw)
    elif p.endswith((".xls", ".xlsx")):
        fct.xls.write_file(dat, p, **kw, **({} if pretty is None else {"case_space_sheet_names": pretty}))
    elif p.endswith(".db"):
        fct.sql.write_db_data(dat, p, **kw) if kind == "tic" else fct.sql.write_file(dat, p, **space)
    elif p.endswith(".sql"):
        fct.sql.write_sql_file(dat, p)
    else:
        fct.csv.write_directory(dat, p, **kw, **space)


def rows_of(s, kind, dat):
    return gen.tic_rows(s, dat) if kind == "tic" else gen.pan_rows(s, dat)


def make_dat(rng, s, fct, kind, data):
    if kind == "tic":
        return fct.TicDat(**gen.tic_args(s, data))
    args = gen.pan_args(s, data)
    for t in args:      # the columns of a file can come in any order, and there can be more of them
        if rng.random() < .3:
            args[t] = args[t][rng.sample(list(args[t].columns), len(args[t].columns))]
        if rng.random() < .2 and s.tables[t] != '*':
            args[t] = args[t].assign(**{"zz extra": range(len(args[t]))})
    for t, v in s.tables.items():
        if v == '*':
            import pandas as pd
            args[t] = pd.DataFrame({"g": [1, 2]})
    return fct.PanDat(**args)


def argv(rng, pairs):
    """the same options in any spelling and order"""
    short = {"input": "-i", "output": "-o", "errors": "-e", "foresta": "-f"}
    out = []
    pairs = list(pairs.items())
    rng.shuffle(pairs)
    for k, v in pairs:
        style = rng.choice(["long", "long=", "short", "joined", "prefix"])
        out += {"long": ["--" + k, v], "long=": ["--%s=%s" % (k, v)], "short": [short[k], v], "joined": [short[k] + v],
                "prefix": ["--" + k[:rng.randint(1, len(k))], v]}[style]
    return ["engine.py"] + out


@contextlib.contextmanager
def running(case, args):
    old, cwd, out = sys.argv, os.getcwd(), io.StringIO()
    sys.argv = args
    os.chdir(case.tmp)
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        sys.argv = old
        os.chdir(cwd)


def canon(s, kind, dat):
    return gen.canon_rows(rows_of(s, kind, dat))


class Run(object):
    """an engine whose solve records what it is given and returns a prepared answer"""
    def __init__(self, case, kind, clean=False, faulty=True):
        import ticdat
        rng = case.rng
        self.case, self.kind = case, kind
        self.cls = ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory
        self.s, data = schema(rng)
        if kind == "tic" and rng.random() < .8:
            self.s.tables = collections.OrderedDict((t, v) for t, v in self.s.tables.items() if v != '*')
        if kind == "tic" and rng.random() < .15:
            self.s.generators = [t for t in self.s.normal() if not self.s.pks(t)]
        if rng.random() < .3:
            add_parameters(rng, self.s, data)
        self.preds = predicates(rng, self.s, kind)
        if kind == "pan" and not clean:
            for t in self.s.normal():       # duplicates
                for r in list(data[t]):
                    if self.s.pks(t) and rng.random() < .08:
                        data[t].insert(rng.randint(0, len(data[t])), r)
        self.data = data
        self.in_ext = rng.choice(TIC_IN if kind == "tic" else PAN_IN)
        while '*' in self.s.tables.values() and self.in_ext in (".json", ".sql"):     # can't hold generic tables
            self.in_ext = rng.choice(TIC_IN if kind == "tic" else PAN_IN)
        self.out_ext = rng.choice(TIC_IN if kind == "tic" else PAN_IN)
        if self.s.generators:       # the other formats refuse generator tables
            self.in_ext = rng.choice(["", ".db"])
        self.default_in, self.default_out = [self_ext == ".xlsx" and rng.random() < .4 for self_ext in (self.in_ext, self.out_ext)]
        where = rng.choice(["", case.tmp + os.sep, "." + os.sep]) if not self.s.generators else case.tmp + os.sep
        self.input = "input.xlsx" if self.default_in else where + "data in" * rng.randint(0, 1) + "x" + self.in_ext
        self.output = "output.xlsx" if self.default_out else where + "sub" * rng.randint(0, 1) + "y" + self.out_ext
        self.fct = build(self.s, self.cls, self.preds)
        self.dat = make_dat(rng, self.s, self.fct, kind, data)
        write_any(self.fct, kind, self.dat, self.abs(self.input))
        self.seen_by_reader = read_any(self.fct, kind, self.abs(self.input))
        self.rows = rows_of(self.s, kind, self.seen_by_reader)
        if clean:
            self.relax()
        # solution
        for _ in range(50):
            self.ss, sdata = schema(rng, generic=0)
            self.ss.types.clear()
            break
        self.sfct = self.ss.build(self.cls)
        self.sln = make_dat(rng, self.ss, self.sfct, kind, sdata)
        self.pretty = rng.choice([None, True, False])   # the same in every run of an engine
        self.had_output = rng.random() < .4
        if self.had_output:
            if self.out_ext == ".sql" or rng.random() < .8:
                other = gen.fk_data(rng, self.ss, null=0, pool=["old", 1, 2, 3], n=(0, 8))
                write_any(self.sfct, kind, make_dat(rng, self.ss, self.sfct, kind, other), self.abs(self.output), self.pretty)
            elif self.out_ext == "":
                os.mkdir(self.abs(self.output))
            else:
                self.had_output = False
        self.calls = []
        self.outcome = rng.choice(["sln", "sln", "sln", "message", "none", "message none", "false"])
        self.mutates = rng.random() < .3
        self.pair = rng.choice([tuple, tuple, list])

    def abs(self, p):
        return os.path.join(self.case.tmp, p)

    def relax(self, depth=0):
        """drop the rules the data breaks"""
        s = self.s
        bad = ref.type_failures(s, self.rows)
        for k in bad:
            if k in s.types:
                del s.types[k]
        s.fks = [fk for fk in s.fks if fk not in ref.fk_failures(s, self.rows)]
        rep = report(s, self.rows, self.preds)
        for p in {k[:2] for k in rep["data_row_failures"]}:
            if p in self.preds:
                del self.preds[p]
        self.fct = build(s, self.cls, self.preds)
        self.rows = rows_of(s, self.kind, read_any(self.fct, self.kind, self.abs(self.input)))   # types influence reading
        if any(report(s, self.rows, self.preds).values()) and depth < 5:
            self.relax(depth + 1)

    def solve(self, dat, *ignored):
        self.calls.append((dat, rows_of(self.s, self.kind, dat)))
        if self.mutates:
            t = self.s.normal()[0]
            if self.kind == "tic":
                if not callable(getattr(dat, t)):
                    getattr(dat, t).clear()
            else:
                setattr(dat, t, getattr(dat, t)[:0])
        pair = self.pair
        return {"sln": self.sln, "message": pair(("all is well", self.sln)), "none": None, "message none": pair(("infeasible", None)),
                "false": False}[self.outcome]

    def options(self):
        o = {}
        if not self.default_in:
            o["input"] = self.input
        if not self.default_out:
            o["output"] = self.output
        return o

    def go(self, args):
        import ticdat
        kw = {} if self.pretty is None else {"case_space_table_names": self.pretty}
        with running(self.case, args) as out:
            rtn = ticdat.standard_main(self.fct, self.sfct, self.solve, **kw)
        self.case.check(rtn is None, "standard_main returned %r" % (rtn,))
        return out.getvalue()

    def check_input_seen(self):
        c = self.case
        c.eq(len(self.calls), 1, "number of calls of solve")
        dat, rows = self.calls[0]
        good = self.fct.good_tic_dat_object if self.kind == "tic" else self.fct.good_pan_dat_object
        c.check(self.mutates or good(dat), "solve was given something that is no data object of the input schema")
        c.eq(gen.canon_rows(rows, order=self.kind == "pan"), gen.canon_rows(self.rows, order=self.kind == "pan"), "the data solve was given")
        c.count("solve_calls")

    def check_output(self, before, others=()):
        """the solution, the whole solution and nothing but the solution"""
        c, after = self.case, tree(self.case.tmp)
        name = os.path.normpath(os.path.relpath(self.abs(self.output), c.tmp))
        mine = lambda p: p == name or p.startswith(name + os.sep) or p == name + "/"
        skip = lambda p: mine(p) or any(p == o or p.startswith(o + os.sep) or p == o + "/" for o in others)
        c.eq({p: h for p, h in after.items() if not skip(p)}, {p: h for p, h in before.items() if not skip(p)}, "files other than the output")
        if self.outcome in ("sln", "message"):
            got = read_any(self.sfct, self.kind, self.abs(self.output))
            direct = self.abs("direct" + self.out_ext)
            write_any(self.sfct, self.kind, self.sln, direct)
            want = read_any(self.sfct, self.kind, direct)
            c.eq(canon(self.ss, self.kind, got), canon(self.ss, self.kind, want), "the solution written by standard_main")
            c.count("outputs_checked")
            c.count("rows_written", sum(map(len, rows_of(self.ss, self.kind, got).values())))
        else:
            c.eq({p: h for p, h in after.items() if mine(p)}, {p: h for p, h in before.items() if mine(p)}, "the output although nothing was solved")
            c.count("no_solution")


def add_parameters(rng, s, data):
    s.tables["parameters"] = (("Parameter",), ("Value",))
    s.params = collections.OrderedDict([("speed", (1, dict(min=0, max=10))), ("mode", ("a", dict(number_allowed=False, strings_allowed=["a", "b"]))),
                                        ("free", (0, None))])
    for k in [k for k in s.types if k[0] == "parameters"]:
        del s.types[k]
    pool = {"speed": [1, 2.5, 11, "fast"], "mode": ["a", "b", "c"], "free": [1, "x"], "what": [1]}
    names = rng.sample(["speed", "mode", "free"], rng.randint(0, 3)) + (["what"] if rng.random() < .2 else [])
    data["parameters"] = [(p, rng.choice(pool[p][:2] if rng.random() < .6 else pool[p])) for p in names]


def pipeline(case, kind):
    rng = case.rng
    r = Run(case, kind, clean=kind == "tic")
    before = tree(case.tmp)
    args = argv(rng, r.options())
    case.describe(argv=args, schema=r.s, data=r.data, outcome=r.outcome)
    r.go(args)
    r.check_input_seen()
    r.check_output(before)
    case.nontrivial(args, r.s.sig(), repr(r.data))
    case.sample(dict(argv=args, schema=r.s, data=r.data))
    case.count("in" + r.in_ext), case.count("out" + r.out_ext)


@reg.scenario(350, 4000, needs=("outputs_checked", "no_solution", "rows_written", "in", "out", "in.db", "in.sql", "out.xls"))
def tic_pipeline(case):
    """TicDat: read, solve once, write the solution"""
    pipeline(case, "tic")


@reg.scenario(250, 3000, needs=("outputs_checked", "no_solution", "rows_written", "in", "out", "in.db"))
def pan_pipeline(case):
    """PanDat: read, solve once, write the solution"""
    pipeline(case, "pan")


def errors(case, kind):
    rng = case.rng
    clean = rng.random() < .35
    r = Run(case, kind, clean=clean)
    ext = rng.choice(ERR)
    err = "errors" + ext
    if rng.random() < .3:      # the report of an earlier run
        f = err_factory(r.s)
        dat = f.PanDat(duplicate_rows=[["old"] + ["old"] * width(r.s)] * 3)
        write_any(f, "pan", dat, case.path(err), r.pretty)
    before = tree(case.tmp)
    args = argv(rng, dict(r.options(), errors=err))
    case.describe(argv=args, schema=r.s, data=r.data, outcome=r.outcome, preds=r.preds, clean=clean, rows=r.rows)
    for p in r.preds.values():
        if p.maker:
            p.maker.seen.clear()
    out = r.go(args)
    want = report(r.s, r.rows, r.preds)
    n = sum(sum(c.values()) for c in want.values())
    check_report(case, r, case.path(err), want)
    case.check(("%s data integrity error" % n) in out, "%s errors, but the run said %r" % (n, out))
    for p in r.preds.values():
        if p.maker:
            good = r.fct.good_tic_dat_object if kind == "tic" else r.fct.good_pan_dat_object
            case.check(all(map(good, p.maker.seen)), "a kwargs maker was given something that is no data object of the schema")
            case.count("maker_calls", len(p.maker.seen))
    if n:
        case.eq(r.calls if not r.calls else len(r.calls), [], "solve ran although there are errors")
        after = tree(case.tmp)
        case.eq({p: h for p, h in after.items() if not p.startswith("errors")}, {p: h for p, h in before.items() if not p.startswith("errors")},
                "files other than the report")
        case.count("reported", n)
        for k, c in want.items():
            case.count(k, sum(c.values()))
    else:
        r.check_input_seen()
        r.check_output(before, others=(err,))
        case.count("clean_runs")
    case.nontrivial(args, r.s.sig(), repr(r.rows))


def check_report(case, r, path, want):
    f = err_factory(r.s)
    got = read_any(f, "pan", path)
    for t, (pk, _) in sorted(f.schema().items()):
        df = getattr(got, t)
        rows = collections.Counter(tuple(cell(x) if i >= len(pk) - width(r.s) or c == "Error Message" else str(x) for i, (c, x) in enumerate(zip(pk, row)))
                                   for row in df[list(pk)].itertuples(index=False, name=None))
        w = want[t]
        if t == "data_row_failures":    # the text of a bulk failure is free
            bulk = {k[:2] for k in w if k[2] == "*"}
            rows = collections.Counter({(k[:2] + ("*",) + k[3:] if k[:2] in bulk and isinstance(k[2], str) else k): v for k, v in rows.items()})
        if t == "foreign_key_failures":   # the names in the mapping, however it is spelled
            short = lambda c: collections.Counter({k[:2] + (tuple(n for n in re.findall("'([^']*)'", k[2]) if n not in NOISE),) + k[3:]: v for k, v in c.items()})
            rows, w = short(rows), short(w)
        case.eq(sorted(rows.items(), key=repr), sorted(w.items(), key=repr), "the %s of the report" % t, key=t)


@reg.scenario(500, 6000, needs=("reported", "clean_runs", "data_type_failures", "foreign_key_failures", "data_row_failures", "maker_calls"))
def tic_errors(case):
    """TicDat: the error report is exact, and solve only runs on data without errors"""
    errors(case, "tic")


@reg.scenario(500, 6000, needs=("reported", "clean_runs", "duplicate_rows", "data_type_failures", "foreign_key_failures", "data_row_failures"))
def pan_errors(case):
    """PanDat: the error report is exact, and solve only runs on data without errors"""
    errors(case, "pan")


@reg.scenario(300, 3000, needs=("rejections_observed", "exits", "no_input", "duplicates", "bad_input"))
def refusals(case):
    """whatever stops the run (help, bad options, no input, unreadable or duplicated input, failing solve) stops it before anything is written"""
    import ticdat
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r = Run(case, kind, clean=True)
    r.mutates = False
    o = r.options()
    if rng.random() < .3 and not any(report(r.s, r.rows, r.preds).values()):
        o["errors"] = "errors" + rng.choice(ERR)
    mode = rng.choice(["help", "bad option", "no input", "raising solve", "bad input", "duplicates", "bad result", "engine"])
    case.describe(argv=o, mode=mode, schema=r.s, data=r.data)
    if mode == "no input":
        o["input"] = rng.choice(["nowhere.json", "nowhere", "x/y.xlsx", "nowhere.db"])
    if mode == "bad input":
        o["input"] = rng.choice(["bad.json", "bad.txt", "bad.csv", "bad_dir.json"])
        if o["input"] == "bad_dir.json":
            os.mkdir(case.path("bad_dir.json"))
        else:
            with open(case.path(o["input"]), "w") as f:
                f.write("no data, {")
    if mode == "duplicates":
        keyed = [t for t in r.s.normal() if r.s.pks(t) and r.rows[t]]
        if kind != "tic" or not keyed or '*' in r.s.tables.values() or r.s.generators:
            raise Skip("no duplicates possible")
        # the same tables without keys, so that the file can hold duplicates
        loose = gen.Schema({t: ((), r.s.fields(t)) for t in r.s.normal()})
        lf = loose.build(ticdat.TicDatFactory)
        rows = {t: list(r.rows[t]) for t in r.s.normal()}
        t = rng.choice(keyed)
        rows[t].insert(rng.randint(0, len(rows[t])), rng.choice(rows[t]))
        o["input"] = "dups" + rng.choice([".json", ".xlsx", ".xls", ".db", ""])
        write_any(lf, "tic", lf.TicDat(**gen.tic_args(loose, rows)), case.path(o["input"]))
    args = argv(rng, o)
    if mode == "help":
        args = args[:1] + rng.choice([["-h"], ["--help"], ["--he"]]) + args[1:]
    if mode == "bad option":
        args = args + [rng.choice(["--nonsense", "-x", "--input", "-o", "--solve=1"])]
    before = tree(case.tmp)
    def same(what, calls):
        skip = lambda d: {p: h for p, h in d.items() if not p.startswith("errors")}
        case.eq(skip(tree(case.tmp)), skip(before), "files after a run with " + what)
        case.eq(len(r.calls), calls, "calls of solve in a run with " + what)
    if mode in ("help", "bad option"):
        code = None
        try:
            r.go(args)
        except SystemExit as e:
            code = e.code
            case.count("exits")
        case.check(code in ((0, None) if mode == "help" else (2,)) and case.counters["exits"], "%s: exit code %r" % (mode, code))
        same(mode, 0)
    elif mode == "no input":
        out = r.go(args)
        case.check("not a valid input" in out, "nothing was said about the missing input: %r" % out)
        same(mode, 0)
        case.count("no_input")
    elif mode in ("bad input", "duplicates"):
        with case.must_raise(mode):
            r.go(args)
        same(mode, 0)
        case.count(mode.replace(" ", "_"))
    elif mode == "raising solve":
        class Boom(Exception):
            pass
        def solve(dat, _old=r.solve):
            _old(dat)
            raise Boom("no license")
        r.solve = solve
        with case.must_raise("an exception in solve", Boom):
            r.go(args)
        same(mode, 1)
    elif mode == "bad result":
        class Odd(object):
            def __bool__(self):
                raise ValueError("ambiguous")
        def solve(dat, _old=r.solve):
            _old(dat)
            return rng_result
        rng_result = rng.choice([Odd(), __import__("pandas").DataFrame({"a": [1, 2]}), object(), 5, {"t": 1}, ["not", "a", "solution"]])
        r.solve = solve
        with case.must_raise("a result that is no data object: %r" % (rng_result,)):
            r.go(args)
        same(mode, 1)
    else:
        other = ticdat.PanDatFactory if kind == "tic" else ticdat.TicDatFactory
        bad = rng.choice([(r.fct, other(t=[["a"], []]), r.solve), (other(t=[["a"], []]), r.sfct, r.solve), (r.fct, r.sfct, 3),
                          (r.fct, r.sfct, lambda: None), (None, r.sfct, r.solve), (r.fct, None, r.solve)])
        with case.must_raise("an engine made of %r" % (bad,)):
            with running(case, args):
                ticdat.standard_main(*bad)
        same(mode, 0)
    case.nontrivial(mode, args, r.s.sig())


class Foresta(object):
    """stands for dspotconnect and a Foresta server; keeps what it is told"""
    def __init__(self, run):
        self.run, self.log, self.polls, self.early = run, [], run.case.rng.randint(0, 4), 0
    def AppConnect(self, *args):
        outer = self
        outer.log.append(("connect",) + args)
        class Con(object):
            app_name = "app"
            def current_scenarios(self):
                return collections.defaultdict(lambda: "the scenario")
            def launch_solve(self, i):
                outer.log.append(("launch", i))
            def is_solving_underway(self, i):
                outer.polls -= 1
                outer.run.case.count("polls")
                return outer.polls >= 0
        return Con()
    def TicDatConnector(self, con, engine):
        outer = self
        outer.log.append(("engine", engine.input_schema is outer.run.fct, engine.solution_schema is outer.run.sfct))
        class Connector(object):
            def upload_input_dat(self, dat, **kw):
                outer.log.append(("upload", gen.canon_rows(rows_of(outer.run.s, outer.run.kind, dat)), kw))
                return "id7"
            def download_solution(self, i):
                outer.log.append(("download", i))
                if i == "id7" and outer.polls >= 0:     # nothing to download yet
                    outer.early += 1
                return {"sln": outer.run.sln, "message": outer.run.sln}.get(outer.run.outcome)
        return Connector()


@reg.scenario(120, 1200, needs=("foresta_runs", "outputs_checked", "polls"))
def foresta(case):
    """with a Foresta config file the run happens remotely: the input is uploaded once, the downloaded solution is what is written"""
    import ticdat
    import ticdat.utils as tu
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r = Run(case, kind, clean=True)
    mode = rng.choice([None, "upload and solve", "upload only", "download from scenario", "bad mode", "no token", "no file"])
    conf = dict(app_id="a1", server="s1", token="t1")
    if mode and mode not in ("no token", "no file"):
        conf["mode"] = mode
    if mode == "no token":
        del conf["token"]
    named = rng.random() < .5 or mode == "download from scenario"
    if named:
        conf["scenario"] = "my scenario"
    if mode != "no file":
        with open(case.path("foresta.conf"), "w") as f:
            __import__("json").dump(conf, f)
    before = tree(case.tmp)
    args = argv(rng, dict(r.options(), foresta="foresta.conf"))
    fake = Foresta(r)
    old, old_sleep = tu.dspotconnect, tu.time.sleep
    tu.dspotconnect = fake
    tu.time.sleep = lambda s: None
    try:
        if mode in ("bad mode", "no token"):
            with case.must_raise("a Foresta config with " + mode):
                r.go(args)
        else:
            r.go(args)
    finally:
        tu.dspotconnect, tu.time.sleep = old, old_sleep
    case.eq(len(r.calls), 0, "local calls of solve in a Foresta run")
    log = fake.log
    up = ("upload", gen.canon_rows(r.rows), {"scenario_name": "my scenario"} if named else {})
    if mode in ("bad mode", "no token", "no file"):
        case.eq([e for e in log if e[0] not in ("connect", "engine")], [], "what the server was asked to do")
        case.eq(tree(case.tmp), before, "files")
        return
    case.eq(log[:2], [("connect", "s1", "t1", "a1"), ("engine", True, True)], "connection")
    want = [up, ("launch", "id7"), ("download", "id7")] if mode in (None, "upload and solve") else [up] if mode == "upload only" else \
        [("download", "my scenario")]
    case.eq(log[2:], want, "what the server was asked to do")
    case.eq(fake.early, 0, "downloads of a solution although the solve is still underway")
    if mode == "upload only":
        case.eq(tree(case.tmp), before, "files after an upload")
    else:
        r.check_output(before)
    case.count("foresta_runs")
    case.nontrivial(args, mode, named)
