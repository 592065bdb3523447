"""C32: generator tables stream the same rows as ordinary tables, every time."""
import collections, os, threading
from ..core import Registry, Skip
from .. import gen, ref, files
from . import c24
from .c23 import tree

reg = Registry()
reg.rule = ("random schemas with keyless tables, some declared as generator tables; sources are lists, functions and files written without ticdat; "
            "every pass is compared row by row with the rows of the source and with an ordinary twin; schedules interleave several "
            "open passes with abandoned passes, edits of yielded rows, copies, writes and threads; distinct by (source, schema, schedule)")
reg.assumptions = ["a function used as source yields the same rows whenever it is called, and the source is not edited during its passes",
                   "JSON, SQL text and PostgreSQL readers document that they do not support generator tables"]


def base(case, n=(0, 7), need=True, names=None):
    """(schema without generators, the tables to make generators)"""
    rng = case.rng
    s = gen.schema(rng, tables=(1, 4), no_pk=.75, **({"table_names": names} if names else {}))
    free = [t for t in s.normal() if not s.pks(t)]
    if not free:
        raise Skip("no keyless table")
    for t in s.normal():
        for f in s.dfs(t):
            if rng.random() < .25:
                s.defaults[t, f] = rng.choice([5, 2.5, -1, "dflt", None])
    gens = rng.sample(free, rng.randint(1, len(free)))
    return s, gens


def with_gens(s, gens):
    import copy
    r = copy.copy(s)
    r.generators = list(gens)
    return r


class Source(object):
    """a callable counting its calls and the rows drawn from it"""
    def __init__(self, rows, kind):
        self.rows, self.kind, self.calls, self.drawn = rows, kind, 0, 0
    def __call__(self):
        self.calls += 1
        if self.kind == "list":
            return list(self.rows)
        if self.kind == "iterator":
            return iter(self.rows)
        return self.go()
    def go(self):
        for r in self.rows:
            self.drawn += 1
            yield r


def a_row(rng, s, t, r):
    """the row in one of the accepted shapes, and what it means"""
    f = s.dfs(t)
    k = rng.random()
    if len(f) == 1 and k < .2:
        return r[0], r
    if k < .4:
        return tuple(r), r
    if k < .6:
        return list(r), r
    d = dict(zip(f, r))
    if rng.random() < .5:
        drop = rng.sample(f, rng.randint(0, len(f) - 1)) if len(f) > 1 else []
        for x in drop:
            del d[x]
        return d, tuple(d.get(x, s.default(t, x)) for x in f)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items), r


def exact(rows, s, t):
    return [tuple((type(r[f]).__name__, repr(r[f])) for f in s.dfs(t)) for r in rows]


def wanted(rows):
    return [tuple((type(x).__name__, repr(x)) for x in r) for r in rows]


def full(case, what, dat, s, t, want, mess=True):
    """one whole pass"""
    rng = case.rng
    got = []
    for row in getattr(dat, t)():
        got.append(row)
        case.count("rows_streamed")
    case.count("full_passes")
    case.eq(exact(got, s, t), want, "%s: a pass over generator table %s" % (what, t))
    for row in got:
        case.check(sorted(row) == sorted(s.dfs(t)), "%s: fields of a row of %s: %r" % (what, t, list(row)))
    if mess and got and rng.random() < .5:
        row, f = rng.choice(got), rng.choice(s.dfs(t))
        row[f] = "edited"
        case.count("edits_of_yielded_rows")


def schedule(case, what, dat, s, wants, others, threads=True):
    """random interleavings of passes"""
    rng = case.rng
    open_ = []
    before = others()
    trace = []
    for _ in range(rng.randint(4, 40)):
        k = rng.random()
        t = rng.choice(list(wants))
        if k < .3 or not open_:
            open_.append([t, iter(getattr(dat, t)()), 0, rng.random() < .3])
            case.count("passes_opened")
            trace.append(t)
        elif k < .85:
            o = rng.choice(open_)
            trace.append(open_.index(o))
            try:
                row = next(o[1])
            except StopIteration:
                case.eq(o[2], len(wants[o[0]]), "%s: rows in an interleaved pass over %s" % (what, o[0]))
                open_.remove(o)
                case.count("interleaved_passes_finished")
                continue
            case.check(o[2] < len(wants[o[0]]), lambda: "%s: an interleaved pass over %s yields more than %d rows" % (what, o[0], len(wants[o[0]])))
            case.eq(exact([row], s, o[0])[0], wants[o[0]][o[2]], "%s: row %d of an interleaved pass over %s" % (what, o[2], o[0]))
            case.count("interleaved_rows")
            o[2] += 1
            if o[3]:
                row[rng.choice(s.dfs(o[0]))] = "edited"
                case.count("edits_of_yielded_rows")
        elif k < .92:
            full(case, what, dat, s, t, wants[t])
            trace.append("full " + t)
        else:
            o = rng.choice(open_)
            open_.remove(o)
            if rng.random() < .5:
                o[1].close()
            case.count("passes_abandoned")
            trace.append("drop")
    if threads and rng.random() < .3:
        res = {}
        bar = threading.Barrier(3)
        def work(i, t):
            bar.wait()
            try:
                res[i] = exact(getattr(dat, t)(), s, t)
            except Exception as e:
                res[i] = "raised %s: %s" % (type(e).__name__, e)
        ts = [rng.choice(list(wants)) for _ in range(3)]
        th = [threading.Thread(target=work, args=(i, t)) for i, t in enumerate(ts)]
        [x.start() for x in th]
        [x.join() for x in th]
        for i, t in enumerate(ts):
            case.eq(res[i], wants[t], "%s: a pass over %s in a thread" % (what, t))
            case.count("thread_passes")
    for o in open_:
        case.eq(exact(list(o[1]), s, o[0]), wants[o[0]][o[2]:], "%s: the rest of a pass over %s" % (what, o[0]))
    for t in wants:
        full(case, what, dat, s, t, wants[t])
    case.eq(others(), before, "%s: the other tables after passes over the generator tables" % what)
    return trace


def other_tables(s, dat, gens):
    return lambda: repr([(t, getattr(dat, t)) for t in s.normal() if t not in gens])


@reg.scenario(quick=500, thorough=6000, needs=["interleaved_rows", "passes_abandoned", "thread_passes", "copies", "frozen", "empty_generators"])
def in_memory(case):
    """from lists, tuples, sets, functions, other tables; in every row shape"""
    rng = case.rng
    s, gens = base(case)
    g = with_gens(s, gens)
    fct = g.build(__import__("ticdat").TicDatFactory)
    case.eq(set(fct.generator_tables), set(gens), "generator_tables")
    rows = gen.rows(rng, s)
    args, wants, raw = {}, {}, {}
    for t in s.normal():
        if t not in gens:
            args.update({k: v for k, v in gen.tic_args(s, rows).items() if k == t})
            continue
        if rng.random() < .15:
            rows[t] = []
        shaped = [a_row(rng, s, t, r) for r in rows[t]]
        raw[t] = [x for x, _ in shaped]
        wants[t] = wanted([w for _, w in shaped])
        k = rng.choice(["list", "tuple", "deque", "function", "list function", "iterator function", "method", "table"])
        if k == "table":
            import ticdat
            twin = ticdat.TicDatFactory(**{t: [[], list(s.dfs(t))]})
            for f in s.dfs(t):
                if (t, f) in s.defaults:
                    twin.set_default_value(t, f, s.defaults[t, f])
            td = twin.TicDat(**{t: raw[t]}) if raw[t] else twin.TicDat()
            args[t] = getattr(td, t)
        else:
            args[t] = {"list": lambda: raw[t], "tuple": lambda: tuple(raw[t]), "deque": lambda: collections.deque(raw[t]),
                       "function": lambda: Source(raw[t], "gen").__call__, "list function": lambda: Source(raw[t], "list"),
                       "iterator function": lambda: Source(raw[t], "iterator"), "method": lambda: Source(raw[t], "gen").go}[k]()
        case.count("source_" + k.replace(" ", "_"))
        if rng.random() < .1:
            args.pop(t)
            wants[t] = []
    keep = repr(raw)
    case.describe(schema=repr(g), args=repr(args)[:800])
    dat = fct.TicDat(**args)
    case.check(all(callable(getattr(dat, t)) for t in gens), "generator tables are not callables")
    if any(not w for w in wants.values()):
        case.count("empty_generators")
    case.eq(fct.good_tic_dat_object(dat), True, "good_tic_dat_object")
    k = rng.random()
    what = "built"
    if k < .2:
        dat, what = fct.copy_tic_dat(dat), "copied"
        case.count("copies")
    elif k < .3:
        dat, what = fct.copy_tic_dat(dat, freeze_it=True), "copied and frozen"
        case.count("copies")
        case.count("frozen")
    elif k < .4:
        dat, what = fct.freeze_me(dat), "frozen"
        case.count("frozen")
    elif k < .5:
        dat, what = fct.TicDat(**{t: getattr(dat, t) for t in s.normal()}), "built from tables"
    tr = schedule(case, what, dat, s, wants, other_tables(s, dat, gens))
    case.eq(repr(raw), keep, "the source of the rows after the passes")
    case.nontrivial(s.sig(), tuple(sorted(wants.items(), key=repr)), tr)
    case.sample(dict(schema=repr(g), schedule=tr[:12]))


@reg.scenario(quick=200, thorough=2500, needs=["rejections_observed"])
def bad_sources(case):
    """what an ordinary table refuses, a generator table refuses too, and keyed tables can't be generator tables"""
    rng = case.rng
    import ticdat
    s, gens = base(case)
    fct = with_gens(s, gens).build(ticdat.TicDatFactory)
    t = rng.choice(gens)
    f = s.dfs(t)
    rows = [list(r) for r in gen.rows(rng, s, n=(1, 4))[t]]
    if not rows:
        raise Skip("no rows")
    bad = rng.choice(["long", "field", "scalar", "iterator", "number", "text"] + (["short"] if len(f) > 1 else []))
    i = rng.randint(0, len(rows))
    if bad in ("iterator", "number", "text"):
        src = {"iterator": iter(rows), "number": 7, "text": "ab"}[bad]
    else:
        rows.insert(i, {"long": list(range(len(f) + 1)), "short": list(range(len(f) - 1)), "field": {"no such field": 1},
                        "scalar": 5 if len(f) > 1 else (1, 2)}[bad])
        src = rows if rng.random() < .5 else Source(rows, "gen")
    if bad not in ("iterator",):
        with case.must_raise("ordinary table %s of %r built from %r (%s)" % (t, f, src, bad)):
            twin = s.build(ticdat.TicDatFactory).TicDat(**{t: rows if isinstance(src, Source) else src})
    with case.must_raise("generator table %s of %r built from %s (%s)" % (t, f, rows, bad)):
        dat = fct.TicDat(**{t: src})
        list(getattr(dat, t)())
    keyed = [x for x in s.normal() if s.pks(x)]
    if keyed:
        with case.must_raise("keyed table as generator table"):
            s.build(ticdat.TicDatFactory).set_generator_tables([rng.choice(keyed)] + (gens if rng.random() < .5 else []))
    case.nontrivial(bad, s.sig(), repr(rows))


@reg.scenario(quick=350, thorough=3500, needs=["interleaved_rows", "passes_abandoned", "absent_tables", "rows_streamed", "twin_passes"])
def from_files(case):
    """read from csv, SQLite, xls and xlsx sources written without ticdat, against an ordinary twin"""
    rng = case.rng
    import ticdat
    fmt = rng.choice(["csv", "sql", "xls", "xlsx"])
    s, gens = base(case)
    if rng.random() < .6:
        for t in s.normal():
            for f in s.dfs(t):
                if rng.random() < .5:
                    s.types[t, f] = gen.type_spec(rng)
                    s.defaults.pop((t, f), None)
    rows = c24.content(case, s)
    kinds = ["2020-01-02", "2021-03-04 05:06:07", "7", "1.5", "", "abc", "true", "1e3"]
    for t in gens:
        for r in range(len(rows[t])):
            row = [rng.choice(kinds) if rng.random() < .25 else x for x in rows[t][r]]
            if r == len(rows[t]) - 1 and all(x == "" for x in row):
                row[0] = "end"
            if fmt == "csv" and row == [""]:
                row = ["x"]
            rows[t][r] = tuple(row)
    src = c24.arrange(case, "tic", fmt, s, rows)
    absent = [t for t in gens if rng.random() < .15]
    if absent and len(absent) < len(src):
        case.count("absent_tables", len(absent))
        for t in absent:
            del src[t]
    else:
        absent = []
    tables = list(src.values())
    rng.shuffle(tables)
    headers = True
    if fmt in ("csv", "xls", "xlsx") and rng.random() < .2 and all([c.lower() for c in x.cols] == [c.lower() for c in s.fields(t)] for t, x in src.items()) \
            and all(x.rows for x in tables):
        headers = False
        for x in tables:
            x.cols, x.rows = x.rows[0], x.rows[1:]
    offsets = {}
    if fmt in ("xls", "xlsx") and rng.random() < (.3 if headers else .6):
        for t, x in src.items():
            if rng.random() < .6:
                offsets[t] = rng.randint(1, 3)
                lead = [["lead %d %d" % (i, j) for j in range(len(x.cols))] for i in range(offsets[t])]
                x.rows, x.cols = lead[1:] + [x.cols] + x.rows, lead[0]
    p = c24.put(case, "tic", fmt, tables)
    kw = {}
    if fmt != "sql":
        if not headers:
            kw["headers_present"] = False
    if fmt in ("xls", "xlsx"):
        kw["treat_inf_as_infinity"] = False
        if offsets:
            kw["row_offsets"] = offsets
    if fmt == "csv":
        kw.update(files.recode(case, p))
    case.describe(fmt=fmt, schema=repr(s), gens=gens, tables=repr(tables)[:1500], kw=kw)
    rd = lambda f: getattr(f, {"csv": "csv", "sql": "sql"}.get(fmt, "xls")).create_tic_dat(p, **kw)
    try:
        twin = rd(s.build(ticdat.TicDatFactory))
    except Exception as e:
        raise Skip("ordinary tables can't be read: %s" % e)
    before = tree(case.tmp)
    dat = rd(with_gens(s, gens).build(ticdat.TicDatFactory))
    wants = {}
    for t in gens:
        wants[t] = exact(getattr(twin, t), s, t)
        case.count("twin_passes")
        n = 0 if t in absent else len(rows[t])
        case.eq(len(wants[t]), n, "%s: rows of the ordinary table %s" % (fmt, t))
    others = other_tables(s, dat, gens)
    case.eq(others(), other_tables(s, twin, gens)(), "%s: the other tables" % fmt)
    cheap = fmt in ("csv", "sql") or rng.random() < .3
    if cheap:
        tr = schedule(case, fmt, dat, s, wants, others)
    else:
        tr = []
        for t in gens:
            full(case, fmt, dat, s, t, wants[t])
            full(case, fmt, dat, s, t, wants[t])
    case.eq(tree(case.tmp), before, "%s: the source after the passes" % fmt)
    case.nontrivial(fmt, s.sig(), repr(rows), tr)
    case.sample(dict(fmt=fmt, schema=repr(s), gens=gens, schedule=tr[:10]))


@reg.scenario(quick=250, thorough=2500, needs=["written_rows"])
def incomplete(case):
    """a source lacking a field of a generator table is refused, at the latest by the first pass"""
    rng = case.rng
    import ticdat
    fmt = rng.choice(["csv", "sql", "xls", "xlsx"])
    s, gens = base(case)
    t = rng.choice(gens)
    rows = c24.content(case, s, n=(1, 4))
    f = rng.choice(s.dfs(t))
    tables = []
    for x in s.normal():
        cols = [c for c in s.fields(x) if (x, c) != (t, f)]
        keep = [i for i, c in enumerate(s.fields(x)) if (x, c) != (t, f)]
        rr = [[r[i] for i in keep] for r in rows[x]]
        if x == t:
            cols.append("other")
            rr = [r + ["v"] for r in rr]
        tables.append(c24.Table(x, cols, rr))
    p = c24.put(case, "tic", fmt, tables)
    case.count("written_rows", len(rows[t]))
    case.describe(fmt=fmt, schema=repr(s), gens=gens, missing=(t, f))
    fct = with_gens(s, gens).build(ticdat.TicDatFactory)
    kw = {"treat_inf_as_infinity": False} if fmt in ("xls", "xlsx") else {}
    with case.must_raise("%s without field %s of generator table %s" % (fmt, f, t)):
        dat = getattr(fct, {"csv": "csv", "sql": "sql"}.get(fmt, "xls")).create_tic_dat(p, **kw)
        list(getattr(dat, t)())
    case.nontrivial(fmt, s.sig(), f)


@reg.scenario(quick=300, thorough=3000, needs=["files_compared", "open_passes_over_writes"])
def writers(case):
    """what the writers write for generator tables is what they write for ordinary tables"""
    rng = case.rng
    import ticdat
    fmt = rng.choice(["csv", "sql", "sql text", "xls", "xlsx"])
    s, gens = base(case)
    g = with_gens(s, gens)
    rows = {t: [tuple(r) for r in v] for t, v in c24.content(case, s, n=(0, 8)).items()}
    fct, ord_ = g.build(ticdat.TicDatFactory), s.build(ticdat.TicDatFactory)
    args = gen.tic_args(s, rows)
    twin = ord_.TicDat(**args)
    for t in gens:
        args[t] = Source(rows[t], rng.choice(["gen", "list", "iterator"])) if rng.random() < .7 else list(rows[t])
    dat = fct.TicDat(**args)
    wants = {t: wanted(rows[t]) for t in gens}
    t = rng.choice(gens)
    it = iter(getattr(dat, t)())
    k = rng.randint(0, len(rows[t]))
    for _ in range(k):
        next(it)
    kw = {}
    if rng.random() < .4:
        kw["allow_overwrite"] = True
    case.describe(fmt=fmt, schema=repr(g), rows=repr(rows)[:800])
    a = files.write(case, fmt, fct, dat, "a", **kw)
    b = files.write(case, fmt, ord_, twin, "b")
    case.eq(exact(list(it), s, t), wants[t][k:], "%s: the rest of a pass open during the writing" % fmt)
    case.count("open_passes_over_writes")
    if fmt in ("csv", "sql text"):
        case.eq(list(tree(a).values()) if fmt == "csv" else open(a).read(),
                list(tree(b).values()) if fmt == "csv" else open(b).read(), "%s: the files written" % fmt)
    x, y = files.read(fmt, ord_, a), files.read(fmt, ord_, b)
    for t in s.normal():
        gx, gy = (repr(getattr(z, t)) for z in (x, y))
        case.eq(gx, gy, "%s: table %s written from %s" % (fmt, t, "a generator" if t in gens else "an ordinary table"))
    case.eq([len(getattr(x, t)) for t in gens], [len(rows[t]) for t in gens], "%s: number of rows written" % fmt)
    case.count("files_compared")
    for t in gens:
        full(case, fmt, dat, s, t, wants[t])
    case.nontrivial(fmt, s.sig(), repr(rows))


@reg.scenario(quick=160, thorough=1500, needs=["written_back"])
def written_back(case):
    """data whose generator tables stream from a file is written over that very file"""
    rng = case.rng
    import ticdat
    fmt = rng.choice(["csv", "sql", "xls", "xlsx"])
    s, gens = base(case)
    rows = {t: [tuple(r) for r in v] for t, v in c24.content(case, s, n=(0, 8)).items()}
    ord_, fct = s.build(ticdat.TicDatFactory), with_gens(s, gens).build(ticdat.TicDatFactory)
    p = files.write(case, fmt, ord_, ord_.TicDat(**gen.tic_args(s, rows)), "a")
    want = {t: repr(getattr(files.read(fmt, ord_, p), t)) for t in s.normal()}
    case.describe(fmt=fmt, schema=repr(s), gens=gens, rows=repr(rows)[:800])
    for i in range(rng.randint(1, 2)):
        dat = files.read(fmt, fct, p)
        try:
            files.write(case, fmt, fct, dat, "a", allow_overwrite=True)
        except Exception as e:
            case.count("refused")
            case.info["refused"] = repr(e)
        got = files.read(fmt, ord_, p)
        case.eq({t: repr(getattr(got, t)) for t in s.normal()}, want, "%s: written over its own source" % fmt)
        case.count("written_back")
    case.nontrivial(fmt, s.sig(), repr(rows))


@reg.scenario(quick=250, thorough=2500, needs=["fk_answers", "generator_parents", "refused_operations"])
def other_operations(case):
    """checks on the data give the answers they give for the ordinary twin"""
    rng = case.rng
    import ticdat
    s = gen.fk_schema(rng)
    free = [t for t in s.normal() if not s.pks(t)]
    if not free or not s.fks:
        raise Skip("no keyless table or no foreign key")
    gens = rng.sample(free, rng.randint(1, len(free)))
    rows = gen.fk_data(rng, s)
    ord_, fct = s.build(ticdat.TicDatFactory), with_gens(s, gens).build(ticdat.TicDatFactory)
    args = gen.tic_args(s, rows)
    twin = ord_.TicDat(**args)
    for t in gens:
        if rng.random() < .6:
            args[t] = Source(rows[t], "gen")
    dat = fct.TicDat(**args)
    case.describe(schema=repr(s), gens=gens, rows=repr(rows)[:1000])
    norm = lambda x: sorted((repr(k), sorted(map(repr, v.native_values)), sorted(map(repr, v.native_pks))) for k, v in x.items())
    case.eq(norm(fct.find_foreign_key_failures(dat)), norm(ord_.find_foreign_key_failures(twin)), "foreign key failures")
    case.count("fk_answers")
    if any(fk[1] in gens for fk in s.fks):
        case.count("generator_parents")
    wants = {t: wanted(rows[t]) for t in gens}
    for t in gens:
        full(case, "after the checks", dat, s, t, wants[t], mess=False)
    case.eq({x: set(y.native_pks) for x, y in fct.find_foreign_key_failures(dat).items()},
            {x: set(y.native_pks) for x, y in ord_.find_foreign_key_failures(twin).items()}, "foreign key failures, again")
    bad = any(k.native_table in gens for k in fct.find_foreign_key_failures(dat))
    if not bad and not any(k.foreign_table in gens or k.native_table in gens for k in fct.foreign_keys):
        a = fct.remove_foreign_key_failures(fct.copy_tic_dat(dat))
        b = ord_.remove_foreign_key_failures(ord_.copy_tic_dat(twin))
        for t in s.normal():
            if t not in gens:
                case.eq(repr(getattr(a, t)), repr(getattr(b, t)), "remaining rows of %s" % t)
    for name, op in (("json", lambda: fct.json.write_file(dat, case.path("x.json"))), ("obfusimplify", lambda: fct.obfusimplify(dat))):
        try:
            op()
        except ticdat.utils.TicDatError:
            case.count("refused_operations")
            continue
        except Exception as e:
            case.fail("%s of generator tables: %s: %s" % (name, type(e).__name__, e))
        case.fail("%s of generator tables is accepted" % name)
    for t in gens:
        full(case, "after refused operations", dat, s, t, wants[t])
    df = fct.copy_to_pandas(dat, reset_index=True)
    d2 = ord_.copy_to_pandas(twin, reset_index=True)
    for t in s.normal():
        if t not in gens:
            case.check(getattr(df, t).equals(getattr(d2, t)), "copy_to_pandas of %s" % t)
    case.nontrivial(s.sig(), repr(rows), tuple(gens))
