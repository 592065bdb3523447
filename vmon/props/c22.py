"""C22: infinity flagging is applied symmetrically and only where it should be."""
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf
from .c04 import tic_snap, pan_snap
from .c11 import param_schema, declaration

reg = Registry()
reg.rule = ("numbers at, around and beyond the flag and both infinities, in key and data fields of typed and untyped, keyed and keyless "
            "tables and in parameters; each file is read by a factory without flag (what does the file hold?) and by one with the flag "
            "(what comes back?); distinct by (format, flag, schema, rows)")
reg.assumptions = ["with flag None, infinity in a field that flagging does not apply to is only judged in formats that carry it "
                   "(documented caveat of the SQLite and Excel readers)",
                   "tables declared with '*': judged by what comes back (and, for TicDat, by what the files hold); with None they are not judged"]
INF = gen.INF
TIC, PAN = files.TIC_FORMATS, [f for f in pf.FORMATS if f not in ("json columns", "json index")]


def c_inf(o, flag):
    """what reading with a numeric flag makes of a cell"""
    if o[0] == "num":
        return ("num", INF) if o[1] >= flag else ("num", -INF) if o[1] <= -flag else o
    return o


def number(rng, flag, integral, p_inf=.3):
    if rng.random() < p_inf:
        return rng.choice([INF, -INF])
    flag = 1000 if flag in (None, "N/A") else flag
    v = rng.choice([flag, -flag, flag + 1, flag - 1, -flag - 1, 1 - flag, flag * 2, -flag * 3, flag / 2, 0, 1, -2, rng.randint(-9, 9),
                    rng.uniform(-5, 5)])
    return int(v) if integral else v if isinstance(v, int) else round(v, 6)


def num_type(rng):
    """(declared type, bias): number types, infinity allowed or not"""
    r = rng.random()
    if r < .3:
        return dict(number_allowed=True, min=0, max=INF, inclusive_min=True, inclusive_max=True, nullable=False), 1
    if r < .45:
        return dict(number_allowed=True, min=-INF, max=10, inclusive_min=True, inclusive_max=False, nullable=False), -1
    if r < .55:
        return dict(number_allowed=True, min=-5, max=INF, inclusive_min=True, inclusive_max=True, nullable=False,
                    strings_allowed="*" if rng.random() < .5 else ["a", "bc"]), 1
    if r < .7:
        return dict(number_allowed=True, min=0, max=INF, inclusive_min=True, inclusive_max=True, nullable=True), None
    if r < .8:
        return dict(number_allowed=True, min=-INF, max=INF, inclusive_min=True, inclusive_max=True, nullable=True), None
    return dict(number_allowed=True, min=-5, max=rng.choice([7, INF]), inclusive_min=True, inclusive_max=False, nullable=rng.random() < .4), None


def make(case, kind, fmt, flag):
    rng = case.rng
    s = gen.schema(rng, tables=(1, 3), no_pk=.3, no_name=True)
    if rng.random() < .3:
        s.tables["parameters"] = (("Name",), ("Value",))
        for p in ("cap", "low", "txt", "both"):
            s.params[p] = {"cap": (INF, dict(min=0, max=INF, inclusive_max=True)), "low": (3, dict(min=-INF, max=INF, inclusive_min=True)),
                           "txt": ("x", dict(number_allowed=False, strings_allowed="*")), "both": (0, dict(strings_allowed="*",
                                                                                                       inclusive_max=True))}[p]
    bias = {}
    kinds = {}
    for t in s.normal():
        if t == "parameters":
            continue
        for f in s.fields(t):
            r = rng.random()
            if r < .6:
                s.types[t, f], bias[t, f] = num_type(rng)
                kinds[t, f] = "num"
            elif r < .75:
                s.types[t, f] = dict(number_allowed=False, strings_allowed="*", nullable=False)
                kinds[t, f] = "text"
            else:
                kinds[t, f] = "num"
    rows = {}
    b = fmt if kind == "tic" else pf.base(fmt)
    carries_inf = b.startswith("json") or b == "csv" or (kind == "pan" and b == "sql") or flag == "N/A"
    for t in s.normal():
        if t == "parameters":
            rows[t] = [(p, v) for p, v in (("cap", rng.choice([INF, 5, 2000000])), ("low", rng.choice([-INF, INF, 0, -2000000])),
                                           ("txt", rng.choice(["x", "inf!", "12"])), ("both", rng.choice([INF, 4, "q"])))
                       if rng.random() < .8]
            continue
        out, seen = [], set()
        ints = {f: rng.random() < .4 for f in s.fields(t)}
        for _ in range(rng.randint(0, 6)):
            r = []
            for f in s.fields(t):
                kw = s.types.get((t, f))
                if kinds[t, f] == "text":
                    v = rng.choice(["a", "inf", "k%d" % rng.randint(0, 9), "x y"])
                    if v == "inf" and not b.startswith("json"):
                        v = "infinite"
                elif flag is None:
                    v = number(rng, flag, ints[f], 0)
                    x = rng.random()
                    if bias.get((t, f)) and x < .3:
                        v = INF * bias[t, f]
                    elif x < .45 and f in s.dfs(t) and (kw is None or kw.get("nullable") or bias.get((t, f))):
                        v = None
                    elif x < .55 and carries_inf and kw is not None:
                        v = rng.choice([INF, -INF])
                else:
                    v = number(rng, flag, ints[f])
                    if kw and kw.get("nullable") and f in s.dfs(t) and rng.random() < .15:
                        v = None
                if kw and kw.get("strings_allowed") and kinds[t, f] == "num" and rng.random() < .2:
                    v = rng.choice(["a", "bc"])
                    case.count("text_among_numbers")
                r.append(v)
            k = tuple(str(ref.canon(on_file(s, fmt, flag, bias, t, f, v))) for f, v in zip(s.pks(t), r))
            if s.pks(t) and k in seen:
                continue
            if b in ("xls", "xlsx") and all(ref.is_null(on_file(s, fmt, flag, bias, t, f, v)) for f, v in zip(s.fields(t), r)):
                continue                                   # blank rows at the end of a sheet are pruned
            seen.add(k)
            out.append(tuple(r))
        rows[t] = out
    case.describe(kind=kind, fmt=fmt, flag=flag, schema=s, rows=rows)
    return s, bias, rows


def on_file(s, fmt, flag, bias, t, f, v):
    """the value the file is to hold"""
    if t == "parameters" or not ref.is_num(v):
        return v
    if ref.is_num(flag):
        return flag if v >= flag else -flag if v <= -flag else v
    if flag is None and bias.get((t, f)) and v == INF * bias[t, f]:
        return None
    return v


def cells(kind, fmt, s, t, f, v):
    rtn = files.expected(fmt, s, t, f, v) if kind == "tic" else pf.want(fmt, s, t, f, v)
    if kind == "tic" and fmt == "csv" and ref.is_num(v) and (t, f) not in s.types:
        rtn = rtn | {("str", str(v)), ("str", str(float(v)))} if f in s.pks(t) else rtn
    return rtn


def near(kind, fmt, a, o):
    return files.close(fmt, a, o) if kind == "tic" else pf.near(fmt, a, o)


def compare(case, kind, fmt, s, got, want, what):
    """want: {table: rows of sets of acceptable cells}; matched without regard to row order for keyed tables"""
    for t in s.normal():
        left = list(got[t])
        case.eq(len(left), len(want[t]), "%s: rows of %s" % (what, t))
        for r in want[t]:
            i = next((i for i, m in enumerate(left) if all(any(near(kind, fmt, ref.canon(a), o) for o in ok) for a, ok in zip(m, r))), None)
            if i is None:
                case.fail("%s: table %s fields %s types %s: no row for %r among %r" % (
                    what, t, s.fields(t), [s.types.get((t, f)) for f in s.fields(t)], r, left))
            left.pop(i)
            case.count("cells_compared", len(r))
            case.count("monitor_checks")


def p_cell(kind, fmt, v):
    return {ref.canon(v)} | ({ref.canon(files.to_float(v))} if isinstance(v, str) and files.to_float(v) is not None else set())


def factories(case, s, kind, flag):
    """writing/reading factory with the flag (possibly after a history of other flags), reading factory without"""
    import ticdat
    rng = case.rng
    cls = ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory
    s.inf_flag = "N/A"
    fct, bare = s.build(cls), s.build(cls)
    hist = rng.random() < .3
    if hist:
        for _ in range(rng.randint(1, 3)):
            x = rng.choice([None, 5, 77.5, "N/A"])
            fct.set_infinity_io_flag(x)
            if rng.random() < .5:                       # use it, so that anything cached would be cached
                d = fct.TicDat() if kind == "tic" else fct.PanDat()
                try:
                    fct.json.write_file(d, "")
                except Exception:
                    pass
        case.count("flag_history")
    fct.set_infinity_io_flag(flag)
    if rng.random() < .25 and not s.params:
        fct = fct.clone()
        case.count("cloned")
    return fct, bare


def go(case, kind, fmt, flag):
    rng = case.rng
    s, bias, rows = make(case, kind, fmt, flag)
    fct, bare = factories(case, s, kind, flag)
    io = files if kind == "tic" else pf
    if kind == "tic":
        dat = fct.TicDat(**gen.tic_args(s, rows))
        snap, snapf = tic_snap(s, dat), tic_snap
        rd = gen.tic_rows
    else:
        dat = fct.PanDat(**gen.pan_args(s, rows, dtype_object=rng.random() < .4))
        if rng.random() < .3:
            for t in s.normal():
                df = getattr(dat, t)
                if len(df):
                    df.index = rng.choice([[7] * len(df), ["r%d" % i for i in range(len(df))]])
        snap, snapf = pan_snap(s, dat), pan_snap
        rd = gen.pan_rows
    p = io.write(case, fmt, fct, dat)
    case.eq(snapf(s, dat), snap, "writing altered the object")
    held = {t: [tuple(on_file(s, fmt, flag, bias, t, f, v) for f, v in zip(s.fields(t), r)) for r in rows[t]] for t in rows}
    wf = {t: [[p_cell(kind, fmt, v) if t == "parameters" else cells(kind, fmt, s, t, f, v) for f, v in zip(s.fields(t), r)]
              for r in held[t]] for t in rows}
    compare(case, kind, fmt, s, rd(s, io.read(fmt, bare, p)), wf, "%s %s flag %s: what the file holds" % (kind, fmt, flag))
    wb = {}
    for t in rows:
        wb[t] = []
        for r, h in zip(rows[t], held[t]):
            out = []
            for f, v, x in zip(s.fields(t), r, h):
                if t == "parameters":
                    out.append(p_cell(kind, fmt, v))
                elif ref.is_num(flag):
                    out.append({c_inf(o, flag) for o in cells(kind, fmt, s, t, f, x)})
                elif flag is None and bias.get((t, f)) and ref.is_null(x):
                    out.append({("num", INF * bias[t, f])})
                    case.count("null_read_as_infinity")
                else:
                    out.append(cells(kind, fmt, s, t, f, x))
                if t != "parameters" and ref.is_num(v) and abs(v) == INF:
                    case.count("infinities")
                    case.count("infinite_keys" if f in s.pks(t) else "infinite_data")
                    if not s.pks(t):
                        case.count("infinite_keyless")
                elif t == "parameters" and ref.is_num(v) and abs(v) == INF:
                    case.count("infinite_parameters")
            wb[t].append(out)
    compare(case, kind, fmt, s, rd(s, io.read(fmt, fct, p)), wb, "%s %s flag %s: read back" % (kind, fmt, flag))
    case.count("fmt " + fmt)
    if any(rows.values()):
        case.nontrivial(kind, fmt, flag, s.sig(), rows)
    case.sample(dict(kind=kind, fmt=fmt, flag=flag, schema=s, rows=rows))


def a_flag(rng):
    return rng.choice([1000, 999999, 50.5, 10 ** 9, 12])


NEEDS = ("infinities", "text_among_numbers", "infinite_keys", "infinite_data", "infinite_keyless", "infinite_parameters", "flag_history")


@reg.scenario(quick=900, thorough=12000, needs=NEEDS + tuple("fmt " + f for f in TIC))
def ticdat_numeric(case):
    """numeric flag, TicDat formats"""
    go(case, "tic", case.rng.choice(TIC), a_flag(case.rng))


@reg.scenario(quick=900, thorough=12000, needs=NEEDS + tuple("fmt " + f for f in PAN))
def pandat_numeric(case):
    """numeric flag, PanDat formats"""
    go(case, "pan", case.rng.choice(PAN), a_flag(case.rng))


@reg.scenario(quick=900, thorough=12000, needs=NEEDS + ("null_read_as_infinity",) + tuple("fmt " + f for f in TIC))
def ticdat_none(case):
    """flag None, TicDat formats"""
    go(case, "tic", case.rng.choice(TIC), None)


@reg.scenario(quick=900, thorough=12000, needs=NEEDS + ("null_read_as_infinity",) + tuple("fmt " + f for f in PAN))
def pandat_none(case):
    """flag None, PanDat formats"""
    go(case, "pan", case.rng.choice(PAN), None)


@reg.scenario(quick=300, thorough=4000, needs=("infinities",))
def no_flag(case):
    """N/A: nothing is converted"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    go(case, kind, rng.choice(TIC if kind == "tic" else PAN), "N/A")


@reg.scenario(quick=200, thorough=2000, needs=("naive", "both_infinities"))
def corners(case):
    """a parameters table without declared parameters is never flagged; None can not flag a field that allows both infinities"""
    import ticdat
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    cls = ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory
    io = files if kind == "tic" else pf
    fmt = rng.choice(["json", "csv"])
    if rng.random() < .6:
        fct = cls(parameters=[["Name"], ["Value"]], t=[["a"], ["b"]])
        flag = a_flag(rng)
        fct.set_infinity_io_flag(flag)
        rows = [("p%d" % i, number(rng, flag, False)) for i in range(rng.randint(1, 4))]
        case.describe(kind=kind, fmt=fmt, flag=flag, rows=rows)
        a = dict(parameters=[list(r) for r in rows], t=[["k", INF]])
        dat = fct.TicDat(**a) if kind == "tic" else fct.PanDat(**a)
        back = io.read(fmt, fct, io.write(case, fmt, fct, dat))
        got = {k: v["Value"] for k, v in back.parameters.items()} if kind == "tic" else dict(back.parameters.values.tolist())
        case.eq({k: ref.canon(v) for k, v in got.items()}, {k: ref.canon(v) for k, v in rows}, "parameters read back")
        case.eq(float(back.t["k"]["b"] if kind == "tic" else back.t["b"].iloc[0]), INF, "other table")
        case.count("naive")
        case.nontrivial(kind, fmt, flag, rows)
    else:
        fct = cls(t=[["a"], ["b"]])
        fct.set_data_type("t", "b", min=-INF, max=INF, inclusive_min=True, inclusive_max=True)
        fct.set_infinity_io_flag(None)
        dat = fct.TicDat(t=[["k", INF]]) if kind == "tic" else fct.PanDat(t=[["k", INF]])
        with case.must_raise("writing with flag None and a field that allows both infinities and no null"):
            io.write(case, fmt, fct, dat)
        case.count("both_infinities")
        case.nontrivial(kind, fmt)


@reg.scenario(quick=350, thorough=4000, needs=("texts", "tic xls", "tic xlsx", "tic sql", "tic csv", "tic json", "pan xlsx", "pan csv", "pan sql"))
def infinite_text(case):
    """while a flag is in use, text that spells infinity or the flag is ordinary text"""
    import ticdat
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    fmt = rng.choice(["xls", "xlsx", "sql", "csv", "json"] if kind == "tic" else ["xlsx", "sql", "csv", "json"])
    flag = rng.choice([None, 1000, 12, 50.5, 999999])
    s = gen.Schema({"t": (("k",), ("x", "n")), "u": ((), ("x", "n"))})
    typed = {t: kind == "pan" or fmt == "csv" or rng.random() < .5 for t in s.tables}
    for t in s.tables:
        if typed[t]:
            s.types[t, "x"] = dict(number_allowed=False, strings_allowed="*", nullable=False)
        s.types[t, "n"] = dict(number_allowed=True, min=0, max=INF, inclusive_min=True, inclusive_max=True, nullable=False)
    s.types["t", "k"] = dict(number_allowed=False, strings_allowed="*", nullable=False)
    words = ["inf", "-inf", "Inf", "-INF", "a", "infinity"] + (["nan inf", "+inf"] if fmt != "csv" or kind == "tic" else [])
    if any(typed.values()) and all(typed.values()) and kind == "tic" and fmt in ("csv", "json", "sql"):
        words += ["1000", "-1000", "12", "1e3"]
    keys = rng.sample(words, rng.randint(1, min(4, len(words))))
    num = lambda: rng.choice([INF, 0, 3, 7.5])
    rows = {"t": [(k, rng.choice(words), num()) for k in keys], "u": [(rng.choice(words), num()) for _ in range(rng.randint(1, 4))]}
    case.describe(kind=kind, fmt=fmt, flag=flag, typed=typed, rows=rows)
    fct = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
    fct.set_infinity_io_flag(flag)
    io = files if kind == "tic" else pf
    dat = fct.TicDat(**gen.tic_args(s, rows)) if kind == "tic" else fct.PanDat(**gen.pan_args(s, rows))
    back = io.read(fmt, fct, io.write(case, fmt, fct, dat))
    got = gen.tic_rows(s, back) if kind == "tic" else gen.pan_rows(s, back)
    for t in rows:
        case.eq(sorted([tuple(map(ref.canon, r)) for r in got[t]], key=repr), sorted([tuple(map(ref.canon, r)) for r in rows[t]], key=repr),
                "%s %s flag %s: table %s read back" % (kind, fmt, flag, t))
        case.count("texts", len(rows[t]))
    case.count(kind + " " + fmt)
    case.nontrivial(kind, fmt, flag, repr(typed), repr(rows))


@reg.scenario(quick=250, thorough=3000, needs=("infinities", "beyond", "tic csv", "tic sql", "tic xlsx", "tic xls", "pan csv", "pan sql", "pan xlsx"))
def generic_tables(case):
    """tables declared with '*': infinities survive a round trip whatever the flag, a numeric flag (TicDat) is what their files hold"""
    import ticdat
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    fmt = rng.choice(["csv", "sql", "xlsx", "xls"] if kind == "tic" else ["csv", "sql", "xlsx"])
    flag = rng.choice([12, 1000, 50.5, "N/A"]) if fmt != "xls" else rng.choice([12, 1000, 50.5])
    cls = ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory
    fct, bare = [cls(t=[["k"], ["v"]], g="*") for _ in range(2)]
    fct.set_infinity_io_flag(flag)
    n = rng.randint(1, 6)
    cols = {"c%d" % i: rng.choice(["float", "int", "text", "mixed"]) for i in range(rng.randint(1, 4))}
    big = 1000 if flag == "N/A" else flag
    fl = lambda: rng.choice([INF, -INF, 2.5, big + .5, -big - 1., float(big), 0., big - .5])
    it = lambda: rng.choice([0, 3, int(big) + 5, -int(big) - 1, int(big) - 1])
    txt = lambda: rng.choice(["a", "b c", "zz"])
    mk = dict(float=fl, int=it, text=txt, mixed=lambda: rng.choice([fl, it, txt])())
    rows = [tuple(mk[k]() for k in cols.values()) for _ in range(n)]
    trows = [("k%d" % i, fl()) for i in range(rng.randint(0, 3))]
    case.describe(kind=kind, fmt=fmt, flag=flag, cols=cols, rows=rows, t=trows)
    df = pd.DataFrame(rows, columns=list(cols))
    dat = (fct.TicDat if kind == "tic" else fct.PanDat)(t=[list(r) for r in trows], g=df)
    io = files if kind == "tic" else pf
    p = io.write(case, fmt, fct, dat)
    mixed = [f in ("mixed", ) and kind + fmt != "ticsql" for f in cols.values()]

    def check(got, want, what):
        case.eq([str(c) for c in got.columns], list(cols), what + ": columns")
        case.eq(len(got), n, what + ": rows")
        for r, w in zip(got.values.tolist(), want):
            for c, x, y in zip(cols, r, w):
                if cols[c] == "mixed" and fmt == "csv" and isinstance(x, str) and files.to_float(x) is not None:
                    x = float(x)                       # text beside numbers in a csv column: pandas makes no numbers
                if not any(near(kind, fmt, ref.canon(x), ref.canon(o)) for o in (y if isinstance(y, list) else [y])):
                    if cols[c] == "mixed" and isinstance(x, str) and files.to_float(x) is not None and any(files.to_float(x) == o for o in (y if isinstance(y, list) else [y])):
                        continue
                    case.fail("%s: field %s of a %s column: %r, wanted %r (rows %r)" % (what, c, cols[c], x, y, got.values.tolist()))
                case.count("monitor_checks")
    hit = lambda v: ref.is_num(v) and flag != "N/A" and abs(v) >= flag
    back = io.read(fmt, fct, p).g
    if kind == "tic":
        check(back, [[INF * (1 if v > 0 else -1) if hit(v) else v for v in r] for r in rows], "tic %s flag %s: read back" % (fmt, flag))
        if flag != "N/A":
            check(io.read(fmt, bare, p).g, [[flag * (1 if v > 0 else -1) if hit(v) else v for v in r] for r in rows],
                  "tic %s flag %s: what the file holds" % (fmt, flag))
    else:
        check(back, [[[v, INF * (1 if v > 0 else -1)] if hit(v) else v for v in r] for r in rows], "pan %s flag %s: read back" % (fmt, flag))
    case.count("infinities", sum(ref.is_num(v) and abs(v) == INF for r in rows for v in r))
    case.count("beyond", sum(hit(v) and abs(v) != INF for r in rows for v in r))
    case.count(kind + " " + fmt)
    case.nontrivial(kind, fmt, flag, repr(cols), repr(rows))
