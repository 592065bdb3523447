"""C21: TicDat and PanDat give the same answers for the same data."""
import json
import pandas as pd
from ..core import Registry, Skip, digest
from .. import gen, ref, files, panfiles as pf
from .c05 import dtypes, reindex
from .c07 import plain
from .c09 import Pred

reg = Registry()
reg.rule = ("one schema, rule set and row list, held by a TicDat and by a PanDat (built independently or through copy_to_pandas / "
            "copy_to_tic_dat); every integrity answer is reduced to row positions and compared, and with a brute force reference; "
            "files written by either one are read by the other and compared with the rows written; distinct by (scenario, schema, rows)")
reg.assumptions = ["cells are compared by value: None and NaN, 1 and 1.0 are the same datum",
                   "files: only cells that both sides are documented to carry (see C15-C18, C20)",
                   "foreign key fields hold no nulls in the shared checks (null matching across column types is unspecified)"]


# ------------------------------------------------------------------ integrity answers
def a_schema(rng):
    s = gen.schema(rng, tables=(1, 4), pks=(1, 3), dfs=(0, 3), no_pk=.2, no_name=True,
                   field_names=rng.choice([["a", "b", "c", "d", "e f", "g"], gen.FIELD_NAMES]))
    if rng.random() < .8:
        gen.add_fks(rng, s, n=(1, 4))
    s.fks = [fk for fk in s.fks if len({b for _, b in fk[2]}) == len(fk[2])]
    fkf = {(nt, a) for nt, ft, mp in s.fks for a, _ in mp} | {(ft, b) for nt, ft, mp in s.fks for _, b in mp}
    for t in s.normal():
        for f in s.fields(t):
            if rng.random() < .5:
                s.types[t, f] = gen.type_spec(rng, datetime_ok=False)
    if rng.random() < .4:
        s.tables["parameters"] = (("Name",), ("Value",))
        for p in rng.sample(["speed", "mode", "It's", "p 5"], rng.randint(1, 4)):
            s.params[p] = rng.choice([(3, dict(min=0, max=10)), ("x", dict(number_allowed=False, strings_allowed=["x", "y"])),
                                      (1.5, dict(strings_allowed="*")), (0, None)])
    return s, fkf


def a_dataset(rng, s, fkf):
    data = gen.fk_data(rng, s, null=0, pool=rng.choice([["a", "b", "c"], [1, 2, 3], [1, 2.5, 3], ["a", "b", 1, 2]]))
    for t in s.normal():
        if t == "parameters":
            data[t] = [(p, rng.choice([1, "x", "zzz", 3.5, 11, "y"])) for p in list(s.params) + ["bogus"] if rng.random() < .6]
            continue
        rows = []
        for r in data[t]:
            r = list(r)
            for i, f in enumerate(s.fields(t)):
                if (t, f) not in fkf and f in s.dfs(t) and rng.random() < .6:
                    v = gen.near(rng, s.types.get((t, f)))
                    r[i] = v if not isinstance(v, bool) and not ref.is_dt(v) and not isinstance(v, complex) else 1
            rows.append(tuple(r))
        data[t] = rows
    return data


def positions(s, data, t, keys):
    """positions of the rows with these primary keys"""
    n = len(s.pks(t))
    by = {}
    for i, r in enumerate(data[t]):
        by[tuple(ref.canon(x) for x in r[:n])] = i
    return sorted(by[tuple(ref.canon(x) for x in (k if n > 1 else (k,)))] for k in keys)


def mask(flags):
    return [i for i, b in enumerate(flags) if b]


def tic_answers(s, data, fct, dat, names):
    ty, fk, pr = {}, {}, {}
    for k, v in fct.find_data_type_failures(dat).items():
        t, f = tuple(k)
        ty[t, f] = positions(s, data, t, v.pks) if s.pks(t) else sorted(v.pks)
    for k, v in fct.find_foreign_key_failures(dat).items():
        t = k.native_table
        fk[plain(k)] = positions(s, data, t, v.native_pks) if s.pks(t) else sorted(v.native_pks)
    for k, v in fct.find_data_row_failures(dat).items():
        t, n = tuple(k)
        keys = [getattr(x, "pk", x) if not isinstance(x, tuple) or hasattr(x, "pk") else x for x in v]
        if t == "parameters":
            pr[t, "parameters" if (t, n) not in names else n] = sorted(set(pr.get((t, "parameters"), ())) |
                                                                       set(positions(s, data, t, keys)))
        else:
            pr[t, n] = positions(s, data, t, keys) if s.pks(t) else sorted(keys)
    return ty, fk, pr


def pan_answers(s, fct, dat, names):
    ty = {tuple(k): mask(v) for k, v in fct.find_data_type_failures(dat, as_table=False).items()}
    fk = {plain(k): mask(v) for k, v in fct.find_foreign_key_failures(dat, as_table=False).items()}
    pr = {}
    for k, v in fct.find_data_row_failures(dat, as_table=False).items():
        t, n = tuple(k)
        n = "parameters" if t == "parameters" and (t, n) not in names else n
        pr[t, n] = sorted(set(pr.get((t, n), ())) | set(mask(v)))
    return ty, fk, pr


@reg.scenario(quick=1500, thorough=20000, needs=("type_failures", "fk_failures", "row_failures", "removed", "parameters",
                                                 "copy_to_pandas", "copy_to_tic_dat", "clone_to_other"))
def same_answers(case):
    """all integrity answers of a TicDat and of a PanDat of the same rows, and of brute force"""
    import ticdat
    rng = case.rng
    s, fkf = a_schema(rng)
    data = a_dataset(rng, s, fkf)
    case.describe(schema=s, data=data)
    tdf, pdf = s.build(ticdat.TicDatFactory), s.build(ticdat.PanDatFactory)
    preds = {}
    for t in s.normal():
        for i in range(rng.choice([0, 1, 1, 2])):
            p = Pred(rng, s, t, "p%d" % i)
            p.p_raise, p.response = 0, "Boolean"
            preds[t, "p%d" % i] = p
            for fct in (tdf, pdf):
                fct.add_data_row_predicate(t, p, predicate_name="p%d" % i)
    if rng.random() < .25:
        if rng.random() < .5:
            pdf = tdf.clone(clone_factory=ticdat.PanDatFactory)
        else:
            tdf = pdf.clone(clone_factory=ticdat.TicDatFactory)
        case.count("clone_to_other")
    how = rng.choice(["apart", "apart", "to_pandas", "to_tic"])
    if how == "to_tic":
        pan = pdf.PanDat(**gen.pan_args(s, data, dtype_object=True))
        tic = pdf.copy_to_tic_dat(pan)
        case.count("copy_to_tic_dat")
    else:
        tic = tdf.TicDat(**gen.tic_args(s, data))
        if how == "apart":
            pan = pdf.PanDat(**{t: dtypes(case, reindex(case, df), na=False) for t, df in gen.pan_args(s, data, dtype_object=rng.random() < .5).items()})
        else:
            pan = tdf.copy_to_pandas(tic, **rng.choice([dict(drop_pk_columns=False), dict(reset_index=True)]))
            case.count("copy_to_pandas")
    if not pdf.good_pan_dat_object(pan):
        case.fail("not a good PanDat")
    case.check(tdf.good_tic_dat_object(tic), "not a good TicDat")
    pdata = gen.pan_rows(s, pan)
    for t in s.normal():
        case.eq([tuple(map(ref.canon, r)) for r in pdata[t]], [tuple(map(ref.canon, r)) for r in data[t]], "rows of %s" % t)
    a, b = tic_answers(s, data, tdf, tic, preds), pan_answers(s, pdf, pan, preds)
    case.eq(a[0], b[0], "data type failures: TicDat / PanDat")
    case.eq(a[1], b[1], "foreign key failures: TicDat / PanDat")
    case.eq(a[0], ref.type_failures(s, data), "data type failures / reference")
    case.eq(a[1], ref.fk_failures(s, data), "foreign key failures / reference")
    # a predicate sees numpy floats where pandas widened the column; the hash of the row is taken over canonical cells
    case.eq(a[2], b[2], "row predicate failures: TicDat / PanDat")
    case.count("type_failures", len(a[0]))
    case.count("fk_failures", len(a[1]))
    case.count("row_failures", len(a[2]))
    if s.params:
        x, y = tdf.create_full_parameters_dict(tic), pdf.create_full_parameters_dict(pan)
        case.eq({k: ref.canon(v) for k, v in x.items()}, {k: ref.canon(v) for k, v in y.items()}, "full parameters")
        want = {p: dict(data["parameters"]).get(p, dv) for p, (dv, kw) in s.params.items()}
        case.eq({k: ref.canon(v) for k, v in x.items() if k in want}, {k: ref.canon(v) for k, v in want.items()}, "full parameters / reference")
        case.count("parameters")
    if s.fks:
        t2 = tdf.remove_foreign_key_failures(tdf.copy_tic_dat(tic))
        p2 = pdf.remove_foreign_key_failures(pdf.copy_pan_dat(pan))
        case.eq(gen.canon_rows(gen.tic_rows(s, t2), order=True), gen.canon_rows(gen.pan_rows(s, p2), order=True),
                "rows kept by remove_foreign_key_failures")
        if a[1]:
            case.count("removed")
    if not any(t == "parameters" for t in s.tables):
        t2 = tdf.replace_data_type_failures(tdf.copy_tic_dat(tic)) if replaceable(s) else None
        p2 = pdf.replace_data_type_failures(pdf.copy_pan_dat(pan)) if replaceable(s) else None
        if t2 is not None:
            x, y = gen.tic_rows(s, t2), gen.pan_rows(s, p2)
            for t in s.normal():
                n = len(s.pks(t))
                case.eq([[ref.canon(v) for v in r[n:]] for r in x[t]], [[ref.canon(v) for v in r[n:]] for r in y[t]],
                        "data fields of %s after replace_data_type_failures" % t)
            case.count("replaced")
    if a[0] or a[1] or a[2]:
        case.nontrivial(how, s.sig(), data)
    case.sample(dict(how=how, schema=s, data=data))


def replaceable(s):
    """every default a replacement would use is itself valid"""
    return all(ref.valid(kw, s.default(t, f)) for (t, f), kw in s.types.items() if f in s.dfs(t)) and \
        all(ref.valid(kw, None) or True for kw in s.types.values())


# ------------------------------------------------------------------ conversions
@reg.scenario(quick=700, thorough=9000, needs=("cells",))
def there_and_back(case):
    """TicDat -> pandas -> TicDat and PanDat -> TicDat -> PanDat, from either side, without loss"""
    import ticdat
    rng = case.rng
    s = gen.schema(rng, tables=(1, 4), no_pk=.25, no_name=True, generic=.1)
    data = gen.rows(rng, s)
    case.describe(schema=s, data=data)
    tdf, pdf = s.build(ticdat.TicDatFactory), s.build(ticdat.PanDatFactory)
    want = gen.canon_rows(data, order=True)
    gens = {t: pd.DataFrame({"a": [1, 2], "b c": ["x", None]}) for t, v in s.tables.items() if v == '*'}
    dat = tdf.TicDat(**gen.tic_args(s, data), **{t: g.copy() for t, g in gens.items()})
    for i in range(rng.randint(1, 3)):
        pan = tdf.copy_to_pandas(dat, **rng.choice([dict(drop_pk_columns=False), dict(reset_index=True), {}]))
        case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), want, "TicDat after copying")
        if not pdf.good_pan_dat_object(pan):                    # key fields live in the index only
            dat = tdf.TicDat(**{t: getattr(pan, t) for t in s.tables})
        else:
            case.eq(gen.canon_rows(gen.pan_rows(s, pan), order=True), want, "copy_to_pandas")
            pan2 = pdf.PanDat(**{t: getattr(pan, t) for t in s.tables}) if rng.random() < .5 else pdf.copy_pan_dat(pan)
            case.eq(gen.canon_rows(gen.pan_rows(s, pan2), order=True), want, "PanDat from it")
            dat = pdf.copy_to_tic_dat(pan2, freeze_it=rng.random() < .2)
        case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), want, "copy_to_tic_dat")
        case.check(tdf.good_tic_dat_object(dat), "not a good TicDat")
        for t, g in gens.items():
            case.eq([list(map(ref.canon, r)) for r in getattr(dat, t).itertuples(index=False)],
                    [list(map(ref.canon, r)) for r in g.itertuples(index=False)], "generic table")
    case.count("cells", sum(map(len, data.values())))
    if any(data.values()):
        case.nontrivial(s.sig(), data)


# ------------------------------------------------------------------ files
T2P = ["json", "json pandas", "csv", "csv spaces", "sql", "xls", "xlsx", "xlsx spaces"]
P2T = ["json", "json split", "json string", "csv", "csv pretty", "sql", "sql pretty", "xlsx", "xlsx pretty"]


def tbase(fmt):
    return fmt if fmt in ("xls", "json pandas") else pf.base(fmt)


def exchangeable(rng, s, fmt, rows):
    """drop what one of the two sides is documented not to carry"""
    b = tbase(fmt)
    out = {}
    for t, rs in rows.items():
        keep = []
        for r in rs:
            ok = True
            for f, v in zip(s.fields(t), r):
                kw = s.types.get((t, f))
                k = pf.kind(kw)
                if isinstance(v, bool) and b != "json":
                    ok = False
                if isinstance(v, str):
                    if v in pf.NA or not files.text_ok({"json pd": "json"}.get(b, b), v) or "\r" in v:
                        ok = False
                    if k in (None, "num", "none", "dt") and files.to_float(v) is not None:
                        ok = False
                    if k != "text" and v.strip().lower() in ("inf", "-inf", "nan", "infinity", "+inf", "true", "false"):
                        ok = False
                if ref.is_null(v) and b in ("csv", "xls") and k in ("text", "both"):
                    ok = False                              # '' and None: each side has its own documented rule
            if ok:
                keep.append(r)
        while keep and b in ("xls", "xlsx") and all(map(ref.is_null, keep[-1])):
            keep.pop()
        out[t] = keep
    return out


def acceptable(fmt, s, t, f, v, to):
    b = tbase(fmt)
    k = pf.kind(s.types.get((t, f)))
    if ref.is_null(v):
        rtn = {("null",)}
        if b in ("csv", "xls", "xlsx") and to == "tic" and not (s.types.get((t, f)) or {}).get("nullable"):
            rtn.add(("str", ""))                           # documented: empty cells are only None where null is allowed
        return rtn
    rtn = set(pf.want("csv" if b == "csv" else "json", s, t, f, v))
    if b == "csv" and to == "tic" and ref.is_num(v) and (k == "none" or k is None and (f in s.pks(t) or not ref.is_num(s.default(t, f)))):
        rtn |= {("str", str(v)), ("str", str(float(v)))}   # documented: untyped fields without a numeric default are read as text
    return rtn


def match(case, fmt, s, t, got, rows, to, what):
    if len(got) != len(rows):
        case.fail("%s: table %s: %d rows written, %d read\n  written %r\n  read    %r" % (what, t, len(rows), len(got), rows[:6], got[:6]))
    left = list(got)
    prec = {"json split": "json split", "json pandas": "json"}.get(fmt, "csv" if pf.base(fmt) == "csv" else fmt)
    prec = "xlsx" if fmt == "xls" else prec
    for r in rows:
        i = next((i for i, m in enumerate(left) if all(any(pf.near(prec, ref.canon(a), o) for o in acceptable(fmt, s, t, f, x, to))
                                                       for f, a, x in zip(s.fields(t), m, r))), None)
        if i is None:
            case.fail("%s: table %s (types %r): row %r not read back\n  read %r" % (
                what, t, [s.types.get((t, f)) for f in s.fields(t)], r, left[:6]))
        if i and not s.pks(t):
            case.fail("%s: table %s: rows out of order, wrote %r, read %r" % (what, t, rows, got))
        left.pop(i)
        case.count("cells_compared", len(r))
        case.count("monitor_checks")


def distinct(s, rows):
    """primary keys distinct under the readings of both sides"""
    out = {}
    for t, rs in rows.items():
        seen, keep = set(), []
        for r in rs:
            k = tuple("%.13g" % x if ref.is_num(x) else ref.canon(x) if ref.is_dt(x) else
                      "%.13g" % files.to_float(x) if files.to_float(x) is not None and pf.kind(s.types.get((t, f))) == "both" else x
                      for f, x in zip(s.pks(t), r))
            if s.pks(t) and k in seen:
                continue
            seen.add(k)
            keep.append(r)
        out[t] = keep
    return out


def file_case(case, fmt):
    import ticdat
    rng = case.rng
    s = pf.spec(rng, types=.85, generic=0)
    if fmt == "json split" and any("name" in s.fields(t) for t in s.normal()):
        raise Skip("TicDat tables with a 'name' field can not be populated from DataFrames (documented)")
    rows = distinct(s, exchangeable(rng, s, fmt, pf.data(case, "csv" if tbase(fmt) in ("csv", "xls", "sql") else "xlsx", s)))
    for t in s.normal():                                   # a date text is carried as the date it denotes
        for f in s.pks(t):
            if pf.kind(s.types.get((t, f))) == "dt":
                rows[t] = [r for r in rows[t] if not isinstance(r[s.fields(t).index(f)], str)]
    case.describe(fmt=fmt, schema=s, rows=rows)
    return s, rows, s.build(ticdat.TicDatFactory), s.build(ticdat.PanDatFactory)


@reg.scenario(quick=1200, thorough=16000, needs=tuple("t2p " + f for f in T2P) + ("cells_compared",))
def written_by_ticdat(case):
    """a TicDat's file read as PanDat, and as TicDat, holds the rows written"""
    rng = case.rng
    fmt = rng.choice(T2P)
    s, rows, tdf, pdf = file_case(case, fmt)
    dat = tdf.TicDat(**{t: [list(r) for r in rows[t]] if not s.pks(t) or rng.random() < .5 else gen.tic_args(s, rows)[t] for t in s.normal()})
    what = "TicDat wrote %s, PanDat reads" % fmt
    if fmt.startswith("json"):
        p = case.path("x.json")
        tdf.json.write_file(dat, p, **(dict(to_pandas=True) if fmt == "json pandas" else {}))
        back = pdf.json.create_pan_dat(p)
        again = tdf.json.create_tic_dat(p)
    elif fmt.startswith("csv"):
        p = case.path("x_csv")
        tdf.csv.write_directory(dat, p, case_space_table_names=fmt == "csv spaces")
        back, again = pdf.csv.create_pan_dat(p), tdf.csv.create_tic_dat(p)
    elif fmt == "sql":
        p = case.path("x.db")
        tdf.sql.write_db_data(dat, p)
        back, again = pdf.sql.create_pan_dat(p), tdf.sql.create_tic_dat(p)
    else:
        p = case.path("x." + fmt.split()[0])
        tdf.xls.write_file(dat, p, case_space_sheet_names=fmt == "xlsx spaces")
        back, again = pdf.xls.create_pan_dat(p), tdf.xls.create_tic_dat(p)
    case.check(pdf.good_pan_dat_object(back), "read object is not good")
    got = gen.pan_rows(s, back)
    for t in s.normal():
        match(case, fmt, s, t, got[t], rows[t], "pan", what)
    got = gen.tic_rows(s, again)
    for t in s.normal():
        match(case, fmt, s, t, got[t], rows[t], "tic", "TicDat wrote and read " + fmt)
    case.count("t2p " + fmt)
    if any(rows.values()):
        case.nontrivial("t2p", fmt, s.sig(), rows)
    case.sample(dict(fmt=fmt, schema=s, rows=rows))


@reg.scenario(quick=1200, thorough=16000, needs=tuple("p2t " + f for f in P2T) + ("cells_compared",))
def written_by_pandat(case):
    """a PanDat's file read as TicDat, and as PanDat, holds the rows written"""
    rng = case.rng
    fmt = rng.choice(P2T)
    s, rows, tdf, pdf = file_case(case, fmt)
    pan = pdf.PanDat(**pf.frames(case, s, rows, fmt))
    p = pf.write(case, fmt, pdf, pan)
    b = pf.base(fmt)
    if b in ("json", "json pd"):
        again = tdf.json.create_tic_dat(p, **(dict(from_pandas=True) if fmt == "json split" and rng.random() < .3 else {}))
    elif b == "csv":
        again = tdf.csv.create_tic_dat(p)
    elif b == "sql":
        again = tdf.sql.create_tic_dat(p)
    else:
        again = tdf.xls.create_tic_dat(p)
    case.check(tdf.good_tic_dat_object(again), "read object is not good")
    got = gen.tic_rows(s, again)
    for t in s.normal():
        match(case, fmt, s, t, got[t], rows[t], "tic", "PanDat wrote %s, TicDat reads" % fmt)
    back = pf.read(fmt, pdf, p)
    got = gen.pan_rows(s, back)
    for t in s.normal():
        match(case, fmt, s, t, got[t], rows[t], "pan", "PanDat wrote and read " + fmt)
    case.count("p2t " + fmt)
    if any(rows.values()):
        case.nontrivial("p2t", fmt, s.sig(), rows)
    case.sample(dict(fmt=fmt, schema=s, rows=rows))
