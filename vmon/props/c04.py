"""C04: copies hold the same data and share no state with the original."""
import pickle
import pandas as pd
from ..core import Registry
from .. import gen, ref
from .c01 import defaults, frame_ok
from .c05 import dtypes, reindex

reg = Registry()
reg.rule = ("a data object, one kind of copy, then random in-place edits of every table of one side while the other side's snapshot "
            "must not move (both directions); distinct by (copy kind, schema shape, data)")
reg.assumptions = ["pandas normalises None/NaN and may widen ints to floats; cells are compared by value",
                   "as_dict does not support generator tables (documented)"]


def generic_frame(rng):
    n = rng.randint(0, 5)
    df = pd.DataFrame({c: [gen.anything(rng) for _ in range(n)] for c in gen.names(rng, gen.FIELD_NAMES, rng.randint(1, 3))},
                      dtype=rng.choice([None, object]))
    if rng.random() < .3 and n:
        df.index = rng.choice([list(range(10, 10 + n)), ["x"] * n, ["i%d" % i for i in range(n)]])
    if rng.random() < .3:
        df["num"] = [float(i) for i in range(n)]
    return df


def frame_rows(df):
    return list(map(str, df.columns)), [tuple(ref.canon(x) for x in r) for r in df.itertuples(index=False, name=None)]


def tic_snap(s, dat, order=True):
    rtn = {t: r for t, r in gen.canon_rows(gen.tic_rows(s, dat), order=order).items()}
    for t in s.tables:
        if s.tables[t] == '*':
            rtn[t] = frame_rows(getattr(dat, t))
    return rtn


def pan_snap(s, dat):
    return {t: frame_rows(getattr(dat, t)) for t in s.tables}


def edit_frame(rng, df):
    """in-place edits of a DataFrame, through views where pandas allows"""
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["iloc", "iat", "values", "col", "drop", "loc", "newcol", "inplace"])
        try:
            if op in ("iloc", "iat", "values", "loc", "inplace") and len(df) and len(df.columns):
                i, j = rng.randrange(len(df)), rng.randrange(len(df.columns))
                old = df.iat[i, j]
                v = 987654 if not isinstance(old, str) else "edited"
                if op == "values":
                    df.iloc[:, j].to_numpy()[i] = v
                elif op == "iat":
                    df.iat[i, j] = v
                elif op == "loc":
                    df.loc[df.index[i]] = v
                elif op == "inplace":
                    df.replace(old, v, inplace=True)
                else:
                    df.iloc[i, j] = v
            elif op == "col" and len(df.columns):
                df[df.columns[rng.randrange(len(df.columns))]] = 987654
            elif op == "newcol":
                df["brand new"] = 1
            elif op == "drop" and len(df):
                df.drop(df.index[:1], inplace=True)
        except Exception:
            pass
    if len(df.columns):
        try:
            df.iloc[:, rng.randrange(len(df.columns))] = "edited"
        except Exception:
            pass


def edit_tic(rng, s, dat):
    for t in s.tables:
        tbl = getattr(dat, t)
        if s.tables[t] == '*':
            edit_frame(rng, tbl)
            continue
        rows = list(tbl.values() if s.pks(t) else tbl)
        for r in rows[:rng.randint(1, 3)]:
            for f in s.dfs(t):
                r[f] = "edited"
        n = len(s.pks(t))
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(["add", "del", "clear"])
            if op == "add":
                if n:
                    tbl[tuple("nk%d" % rng.randint(0, 3) for _ in range(n)) if n > 1 else "nk%d" % rng.randint(0, 3)] = \
                        {f: 5 for f in s.dfs(t)}
                else:
                    tbl.append({f: 5 for f in s.dfs(t)})
            elif op == "del" and len(tbl):
                if n:
                    del tbl[rng.choice(list(tbl))]
                else:
                    del tbl[rng.randrange(len(tbl))]
            elif rng.random() < .2:
                tbl.clear()


def make_tic(case, generic=.15, links=None):
    import ticdat
    rng = case.rng
    links = rng.random() < .25 if links is None else links
    if links:
        s = gen.link_schema(rng)
        data = gen.fk_data(rng, s, null=0)
    else:
        s = defaults(rng, gen.schema(rng, generic=generic, no_name=True))
        if any(not frame_ok(s, t) for t in s.normal()):
            s = defaults(rng, gen.schema(rng, generic=generic, field_names=[f for f in gen.FIELD_NAMES if f != "name"]))
        data = gen.rows(rng, s)
    tdf = s.build(ticdat.TicDatFactory)
    if links:
        tdf.enable_foreign_key_links()
        case.count("linked")
    args = gen.tic_args(s, data)
    frames = {t: generic_frame(rng) for t in s.tables if s.tables[t] == '*'}
    if frames:
        case.count("generic_tables", len(frames))
    dat = tdf.TicDat(**args, **frames)
    for t, df in frames.items():           # the constructor is a copy, too
        before = tic_snap(s, dat)[t]
        edit_frame(rng, df)
        case.eq(tic_snap(s, dat)[t], before, "generic table after editing the DataFrame it was built from", key="constructor")
    case.describe(schema=s, data=data, links=links, frames=frames)
    return s, data, tdf, dat


def both_ways(case, what, snap_a, snap_b, edit_a, edit_b):
    """edit b and watch a, then edit a and watch b"""
    a = snap_a()
    edit_b()
    case.eq(snap_a(), a, "the original after editing the copy (%s)" % what, key=what + ": copy edits leak")
    b = snap_b()
    edit_a()
    case.eq(snap_b(), b, "the copy after editing the original (%s)" % what, key=what + ": original edits leak")
    case.count("edits_watched", 2)


@reg.scenario(quick=1500, thorough=15000, needs=("edits_watched", "linked", "generic_tables", "frozen original", "frozen copy"))
def copy_tic_dat(case):
    """copy_tic_dat: same data, no sharing, frozen or not"""
    import ticdat
    rng = case.rng
    s, data, tdf, dat = make_tic(case)
    if rng.random() < .3:
        dat = tdf.freeze_me(dat)
        case.count("frozen original")
    fr = rng.random() < .2
    before = tic_snap(s, dat)
    cp = tdf.copy_tic_dat(dat, freeze_it=fr) if rng.random() < .5 or fr else tdf.copy_tic_dat(dat)
    case.eq(tic_snap(s, cp), before, "the copy")
    case.eq(tic_snap(s, dat), before, "the original after copying")
    if fr:
        case.count("frozen copy")
        with case.must_raise("editing a frozen copy"):
            setattr(cp, list(s.tables)[0], {})
    for t in s.normal():
        rows = [list(getattr(x, t).values() if s.pks(t) else getattr(x, t)) for x in (dat, cp)]
        case.check(not (set(map(id, rows[0])) & set(map(id, rows[1]))), "row objects of %s are shared" % t)
        case.check(getattr(dat, t) is not getattr(cp, t) or (not s.pks(t) and fr), "table %s is shared" % t)
    frozen = getattr(dat, "_isFrozen", False)
    if not fr and not frozen:
        both_ways(case, "copy_tic_dat", lambda: tic_snap(s, dat), lambda: tic_snap(s, cp),
                  lambda: edit_tic(rng, s, dat), lambda: edit_tic(rng, s, cp))
    elif fr != frozen:
        a, b = (dat, cp) if fr else (cp, dat)
        snap = tic_snap(s, b)
        edit_tic(rng, s, a)
        case.eq(tic_snap(s, b), snap, "the frozen side after editing the other")
        case.count("edits_watched")
    case.nontrivial("copy", repr(before))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=1500, thorough=15000, needs=("edits_watched", "generic_tables", "reset_index", "drop", "keep", "default"))
def copy_to_pandas(case):
    """copy_to_pandas in every index layout: same rows in order, keys in the index as asked, no sharing"""
    import ticdat
    rng = case.rng
    s, data, tdf, dat = make_tic(case)
    before = tic_snap(s, dat)
    kw = rng.choice([{}, {}, dict(drop_pk_columns=True), dict(drop_pk_columns=False), dict(reset_index=True)])
    tables = list(s.tables)
    if rng.random() < .3:
        tables = rng.sample(tables, rng.randint(1, len(tables)))
        kw = dict(kw, table_restrictions=tables)
    cp = tdf.copy_to_pandas(dat, **kw)
    case.count("reset_index" if "reset_index" in kw else {None: "default", True: "drop", False: "keep"}[kw.get("drop_pk_columns")])
    case.eq(tic_snap(s, dat), before, "the original after copying")
    case.check({t for t in s.tables if hasattr(cp, t)} == set(tables), "tables of the copy")
    def rows_of(t):
        df = getattr(cp, t)
        if s.tables[t] == '*':
            return frame_rows(df)
        pks = list(s.pks(t))
        if len(df) and pks and not kw.get("reset_index"):
            case.check(list(df.index.names) == pks, "index of %s is %s" % (t, list(df.index.names)))
            drop = kw.get("drop_pk_columns")
            drop = bool(s.dfs(t)) if drop is None else drop
            case.check(list(df.columns) == ([] if drop else pks) + list(s.dfs(t)), "columns of %s: %s" % (t, list(df.columns)))
            idx = [(x,) if len(pks) == 1 else tuple(x) for x in df.index]
            if not drop:
                case.check([tuple(map(ref.canon, i)) for i in idx] ==
                           [tuple(map(ref.canon, r)) for r in df[pks].itertuples(index=False, name=None)], "key columns of " + t)
            return [tuple(map(ref.canon, i + r)) for i, r in zip(idx, df[list(s.dfs(t))].itertuples(index=False, name=None))] \
                if s.dfs(t) else [tuple(map(ref.canon, i)) for i in idx]
        case.check(list(df.columns) == list(s.fields(t)), "columns of %s: %s" % (t, list(df.columns)))
        return frame_rows(df)[1]
    case.eq({t: rows_of(t) for t in tables}, {t: before[t] for t in tables}, "the pandas copy")
    snap = lambda: {t: frame_rows(getattr(cp, t).reset_index(drop=True)) for t in tables}
    both_ways(case, "copy_to_pandas", lambda: tic_snap(s, dat), snap, lambda: edit_tic(rng, s, dat),
              lambda: [edit_frame(rng, getattr(cp, t)) for t in tables])
    case.nontrivial("to pandas", repr(sorted(kw)), repr(before))
    case.sample(dict(schema=s, data=data, kw=kw))


def make_pan(case, generic=.15):
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, generic=generic, field_names=[f for f in gen.FIELD_NAMES if f != "name"]))
    data = gen.rows(rng, s)
    pdf = s.build(ticdat.PanDatFactory)
    frames = {t: generic_frame(rng) for t in s.tables if s.tables[t] == '*'}
    case.count("generic_tables", len(frames))
    dat = pdf.PanDat(**gen.pan_args(s, data, rng.random() < .5), **frames)
    for t, df in frames.items():
        before = pan_snap(s, dat)[t]
        edit_frame(rng, df)
        case.eq(pan_snap(s, dat)[t], before, "generic table after editing the DataFrame it was built from", key="constructor")
    for t in s.normal():
        df = dtypes(case, reindex(case, getattr(dat, t)))
        if rng.random() < .2:
            df = df.assign(**{"an extra": range(len(df))})
        setattr(dat, t, df)
    case.describe(schema=s, data=data, frames=frames)
    return s, data, pdf, dat


@reg.scenario(quick=1200, thorough=12000, needs=("edits_watched", "generic_tables"))
def copy_pan_dat(case):
    """copy_pan_dat: same rows, extra columns and dtypes, no shared memory"""
    rng = case.rng
    s, data, pdf, dat = make_pan(case)
    before = pan_snap(s, dat)
    dtypes = {t: list(getattr(dat, t).dtypes) for t in s.tables}
    cp = pdf.copy_pan_dat(dat)
    case.eq(pan_snap(s, cp), before, "the copy")
    case.eq(pan_snap(s, dat), before, "the original after copying")
    case.eq({t: list(getattr(cp, t).dtypes) for t in s.tables}, dtypes, "column types of the copy")
    for t in s.tables:
        case.check(getattr(cp, t).index.equals(getattr(dat, t).index), "index of " + t)
    both_ways(case, "copy_pan_dat", lambda: pan_snap(s, dat), lambda: pan_snap(s, cp),
              lambda: [edit_frame(rng, getattr(dat, t)) for t in s.tables], lambda: [edit_frame(rng, getattr(cp, t)) for t in s.tables])
    case.nontrivial("copy pan", repr(before))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=1200, thorough=12000, needs=("edits_watched", "generic_tables"))
def copy_to_tic_dat(case):
    """copy_to_tic_dat: same rows, generic tables kept, no sharing"""
    rng = case.rng
    s, data, pdf, dat = make_pan(case)
    before = pan_snap(s, dat)
    fr = rng.random() < .2
    cp = pdf.copy_to_tic_dat(dat, freeze_it=fr)
    want = dict(before)
    for t in s.normal():
        want[t] = [tuple(map(ref.canon, r)) for r in data[t]]
    case.eq(tic_snap(s, cp), want, "the TicDat copy")
    case.eq(pan_snap(s, dat), before, "the original after copying")
    if not fr:
        both_ways(case, "copy_to_tic_dat", lambda: pan_snap(s, dat), lambda: tic_snap(s, cp),
                  lambda: [edit_frame(rng, getattr(dat, t)) for t in s.tables], lambda: edit_tic(rng, s, cp))
    case.nontrivial("to tic", repr(before))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=1200, thorough=12000, needs=("edits_watched", "generic_tables", "pickled"))
def as_dict(case):
    """as_dict, also pickled, rebuilds the same object; the dict shares nothing with it"""
    rng = case.rng
    s, data, tdf, dat = make_tic(case)
    if rng.random() < .2:
        dat = tdf.freeze_me(dat)
    before = tic_snap(s, dat)
    d = tdf.as_dict(dat)
    case.eq(set(d), set(s.tables), "tables of as_dict")
    p = pickle.loads(pickle.dumps(d))
    case.count("pickled")
    for what, x in [("as_dict", d), ("pickled as_dict", p)]:
        for t in s.normal():
            n = len(s.pks(t))
            if n:
                got = [((k,) if n == 1 else tuple(k)) + tuple(r[f] for f in s.dfs(t)) for k, r in x[t].items()]
                case.check(type(x[t]) is dict and all(type(r) is dict and set(r) == set(s.dfs(t)) for r in x[t].values()), what)
            else:
                got = [tuple(r[f] for f in s.dfs(t)) for r in x[t]]
                case.check(type(x[t]) is list and all(type(r) is dict and set(r) == set(s.dfs(t)) for r in x[t]), what)
            case.eq([tuple(map(ref.canon, r)) for r in got], before[t], "%s of %s" % (what, t))
        again = tdf.TicDat(**x)
        case.eq(tic_snap(s, again), before, "object rebuilt from " + what)
        for t in s.tables:
            df = getattr(dat, t)
            if s.tables[t] == '*' and len(df) and df.index.is_unique:
                case.eq(list(getattr(again, t).index), list(df.index), "index of the generic table %s rebuilt from %s" % (t, what))
                case.count("unique_index")
    case.eq(tic_snap(s, dat), before, "the original")
    for t in s.normal():
        for r in (d[t].values() if s.pks(t) else d[t]):
            for f in s.dfs(t):
                r[f] = "edited"
        d[t].clear()
    for t in s.tables:
        if s.tables[t] == '*':
            for c in d[t]:
                if hasattr(d[t][c], "clear"):
                    d[t][c].clear()
    case.eq(tic_snap(s, dat), before, "the original after editing the dict")
    if not getattr(dat, "_isFrozen", False):
        snap = repr(p)
        edit_tic(rng, s, dat)
        case.check(repr(p) == snap, "dict changed with the original")
    case.count("edits_watched")
    case.nontrivial("as_dict", repr(before))
    case.sample(dict(schema=s, data=data))
