"""C07: find_foreign_key_failures reports exactly the child rows without a matching parent."""
import pandas as pd

from ..core import Registry, Skip, short
from .. import gen, ref
from .c05 import dtypes, reindex, tic_keys

reg = Registry()
reg.rule = ("random schemas with 1-5 simple/compound foreign keys (cycles, self references, non-key targets) over a small "
            "value pool; non-trivial when some child row has no parent; distinct by (foreign keys, failing rows)")
reg.assumptions = ["a null key field matches a null parent field; whether NaN in a numeric column matches None in an object column "
                   "is unspecified and not judged", "True/False are not mixed with 1/0 in key fields",
                   "within one compound foreign key every foreign field is mapped once"]


def plain(fk):
    m = fk.mapping
    if hasattr(m, "native_field"):
        return (fk.native_table, fk.foreign_table, ((m.native_field, m.foreign_field),))
    return (fk.native_table, fk.foreign_table, tuple((x.native_field, x.foreign_field) for x in m))


def low(fk):
    nt, ft, mp = fk
    return (nt, ft, gen.mapping_of(fk))


def declared(case, s, fct):
    case.eq(sorted(map(repr, map(plain, fct.foreign_keys))), sorted(map(repr, s.fks)), "foreign_keys of the factory")
    for fk in fct.foreign_keys:
        case.eq(fk.cardinality, gen.cardinality(s, plain(fk)), "cardinality of %s" % (fk,))


def history(case, s, cls):
    """other keys declared and cleared first"""
    rng = case.rng
    fct = cls(**{t: [list(v[0]), list(v[1])] for t, v in s.tables.items()})
    if rng.random() < 0.3:
        other = gen.Schema(s.tables)
        gen.add_fks(rng, other)
        for nt, ft, mp in other.fks:
            fct.add_foreign_key(nt, ft, [list(x) for x in mp])
        if rng.random() < 0.5:
            fct.clear_foreign_keys()
        else:
            for t in s.normal():
                fct.clear_foreign_keys(t)
    for nt, ft, mp in s.fks:
        fct.add_foreign_key(nt, ft, [list(x) for x in mp] if len(mp) > 1 or rng.random() < .5 else list(mp[0]))
    return fct


def values_of(s, data, fk, pos):
    nt, ft, mp = fk
    idx = [s.fields(nt).index(a) for a, _ in mp]
    vals = [tuple(data[nt][n][i] for i in idx) for n in pos]
    return {v[0] for v in vals} if len(mp) == 1 else set(vals)


def check_tic(case, s, data, fct, dat, fks=None):
    want = ref.fk_failures(s, data, fks)
    before = repr(gen.tic_rows(s, dat))
    got = fct.find_foreign_key_failures(dat)
    by = {plain(k): v for k, v in got.items()}
    case.eq(len(by), len(got), "the same foreign key is reported twice")
    case.eq(set(by), set(want), "foreign keys with failures")
    for k in got:
        case.eq(k.cardinality, gen.cardinality(s, plain(k)), "cardinality of %s" % (k,))
    for fk, pos in want.items():
        case.eq(set(by[fk].native_pks), tic_keys(s, data, fk[0], pos), "failing rows of %s" % (fk,))
        case.eq(len(by[fk].native_pks), len(pos), "repeated native_pks of %s" % (fk,))
        vals = values_of(s, data, fk, pos)
        case.eq(set(by[fk].native_values), vals, "native_values of %s" % (fk,))
        case.eq(len(by[fk].native_values), len(vals), "repeated native_values of %s" % (fk,))
        case.count("orphans", len(pos))
    lo = fct.find_foreign_key_failures(dat, verbosity="Low")
    case.eq({k: (set(v[0]), set(v[1])) for k, v in lo.items()},
            {low(plain(k)): (set(v[0]), set(v[1])) for k, v in got.items()}, "verbosity Low differs from High")
    total = sum(map(len, want.values()))
    for m in {1, case.rng.randint(1, max(1, total)), total + 1}:
        part = fct.find_foreign_key_failures(dat, max_failures=m)
        case.eq(sum(len(v.native_pks) for v in part.values()), min(m, total), "failures with max_failures=%s" % m)
        for k, v in part.items():
            case.check(set(v.native_pks) <= set(got[k].native_pks) and set(v.native_values) <= set(got[k].native_values),
                       "max_failures=%s reports what the full report does not: %s" % (m, short(part)))
    case.eq(repr(gen.tic_rows(s, dat)), before, "find_foreign_key_failures changed the data")
    if want:
        case.nontrivial(s.sig(), sorted((k, tuple(v)) for k, v in want.items()))
    return want


def linkable(s):
    sets = [(nt, ft, frozenset(a for a, _ in mp)) for nt, ft, mp in s.fks]
    return len(sets) == len(set(sets)) and all({b for _, b in mp} == set(s.pks(ft)) for _, ft, mp in s.fks)


@reg.scenario(quick=2500, thorough=40000, needs=("orphans",))
def tic_exact(case):
    """TicDat report == brute force, both verbosities, partial reports, frozen objects, linked objects"""
    import ticdat
    s = gen.fk_schema(case.rng)
    data = gen.fk_data(case.rng, s)
    case.describe(schema=s, data=data)
    fct = history(case, s, ticdat.TicDatFactory)
    if case.rng.random() < 0.3 and linkable(s):
        fct.enable_foreign_key_links()
        case.count("linked")
    declared(case, s, fct)
    dat = fct.TicDat(**gen.tic_args(s, data))
    if case.rng.random() < 0.2:
        dat = fct.freeze_me(dat)
    check_tic(case, s, data, fct, dat)
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=400, thorough=5000, needs=("orphans", "derived"))
def tic_implied(case):
    """add_implied_foreign_keys only adds keys that are consequences, and the reports stay exact for all keys"""
    import ticdat
    s = gen.fk_schema(case.rng, n=(2, 6))
    data = gen.fk_data(case.rng, s)
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.TicDatFactory)
    fct.add_implied_foreign_keys()
    fks = [plain(k) for k in fct.foreign_keys]
    case.check(set(s.fks) <= set(fks), "declared foreign keys lost")
    case.count("derived", len(fks) - len(s.fks))
    dat = fct.TicDat(**gen.tic_args(s, data))
    base = ref.fk_failures(s, data)
    want = check_tic(case, s, data, fct, dat, fks)
    case.eq(bool(want), bool(base), "implied foreign keys changed whether there are failures")


def null_scope(s, dat):
    for nt, ft, mp in s.fks:
        for a, b in mp:
            x, y = getattr(dat, nt)[a], getattr(dat, ft)[b]
            if x.dtype != y.dtype and x.isna().any() and y.isna().any():
                raise Skip("None against NaN in differently typed columns")


def make_pan(case, s, data, fct):
    rng = case.rng
    dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=rng.random() < 0.3))
    for t in s.normal():
        df = dtypes(case, reindex(case, getattr(dat, t)))
        if rng.random() < 0.2:
            df = df.assign(**{rng.choice(["extra_col", "_0_", "x_1_"]): range(len(df))})
        if rng.random() < 0.2:
            df = df[list(reversed(df.columns))]
        setattr(dat, t, df)
    null_scope(s, dat)
    return dat


@reg.scenario(quick=2000, thorough=30000, needs=("orphans",))
def pan_exact(case):
    """PanDat report (rows and flags) == brute force for any index, dtype, column order and extra columns"""
    import ticdat
    s = gen.fk_schema(case.rng)
    data = gen.fk_data(case.rng, s)
    case.describe(schema=s, data=data)
    fct = history(case, s, ticdat.PanDatFactory)
    declared(case, s, fct)
    dat = make_pan(case, s, data, fct)
    real = gen.pan_rows(s, dat)
    want = ref.fk_failures(s, real)
    before = {t: getattr(dat, t).copy(deep=True) for t in s.normal()}
    got = fct.find_foreign_key_failures(dat)
    flags = fct.find_foreign_key_failures(dat, as_table=False)
    case.eq({plain(k) for k in got}, set(want), "foreign keys with failures")
    case.eq({plain(k): [i for i, b in enumerate(v) if b] for k, v in flags.items()}, want, "flagged rows")
    for k, v in got.items():
        case.eq(k.cardinality, gen.cardinality(s, plain(k)), "cardinality of %s" % (k,))
        df = getattr(dat, k.native_table)
        case.check(v.equals(df.iloc[want[plain(k)]]), "failed rows of %s" % (k,))
        case.count("orphans", len(want[plain(k)]))
    lo = fct.find_foreign_key_failures(dat, verbosity="Low", as_table=False)
    case.eq({k: list(v) for k, v in lo.items()}, {low(plain(k)): list(v) for k, v in flags.items()},
            "verbosity Low differs from High")
    total = sum(map(len, want.values()))
    for m in {1, case.rng.randint(1, max(1, total)), total + 1}:
        part = fct.find_foreign_key_failures(dat, as_table=False, max_failures=m)
        case.eq(sum(sum(map(bool, v)) for v in part.values()), min(m, total), "failures with max_failures=%s" % m)
        for k, v in part.items():
            case.check(all(b or not a for a, b in zip(v, flags[k])), "max_failures reports a row that does not fail")
    for t in s.normal():
        case.check(getattr(dat, t).equals(before[t]) and list(getattr(dat, t).columns) == list(before[t].columns),
                   "find_foreign_key_failures changed the data of " + t)
    if want:
        case.nontrivial(s.sig(), sorted((k, tuple(v)) for k, v in want.items()))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=300, thorough=5000, needs=("orphans",))
def tic_pan_agree(case):
    """the same rows held by a TicDat and by a PanDat give the same report"""
    import ticdat
    s = gen.fk_schema(case.rng)
    data = gen.fk_data(case.rng, s, null=0.03)
    case.describe(schema=s, data=data)
    tdf, pdf = s.build(ticdat.TicDatFactory), s.build(ticdat.PanDatFactory)
    tic = tdf.TicDat(**gen.tic_args(s, data))
    pan = tdf.copy_to_pandas(tic, reset_index=True)
    null_scope(s, pan)
    t = {plain(k): len(v.native_pks) for k, v in tdf.find_foreign_key_failures(tic).items()}
    p = {plain(k): sum(map(bool, v)) for k, v in pdf.find_foreign_key_failures(pan, as_table=False).items()}
    case.eq(t, p, "TicDat and PanDat disagree")
    case.eq(t, {k: len(v) for k, v in ref.fk_failures(s, data).items()}, "both disagree with brute force")
    case.count("orphans", sum(t.values()))
    if t:
        case.nontrivial(s.sig(), sorted(t.items()))


COLUMN_KINDS = ("int", "float", "int_object", "Int64", "str", "string", "category", "naive", "naive_object", "utc", "berlin",
                "utc_object", "day", "bool_object", "tuple_object", "other_text")


def typed_column(kind, numbers):
    """a Series of the kind holding the n-th value of the kind for every n in numbers"""
    import datetime
    import pandas as pd
    stamp = [pd.Timestamp("2021-03-04 05:06:07") + pd.Timedelta(n, "D") for n in range(8)]
    if kind in ("int", "float"):
        return pd.Series(list(numbers), dtype=kind)
    if kind == "Int64":
        return pd.Series(list(numbers), dtype="Int64")
    if kind in ("str", "string", "category"):
        vals = ["v%d" % n for n in numbers]
        return pd.Series(vals, dtype={"str": object, "string": "string", "category": "category"}[kind])
    if kind == "naive":
        return pd.Series([stamp[n] for n in numbers], dtype="datetime64[ns]")
    if kind in ("utc", "berlin"):
        s = pd.Series([stamp[n] for n in numbers], dtype="datetime64[ns]").dt.tz_localize("UTC")
        return s if kind == "utc" else s.dt.tz_convert("Europe/Berlin")
    one = {"int_object": lambda n: n, "naive_object": lambda n: stamp[n].to_pydatetime(),
           "utc_object": lambda n: stamp[n].tz_localize("UTC"), "day": lambda n: datetime.date(2021, 3, 4 + n),
           "bool_object": lambda n: bool(n % 2), "tuple_object": lambda n: (n, "x"), "other_text": lambda n: "w%d" % n}[kind]
    rtn = pd.Series([None] * len(numbers), dtype=object)
    for i, n in enumerate(numbers):
        rtn.iat[i] = one(n)
    return rtn


def same_values(a, b):
    """whether the n-th values of the two kinds are the same"""
    groups = [("int", "float", "int_object", "Int64"), ("str", "string", "category"), ("naive", "naive_object"),
              ("utc", "berlin", "utc_object"), ("day",), ("bool_object",), ("tuple_object",), ("other_text",)]
    return any(a in g and b in g for g in groups)


@reg.scenario(quick=500, thorough=8000, needs=("orphans", "kinds_differ", "nothing_matches", "all_match"))
def pan_column_types(case):
    """PanDat report == brute force when the key columns are of any two column types (time zones, categories, ...)"""
    import pandas as pd
    import ticdat
    rng = case.rng
    numbers = ("int", "float", "int_object", "Int64", "bool_object")
    def pair():
        a = rng.choice(COLUMN_KINDS)
        b = a if rng.random() < 0.3 else rng.choice(COLUMN_KINDS)
        if {a, b} <= set(numbers) and "bool_object" in (a, b):     # True is 1
            b = a
        return a, b
    width = rng.choice([1, 1, 2])
    kinds = [pair() for _ in range(width)]
    fct = ticdat.PanDatFactory(p=[["k%d" % i for i in range(width)], ["d"]],
                               c=[["pk"], ["f%d" % i for i in range(width)]])
    mp = [["f%d" % i, "k%d" % i] for i in range(width)]
    fct.add_foreign_key("c", "p", mp if width > 1 or rng.random() < .5 else mp[0])
    parents = sorted({tuple(rng.randrange(2 if "bool_object" in kinds[i] else 4) for i in range(width))
                      for _ in range(rng.randint(0, 5))})
    rng.shuffle(parents)
    children = [rng.choice(parents) if parents and rng.random() < .7 else tuple(rng.randrange(5) for _ in range(width))
                for _ in range(rng.randint(0, 6))]
    p = pd.DataFrame({"k%d" % i: typed_column(kinds[i][1], [r[i] for r in parents]) for i in range(width)})
    p["d"] = range(len(parents))
    c = pd.DataFrame({"f%d" % i: typed_column(kinds[i][0], [r[i] for r in children]) for i in range(width)})
    c["pk"] = range(len(children))
    case.describe(kinds=kinds, parents=parents, children=children)
    dat = fct.PanDat(p=p, c=c)
    def seen(row, i):
        return row[i] % 2 if "bool_object" in kinds[i] else row[i]
    have = {tuple(seen(r, i) for i in range(width)) for r in parents}
    comparable = all(same_values(a, b) for a, b in kinds)
    want = [not (comparable and tuple(seen(r, i) for i in range(width)) in have) for r in children]
    got = fct.find_foreign_key_failures(dat, as_table=False)
    flags = [bool(b) for v in got.values() for b in v] if got else [False] * len(children)
    case.eq(flags, want, "flagged rows")
    tbl = fct.find_foreign_key_failures(dat)
    case.eq([list(v["pk"]) for v in tbl.values()], [[i for i, b in enumerate(want) if b]] if any(want) else [], "failed rows")
    case.eq(list(dat.c.dtypes.map(str)), list(c[dat.c.columns].dtypes.map(str)), "the column types were changed")
    left = fct.remove_foreign_key_failures(fct.PanDat(p=p, c=c))
    case.eq(list(left.c["pk"]), [i for i, b in enumerate(want) if not b], "rows left by remove_foreign_key_failures")
    case.count("orphans", sum(want))
    case.count("all_match", bool(want) and not any(want))
    if any(a != b for a, b in kinds):
        case.count("kinds_differ")
        case.count("nothing_matches", not comparable and bool(parents and children))
    if any(want):
        case.nontrivial(kinds, parents, children)


POOLS = [[1, 2, 3], ["a", "b", "c"], [1, "a", 2, "b"], [1.5, 1, 2], [pd.Timestamp("2020-01-01"), pd.Timestamp("2021-05-06")],
         ["a", pd.Timestamp("2020-01-01")], ["1", 1, "2", 2]]


def mixed_tables(rng):
    """a child and a parent table whose matching columns hold numbers, text, dates or all of them, in key order"""
    n = rng.choice((1, 2, 2, 2, 3))
    pools = [rng.choice(POOLS) for _ in range(n)]
    other = [p if rng.random() < .6 else rng.choice(POOLS) for p in pools]
    parent = [[rng.choice(p) for p in pools] for _ in range(rng.randint(1, 5))]
    child = [rng.choice(parent) if rng.random() < .4 else [rng.choice(p) for p in other] for _ in range(rng.randint(1, 6))]
    for rows in (parent, child):
        if rng.random() < .7:
            first = rng.random() < .5
            rows.sort(key=lambda r: [((type(v).__name__ == "str") != first, type(v).__name__, v) for v in r])
    s = gen.Schema({"child": ((), tuple("c%d" % i for i in range(n))),
                    "parent": (("id",), tuple(rng.sample(["p%d" % i for i in range(n)], n)))})
    order = rng.sample(range(n), n)
    s.fks = [("child", "parent", tuple(("c%d" % i, "p%d" % i) for i in order))]
    at = {"p%d" % i: i for i in range(n)}
    return s, dict(child=[tuple(r) for r in child],
                   parent=[(j,) + tuple(r[at[f]] for f in s.dfs("parent")) for j, r in enumerate(parent)])


@reg.scenario(quick=1500, thorough=20000, needs=("orphans", "matches", "mixed_columns"))
def pan_mixed_columns(case):
    """columns that mix types which can't be ordered: still exactly the rows without a match"""
    import ticdat
    rng = case.rng
    s, data = mixed_tables(rng)
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.PanDatFactory)
    dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=rng.random() < .3))
    want = ref.fk_failures(s, data)
    got = fct.find_foreign_key_failures(dat, as_table=False)
    case.eq({plain(k): [i for i, b in enumerate(v) if b] for k, v in got.items()}, want, "flagged rows")
    tbl = fct.find_foreign_key_failures(dat)
    for k, v in tbl.items():
        case.check(v.equals(dat.child.iloc[want[plain(k)]]), "failed rows of %s" % (k,))
    bad = sum(map(len, want.values()))
    case.count("orphans", bad)
    case.count("matches", len(data["child"]) - bad)
    if any(len({type(r[i]) for r in data["child"]}) > 1 for i in range(len(s.dfs("child")))):
        case.count("mixed_columns")
    case.nontrivial(repr(data))
    case.sample(dict(schema=s, data=data))
