"""C08: remove_foreign_key_failures cascades to the largest consistent remainder."""
from ..core import Registry
from .. import gen, ref
from .c07 import make_pan, plain, linkable, mixed_tables

reg = Registry()
reg.rule = ("random foreign key graphs and data; the reference removes failing rows until none is left (the greatest "
            "consistent subset); non-trivial when something must be removed; distinct by (keys, surviving rows)")
reg.assumptions = ["null matches null; None against NaN in differently typed DataFrame columns is not judged"]


@reg.scenario(quick=2500, thorough=40000, needs=("removed", "cascades", "one_pass_only"))
def tic_remove(case):
    """TicDat: fixpoint / single pass semantics, order and untouched rows, with and without implied keys"""
    import ticdat
    rng = case.rng
    s = gen.fk_schema(rng, n=(1, 6))
    data = gen.fk_data(rng, s)
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.TicDatFactory)
    linked = rng.random() < 0.2 and linkable(s)
    if linked:
        fct.enable_foreign_key_links()
        case.count("linked")
    implied = not linked and rng.random() < 0.3
    if implied:
        fct.add_implied_foreign_keys()
    dat = fct.TicDat(**gen.tic_args(s, data))
    propagate = rng.random() < 0.7
    full = ref.fk_fixpoint(s, data)
    if propagate:
        want = full
        rtn = fct.remove_foreign_key_failures(dat) if rng.random() < .5 else fct.remove_foreign_key_failures(dat, True)
    else:
        fks = [plain(k) for k in fct.foreign_keys]
        kill = {}
        for (nt, _, _), bad in ref.fk_failures(s, data, fks).items():
            kill.setdefault(nt, set()).update(bad)
        want = {t: [r for n, r in enumerate(rs) if n not in kill.get(t, ())] for t, rs in data.items()}
        rtn = fct.remove_foreign_key_failures(dat, propagate=False)
    case.check(rtn is dat, "the edited object was not returned")
    case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), gen.canon_rows(want, order=True), "rows left")
    if propagate:
        case.check(not fct.find_foreign_key_failures(dat), "foreign key failures left behind")
    n = sum(map(len, data.values())) - sum(map(len, want.values()))
    case.count("removed", n)
    one = ref.fk_fixpoint(s, data, propagate=False)
    if one != full:
        case.count("cascades" if propagate else "one_pass_only")
    if n:
        case.nontrivial(s.sig(), propagate, repr(want))
    case.sample(dict(schema=s, data=data, left=want))


@reg.scenario(quick=1200, thorough=20000, needs=("removed", "cascades"))
def pan_remove(case):
    """PanDat: fixpoint semantics; surviving rows keep order, index, dtypes of values and extra columns"""
    import ticdat
    rng = case.rng
    s = gen.fk_schema(rng, n=(1, 6))
    data = gen.fk_data(rng, s, null=0.03)
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.PanDatFactory)
    dat = make_pan(case, s, data, fct)
    real = gen.pan_rows(s, dat)
    for t in real:
        real[t] = [r + (n,) for n, r in enumerate(real[t])]
    tagged = gen.Schema({t: (s.pks(t), s.dfs(t) + ("#",)) for t in s.normal()})
    tagged.fks = s.fks
    want = ref.fk_fixpoint(tagged, real)
    before = {t: getattr(dat, t).copy(deep=True) for t in s.normal()}
    rtn = fct.remove_foreign_key_failures(dat)
    case.check(rtn is dat, "the edited object was not returned")
    for t in s.normal():
        keep = [r[-1] for r in want[t]]
        expect = before[t].iloc[keep]
        case.check(getattr(dat, t).equals(expect) and list(getattr(dat, t).columns) == list(expect.columns),
                   lambda: "rows left in %s:\n%s\nexpected\n%s" % (t, getattr(dat, t), expect))
    case.check(not fct.find_foreign_key_failures(dat), "foreign key failures left behind")
    n = sum(map(len, real.values())) - sum(map(len, want.values()))
    case.count("removed", n)
    if ref.fk_fixpoint(tagged, real, propagate=False) != want:
        case.count("cascades")
    if n:
        case.nontrivial(s.sig(), repr(want))
    case.sample(dict(schema=s, data=data))


@reg.scenario(quick=150, thorough=2000, needs=("cascades",))
def long_chains(case):
    """chains and rings of tables where one orphan at one end topples rows all the way down"""
    import ticdat
    rng = case.rng
    n = rng.randint(3, 9)
    ring = rng.random() < 0.4
    s = gen.Schema({"t%d" % i: (("k",), ("up", "v")) if rng.random() < .8 else ((), ("k", "up", "v")) for i in range(n)})
    for i in range(n if ring else n - 1):
        s.fks.append(("t%d" % i, "t%d" % ((i + 1) % n), (("up", "k"),)))
    rng.shuffle(s.fks)
    m = rng.randint(3, 12)
    data = {}
    for i in range(n):
        rs = [dict(k=j, up=j if rng.random() < .9 else rng.randint(0, m + 1), v=rng.random()) for j in range(m)
              if rng.random() < 0.93]
        data["t%d" % i] = [tuple(r[f] for f in s.fields("t%d" % i)) for r in rs]
    case.describe(schema=s, data=data)
    want = ref.fk_fixpoint(s, data)
    fct = s.build(ticdat.TicDatFactory)
    dat = fct.TicDat(**gen.tic_args(s, data))
    fct.remove_foreign_key_failures(dat)
    case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), gen.canon_rows(want, order=True), "rows left (TicDat)")
    pdf = s.build(ticdat.PanDatFactory)
    pan = pdf.PanDat(**gen.pan_args(s, data))
    pdf.remove_foreign_key_failures(pan)
    case.eq(gen.canon_rows(gen.pan_rows(s, pan), order=True), gen.canon_rows(want, order=True), "rows left (PanDat)")
    if ref.fk_fixpoint(s, data, propagate=False) != want:
        case.count("cascades")
        case.nontrivial(repr(want))


@reg.scenario(quick=6, thorough=60, needs=("levels", "kept"))
def deep_cascade(case):
    """rows that hang on each other over a thousand levels: a cascade far deeper than the interpreter's stack"""
    import sys
    import ticdat
    rng = case.rng
    k = rng.choice((1, 1, 2, 5))
    n = sys.getrecursionlimit() + rng.randint(5, 60)
    s = gen.Schema({"t%d" % i: (("k",), ("up",)) if rng.random() < .8 else ((), ("k", "up")) for i in range(k)})
    for i in range(k):
        s.fks.append(("t%d" % i, "t%d" % ((i + 1) % k), (("up", "k"),)))
    start = rng.randint(10 ** 4, 10 ** 5)
    data = {t: [] for t in s.tables}
    # row i hangs on row i - 1 of the next table; the first row hangs on nothing
    for i in range(n):
        data["t%d" % (-i % k)].append((start + i, start + i - 1))
    keep = rng.randint(0, 3)
    for j in range(keep * k): # rings of rows that stay
        data["t%d" % (-j % k)].append((j, (j - 1) % (keep * k)))
    for t in data:
        rng.shuffle(data[t])
    case.describe(schema=s, levels=n, start=start, kept=keep * k)
    want = {t: [r for r in rs if r[0] < start] for t, rs in data.items()}
    fct = s.build(ticdat.TicDatFactory)
    dat = fct.TicDat(**gen.tic_args(s, data))
    rtn = fct.remove_foreign_key_failures(dat)
    case.check(rtn is dat, "the edited object was not returned")
    case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), gen.canon_rows(want, order=True), "rows left")
    case.count("levels", n)
    case.count("kept", keep * k)
    case.nontrivial(k, n, keep)


@reg.scenario(quick=500, thorough=8000, needs=("removed", "kept"))
def pan_mixed_columns(case):
    """columns that mix types which can't be ordered: only the rows without a match go"""
    import ticdat
    rng = case.rng
    s, data = mixed_tables(rng)
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.PanDatFactory)
    dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=rng.random() < .3))
    before = dat.child.copy(deep=True)
    bad = [n for rows in ref.fk_failures(s, data).values() for n in rows]
    fct.remove_foreign_key_failures(dat)
    keep = [n for n in range(len(before)) if n not in bad]
    case.check(dat.child.equals(before.iloc[keep]), lambda: "rows left\n%s\nexpected\n%s" % (dat.child, before.iloc[keep]))
    case.count("removed", len(bad))
    case.count("kept", len(keep))
    case.nontrivial(repr(data))
