"""C06: replace_data_type_failures edits exactly the failing cells it covers."""
from ..core import Registry
from .. import gen, ref
from . import c05

reg = Registry()
reg.rule = ("schema, rules, data, defaults and replacement maps are drawn at random; non-trivial when at least one cell "
            "must be replaced (or the call must be refused); distinct by the replaced cells and values")
reg.assumptions = c05.reg.assumptions


def add_defaults(case, s, pk_too):
    rng = case.rng
    for t in s.normal():
        for f in s.fields(t):
            if f in s.pks(t) and not (pk_too and rng.random() < 0.3):
                continue
            if rng.random() < 0.6:
                v = gen.good_value(rng, s.types.get((t, f)))
                if ref.is_num(v) or ref.is_str(v) or v is None:
                    s.defaults[t, f] = v
                    continue
            if rng.random() < 0.15:
                s.defaults[t, f] = rng.choice([None, -77.5, "not allowed", 0])


def replacements(case, s, pk_too):
    rng = case.rng
    rtn = {}
    for t in s.normal():
        for f in s.fields(t):
            if f in s.pks(t) and not pk_too:
                continue
            r = rng.random()
            if r < 0.3:
                rtn[t, f] = gen.good_value(rng, s.types.get((t, f)))
            elif r < 0.34:
                rtn[t, f] = rng.choice([None, -77.5, "not allowed"])
    return rtn


def expectation(s, data, repl, pan):
    fails = ref.type_failures(s, data)
    types = ref.effective_types(s)
    plan = {}
    for (t, f) in fails:
        ispk = f in s.pks(t)
        if ispk and not pan:
            continue
        if (t, f) in repl:
            v = repl[t, f]
        elif ispk:
            if (t, f) not in s.defaults:
                continue
            v = s.defaults[t, f]
        else:
            v = s.default(t, f)
        if not ref.valid(types[t, f], v):
            return None, fails
        plan[t, f] = v
    out = {t: [list(r) for r in rs] for t, rs in data.items()}
    for (t, f), v in plan.items():
        i = s.fields(t).index(f)
        for n in fails[t, f]:
            out[t][n][i] = v
    return {t: [tuple(r) for r in rs] for t, rs in out.items()}, {k: fails[k] for k in plan}


def drive(case, pan):
    import ticdat
    s, data = c05.make(case)
    add_defaults(case, s, pan)
    repl = replacements(case, s, pan)
    case.describe(schema=s, data=data, replacements=repl)
    if pan:
        fct = s.build(ticdat.PanDatFactory)
        dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=case.rng.random() < .5))
        for t in s.normal():
            df = c05.dtypes(case, c05.reindex(case, getattr(dat, t)))
            if case.rng.random() < 0.2:
                df = df.assign(extra_col=range(len(df)))
            setattr(dat, t, df)
        read = gen.pan_rows
        side = {t: (list(getattr(dat, t).index), list(getattr(dat, t).columns),
                    list(getattr(dat, t).get("extra_col", []))) for t in s.normal()}
    else:
        fct = s.build(ticdat.TicDatFactory)
        dat = fct.TicDat(**gen.tic_args(s, data))
        read = gen.tic_rows
    real = read(s, dat)
    want, plan = expectation(s, real, repl, pan)
    args = (dat, repl) if repl or case.rng.random() < .5 else (dat,)
    if want is None:
        with case.must_raise("an invalid replacement value"):
            fct.replace_data_type_failures(*args)
        case.eq(gen.canon_rows(read(s, dat), order=True), gen.canon_rows(real, order=True),
                "data changed although the call was refused")
        case.count("refusals")
        case.nontrivial("refused", str(repl), str(plan))
        return
    rtn = fct.replace_data_type_failures(*args)
    case.check(rtn is dat, "the edited object was not returned")
    now = read(s, dat)
    case.eq(gen.canon_rows(now, order=True), gen.canon_rows(want, order=True), "data after replacement")
    if pan:
        case.eq({t: (list(getattr(dat, t).index), list(getattr(dat, t).columns),
                     list(getattr(dat, t).get("extra_col", []))) for t in s.normal()}, side,
                "index, columns or extra columns changed")
    left = set(map(tuple, fct.find_data_type_failures(dat)))
    case.check(not (left & set(plan)), "still failing after replacement: %s" % (left & set(plan)))
    fct.replace_data_type_failures(*args)
    case.eq(gen.canon_rows(read(s, dat), order=True), gen.canon_rows(want, order=True), "second call changed something")
    n = sum(map(len, plan.values()))
    case.count("replaced_cells", n)
    if n:
        case.nontrivial(sorted((k, tuple(v)) for k, v in plan.items()), repr(now)[:1500])
    case.sample(dict(schema=s, data=data, replacements=repl))


@reg.scenario(quick=2500, thorough=40000, needs=("replaced_cells", "refusals"))
def tic_replace(case):
    """TicDat: exactly the failing data-field cells change"""
    drive(case, False)


@reg.scenario(quick=1800, thorough=25000, needs=("replaced_cells", "refusals"))
def pan_replace(case):
    """PanDat: exactly the failing covered cells change, row order, index and extra columns kept"""
    drive(case, True)
