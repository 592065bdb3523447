"""C14: obfusimplify renames keys consistently and reversibly."""
import re, datetime
from ..core import Registry, Skip
from .. import gen, ref
from .c04 import tic_snap, pan_snap, generic_frame
from .c07 import plain
from .c05 import reindex

reg = Registry()
reg.rule = ("random schemas of entity tables, one-to-one children, chains, self references and compound keys over failure-free "
            "data; the monitor recomputes which fields denote an entity, checks every renamed and every untouched cell, and maps "
            "the whole copy back through renamings; distinct by (schema, prepends, skips, data)")
reg.assumptions = ["entity keys are not null", "a field that references two different entities, also indirectly, or a foreign key "
                   "to fields that are not the whole primary key, may be refused with an error (documented, issue 195), but never answered wrongly"]
POOLS = [["t%d" % i for i in range(1, 60)], ["I%d" % i for i in range(40)] + ["II", "iii"], gen.TABLE_NAMES,
         ["a_%d" % i for i in range(40)], ["plant", "plants", "PLA", "Pl_ant", "P1", "ip", "II_p"]]


def entities(s):
    """(entity tables, {(t, f): set of entity tables the field denotes}, refusable)"""
    refs = {}                                       # (t,f) -> {(ft, ff)}
    odd = False
    for nt, ft, mp in s.fks:
        if {b for _, b in mp} != set(s.pks(ft)):
            odd = True
        for a, b in mp:
            refs.setdefault((nt, a), set()).add((ft, b))
    single = [t for t in s.normal() if len(s.pks(t)) == 1]
    def reach(tf):
        seen, todo = set(), [tf]
        while todo:
            for x in refs.get(todo.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen
    child = set()
    for nt, ft, mp in s.fks:
        if {a for a, _ in mp} >= set(s.pks(nt)) and {b for _, b in mp} >= set(s.pks(ft)):
            child.add(nt)
    ent = {t for t in single if t not in child}
    den = {}
    for t in s.normal():
        for f in s.fields(t):
            r = {x[0] for x in reach((t, f)) if x[0] in ent and x[1] == s.pks(x[0])[0]}
            if t in ent and f == s.pks(t)[0]:
                r.add(t)
            den[t, f] = r
    # no consistent renaming: a child field denotes an entity that the parent field it must match does not
    if any(den[nt, a] != den[ft, b] for nt, ft, mp in s.fks for a, b in mp):
        odd = True
    if any(len(v) > 1 for v in den.values()):
        odd = True
    return ent, den, odd


def make(case, odd_ok=False, small=False):
    rng = case.rng
    pool = rng.choice(POOLS)
    for _ in range(300):
        s = gen.schema(rng, tables=(1, 6) if rng.random() < .85 or pool is POOLS[-1] or pool is gen.TABLE_NAMES else (28, 36),
                       pks=(1, 3), no_pk=.15, dfs=(0, 3), table_names=pool, no_name=True,
                       field_names=rng.choice([["a", "b", "c", "d", "e f"], gen.FIELD_NAMES]))
        ks = [t for t in s.normal() if s.pks(t)]
        ones = [t for t in ks if len(s.pks(t)) == 1]
        used = set()
        for _ in range(rng.randint(0, 6)):
            if odd_ok and rng.random() < .3:
                gen.add_fks(rng, s, n=(1, 1))
                continue
            if not ks:
                break
            nt, ft = rng.choice(s.normal()), rng.choice(ones if ones and rng.random() < .75 else ks)
            free = [f for f in s.fields(nt) if (nt, f) not in used or rng.random() < .05]
            if len(free) < len(s.pks(ft)):
                continue
            if len(s.pks(nt)) == 1 and s.pks(nt)[0] in free and len(s.pks(ft)) == 1 and rng.random() < .3:
                free = list(s.pks(nt))
            nf = rng.sample(free, len(s.pks(ft)))
            if nt == ft and set(nf) & set(s.pks(ft)):
                continue
            if (nt, ft, tuple(zip(nf, s.pks(ft)))) in s.fks:
                continue
            used |= {(nt, f) for f in nf}
            s.fks.append((nt, ft, tuple(zip(nf, s.pks(ft)))))
        ent, den, odd = entities(s)
        if (ent or rng.random() < .03) and (odd_ok or not odd):
            break
    else:
        raise AssertionError("no schema drawn")
    pools = [["a", "b", "c", "d", "New York", "ñ"], [1, 2, 3, 4, 5, 17], [1.5, 2, 7.25, -1], ["1", "2", "10", "T1", "A1", "P2"],
             ["a", 1, "b", 2.5, 3, "T1"], ["", " ", "x", "X"], list(range(40)),
             [datetime.datetime(2020, 1, i) for i in range(1, 9)]]
    pool = rng.choice(pools)
    data = gen.fk_data(rng, s, null=0, n=(0, 8), pool=pool)
    data = ref.fk_fixpoint(s, data)
    keyf = {(t, f) for (t, f), v in den.items() if v} | {(t, f) for nt, ft, mp in s.fks for a, b in mp
                                                        for t, f in ((nt, a), (ft, b))}
    for t in s.normal():                                   # other data fields hold anything
        for i, f in enumerate(s.fields(t)):
            if (t, f) not in keyf and f not in s.pks(t):
                data[t] = [r[:i] + (rng.choice([gen.anything, lambda r_: rng.choice(pool)])(rng),) + r[i + 1:] for r in data[t]]
    if len({type(x) for x in pool}) > 1:
        case.count("mixed_type_keys")
    if len(s.tables) > 20:
        case.count("many_tables")
    ent, den, odd = entities(s)
    skip = [t for t in sorted(ent) if rng.random() < .2]
    pre, taken = {}, set()
    for t in sorted(ent - set(skip)):
        if rng.random() < .25:
            p = rng.choice(["A", "B", "T", "P", "TA", "XYZ", "IA", "ZZ", "PL", "I", "AI"])
            if not p.endswith("I") and p not in taken:
                pre[t] = p
                taken.add(p)
    case.describe(schema=s, data=data, skip=skip, prepends=pre)
    return s, data, ent, den, odd, skip, pre


def judge(case, s, data, got, ren, ent, den, skip, pre, order):
    """got: {table: rows}"""
    rng = case.rng
    todo = sorted(ent - set(skip))
    want_ren = sorted(((t, ref.canon(r[0])) for t in todo for r in data[t]), key=repr)
    case.eq(sorted(((t, ref.canon(k)) for t, k in ren.values()), key=repr), want_ren, "entity keys renamed")
    seen = dict(pre)
    for new, (t, k) in ren.items():
        m = re.match(r"^([A-Z]*[A-HJ-Z])([0-9]+)$", new) if isinstance(new, str) else None
        case.check(m, lambda: "new name %r of %s is not capital letters followed by a number" % (new, t))
        case.check(seen.setdefault(t, m.group(1)) == m.group(1),
                   lambda: "new name %r in %s, expected prepend %s" % (new, t, seen[t]))
    case.check(len(set(seen.values())) == len(seen), lambda: "two tables share a prepend: %s" % seen)
    for t in s.normal():
        back = []
        for r in got[t]:
            row = []
            for f, v in zip(s.fields(t), r):
                e = [x for x in den[t, f] if x in todo]
                if not e:
                    row.append(v)
                    continue
                case.check(isinstance(v, str) and v in ren and ren[v][0] == e[0],
                           lambda: "%s.%s holds %r, which is not a renamed key of %s" % (t, f, v, e[0]))
                row.append(ren[v][1])
                case.count("cells_renamed")
            back.append(tuple(row))
        case.eq(gen.canon_rows({t: back}, order=order), gen.canon_rows({t: data[t]}, order=order),
                "table %s mapped back through renamings" % t)
    renamed = gen.Schema(s.tables)
    renamed.fks = s.fks
    case.eq({k: v for k, v in ref.fk_failures(renamed, got).items()}, {}, "foreign key failures of the copy")
    if ren:
        case.nontrivial(s.sig(), pre, skip, data)


def call(case, odd, f):
    if not odd:
        return f()
    try:
        return f()
    except Exception as e:
        case.count("refused")
        raise Skip("refused: the documented X-to-many limitation")


@reg.scenario(quick=900, thorough=15000, needs=("cells_renamed", "mixed_type_keys", "many_tables"))
def tic(case):
    """TicDat: result == renaming; original untouched; freeze_it; generic tables carried over"""
    import ticdat
    rng = case.rng
    s, data, ent, den, odd, skip, pre = make(case)
    if rng.random() < .1:
        s.tables["gen_tbl"] = '*'
        case.count("generic")
    fct = s.build(ticdat.TicDatFactory)
    args = gen.tic_args(s, data)
    if '*' in s.tables.values():
        args["gen_tbl"] = generic_frame(rng)
    links = all({b for _, b in mp} == set(s.pks(ft)) for _, ft, mp in s.fks) and \
        len({(nt, ft, frozenset(a for a, _ in mp)) for nt, ft, mp in s.fks}) == len(s.fks) and rng.random() < .2
    if links:
        fct.enable_foreign_key_links()
    dat = fct.TicDat(**args)
    if rng.random() < .2:
        dat = fct.freeze_me(dat)
    before = tic_snap(s, dat)
    freeze = rng.random() < .3
    kw = {"freeze_it": freeze} if rng.random() < .7 else {}
    r = fct.obfusimplify(dat, pre, skip, **kw)
    case.eq(tic_snap(s, dat), before, "obfusimplify changed the original")
    case.check(fct.good_tic_dat_object(r.copy), "the copy is not a good object of the factory")
    got = gen.tic_rows(s, r.copy)
    for t in s.normal():
        if s.pks(t):
            case.eq(len(got[t]), len(data[t]), "rows of " + t)
    judge(case, s, data, got, r.renamings, ent, den, skip, pre, True)
    if "gen_tbl" in s.tables:
        case.check(r.copy.gen_tbl.equals(dat.gen_tbl), "generic table not carried over")
    if kw.get("freeze_it"):
        with case.must_raise("attribute assignment on a frozen copy"):
            setattr(r.copy, s.normal()[0], {})
    else:
        for t in s.normal():
            if s.pks(t):
                getattr(r.copy, t).clear()
            else:
                getattr(r.copy, t)[:] = []
        case.eq(tic_snap(s, dat), before, "the copy shares data with the original")
    case.eq(sorted(map(repr, map(plain, fct.foreign_keys))), sorted(map(repr, s.fks)), "the factory's foreign keys after the call")
    case.sample(dict(schema=s, prepends=pre, skip=skip, renamings=dict(list(r.renamings.items())[:8])))


@reg.scenario(quick=250, thorough=4000, needs=("cells_renamed",))
def pan(case):
    """PanDat: the same, any index"""
    import ticdat
    rng = case.rng
    s, data, ent, den, odd, skip, pre = make(case)
    fct = s.build(ticdat.PanDatFactory)
    dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=rng.random() < .3))
    for t in s.normal():
        setattr(dat, t, reindex(case, getattr(dat, t)))
    before = pan_snap(s, dat)
    r = fct.obfusimplify(dat, pre, skip)
    case.eq(pan_snap(s, dat), before, "obfusimplify changed the original")
    case.check(fct.good_pan_dat_object(r.copy), "the copy is not a good object of the factory")
    judge(case, s, gen.pan_rows(s, dat), gen.pan_rows(s, r.copy), r.renamings, ent, den, skip, pre, False)
    gen.plain_frames(case, s, r.copy, "the copy")
    case.sample(dict(schema=s, prepends=pre, skip=skip))


@reg.scenario(quick=400, thorough=6000, needs=("cells_renamed", "refused"))
def unusual_keys(case):
    """foreign keys to anything: refused or right"""
    import ticdat
    s, data, ent, den, odd, skip, pre = make(case, odd_ok=True)
    fct = s.build(ticdat.TicDatFactory)
    dat = fct.TicDat(**gen.tic_args(s, data))
    before = tic_snap(s, dat)
    r = call(case, odd, lambda: fct.obfusimplify(dat, pre, skip))
    case.eq(tic_snap(s, dat), before, "obfusimplify changed the original")
    if odd:
        case.count("odd_answered")
        got = gen.tic_rows(s, r.copy)
        case.eq(ref.fk_failures(s, got), {}, "foreign key failures of the copy")
        for t in s.normal():
            for old, new in zip(data[t], got[t]):
                for f, a, b in zip(s.fields(t), old, new):
                    if isinstance(b, str) and b in r.renamings and repr(a) != repr(b):
                        b = r.renamings[b][1]
                    case.eq(ref.canon(b), ref.canon(a), "%s.%s mapped back" % (t, f))
        return
    judge(case, s, data, gen.tic_rows(s, r.copy), r.renamings, ent, den, skip, pre, True)


@reg.scenario(quick=150, thorough=2000, needs=("rejections_observed",))
def rejections(case):
    """foreign key failures, bad prepends, prepends for non-entities or skipped tables are refused, nothing modified"""
    import ticdat
    rng = case.rng
    s, data, ent, den, odd, skip, pre = make(case)
    fct = s.build(ticdat.TicDatFactory)
    dat = fct.TicDat(**gen.tic_args(s, data))
    before = tic_snap(s, dat)
    todo = sorted(ent)
    if todo:
        t = rng.choice(todo)
        for bad in ("ab", "AbC", "A1", "PI", 5, None, "A B"):
            with case.must_raise("prepend %r" % (bad,)):
                fct.obfusimplify(dat, {t: bad})
        with case.must_raise("prepend for a skipped table"):
            fct.obfusimplify(dat, {t: "Q"}, [t])
        if len(todo) > 1:
            with case.must_raise("duplicate prepends"):
                fct.obfusimplify(dat, {t: "Q", [x for x in todo if x != t][0]: "Q"})
    for t in s.normal():
        if t not in ent:
            with case.must_raise("prepend for the non-entity table " + t):
                fct.obfusimplify(dat, {t: "Q"})
            with case.must_raise("skip for the non-entity table " + t):
                fct.obfusimplify(dat, {}, [t])
    with case.must_raise("unknown table"):
        fct.obfusimplify(dat, {"no_such_table": "Q"})
    if s.fks:
        nt, ft, mp = rng.choice(s.fks)
        if data[ft] and s.pks(nt):
            d2 = {t: list(v) for t, v in data.items()}
            r = tuple("not there" if f in {a for a, _ in mp} else ("zz" if f in s.pks(nt) else 0) for f in s.fields(nt))
            d2[nt].append(r)
            bad = fct.TicDat(**gen.tic_args(s, d2))
            case.check(ref.fk_failures(s, d2), "harness: no failure made")
            with case.must_raise("an object with foreign key failures"):
                fct.obfusimplify(bad)
    case.eq(tic_snap(s, dat), before, "a refused call changed the object")


@reg.scenario(quick=10, thorough=120, needs=("cells_renamed", "keys"))
def many_keys(case):
    """entities with hundreds to thousands of keys: no two share a name"""
    import ticdat
    rng = case.rng
    s = gen.Schema({"ent": (("id",), ("v",)), "other": (("k",), ("up",)), "child": (("id", "k"), ("w",))})
    s.fks = [("other", "ent", (("up", "id"),)), ("child", "ent", (("id", "id"),)), ("child", "other", (("k", "k"),))]
    def keys(n):
        kind = rng.choice(["text", "numbers", "both"])
        return [("k%d" % i) if kind == "text" or (kind == "both" and i % 3) else i for i in rng.sample(range(10 * n), n)]
    a, b = keys(rng.choice([26, 99, 101, 260, 700, 1001, 1100, 2600])), keys(rng.randint(1, 300))
    data = dict(ent=[(k, rng.random()) for k in a], other=[(k, rng.choice(a)) for k in b],
                child=[(x, y, 1) for x, y in {(rng.choice(a), rng.choice(b)) for _ in range(300)}])
    case.describe(schema=s, keys=(len(a), len(b)))
    ent, den, odd = entities(s)
    skip = ["other"] if rng.random() < .2 else []
    if rng.random() < .7:
        fct = s.build(ticdat.TicDatFactory)
        r = fct.obfusimplify(fct.TicDat(**gen.tic_args(s, data)), {}, skip)
        got = gen.tic_rows(s, r.copy)
        judge(case, s, data, got, r.renamings, ent, den, skip, {}, True)
    else:
        fct = s.build(ticdat.PanDatFactory)
        dat = fct.PanDat(**gen.pan_args(s, data))
        r = fct.obfusimplify(dat, {}, skip)
        got = gen.pan_rows(s, r.copy)
        judge(case, s, gen.pan_rows(s, dat), got, r.renamings, ent, den, skip, {}, False)
    case.eq({t: len(v) for t, v in got.items()}, {t: len(v) for t, v in data.items()}, "rows per table")
    case.count("keys", len(a) + len(b))
