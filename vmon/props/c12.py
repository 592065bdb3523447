"""C12: schemas survive serialization, cloning and schema editing with all their rules."""
import json
from ..core import Registry, Skip
from .. import gen, ref, rules

reg = Registry()
reg.rule = ("random schemas with every kind of rule, then serialized / cloned / edited; the monitor compares everything the "
            "factory shows (tables, fields, defaults, types, foreign keys, parameters, tooltips, flags, predicates, generator "
            "tables) with a plain-data model of the declarations, and the verdicts on random data; non-trivial when rules "
            "are present; distinct by (operation, model)")
reg.assumptions = ["foreign keys are compared as a set, mappings as sets of field pairs",
                   "clone_remove_a_column on the parameters table while parameters are declared is not judged"]
CLS = {"tic": "TicDatFactory", "pan": "PanDatFactory"}


def other(kind):
    return "pan" if kind == "tic" else "tic"


def cls_of(kind):
    import ticdat
    return getattr(ticdat, CLS[kind])


def same(case, fct, kind, r, what):
    got, want = rules.observe(fct, kind), r.view(kind)
    case.count("factories_compared")
    case.check(got == want, lambda: "%s: %s" % (what, rules.diff(got, want)))


def populated(case, kind, **kw):
    r = rules.start(case.rng, **kw)
    fct = rules.make(r, cls_of(kind))
    return rules.populate(case.rng, r, fct, kind), fct


def verdicts(fct, kind, s, data):
    """what the integrity checks say about the data, in comparable form"""
    if kind == "tic":
        dat = fct.TicDat(**gen.tic_args(s, data))
    else:
        dat = fct.PanDat(**gen.pan_args(s, data, dtype_object=True))
    if kind == "tic":
        types = {tuple(k): sorted(map(repr, v.pks if v.pks is not None else [])) + sorted(map(repr, v.bad_values))
                 for k, v in fct.find_data_type_failures(dat).items()}
        fks = {(k.native_table, k.foreign_table, str(k.mapping)): sorted(map(repr, v.native_pks))
               for k, v in fct.find_foreign_key_failures(dat).items()}
        rows = {tuple(k): repr(v) for k, v in fct.find_data_row_failures(dat).items()}
    else:
        types = {tuple(k): v.to_dict("split") for k, v in fct.find_data_type_failures(dat, as_table=True).items()}
        fks = {(k.native_table, k.foreign_table, str(k.mapping)): v.to_dict("split")
               for k, v in fct.find_foreign_key_failures(dat).items()}
        rows = {tuple(k): v.to_dict("split") for k, v in fct.find_data_row_failures(dat).items()}
    return {k: {x: repr(y) for x, y in v.items()} for k, v in dict(types=types, fks=fks, rows=rows).items()}, dat


def judge(case, r, a, b, kind, what):
    """two factories of one kind, declared with the same rules r, must give the same verdicts"""
    if r.links:
        return                           # links only concern construction; covered by C13
    s = r.schema()
    s.tables = {t: v for t, v in s.tables.items() if v != '*'}
    if r.gens:
        s.tables = {t: v for t, v in s.tables.items() if t not in r.gens}
    if not s.tables or any(fk[0] in r.gens or fk[1] in r.gens for fk in r.fks):
        return
    rng = case.rng
    data = gen.rows(rng, s, cell=lambda t, f: gen.near(rng, s.types.get((t, f))) if (t, f) in s.types
                    else gen.anything(rng), key=lambda t, f: gen.key_value(rng, gen.KEYS_STR[:4] + [1, 2, 3]))
    va, vb = verdicts(a, kind, s, data)[0], verdicts(b, kind, s, data)[0]
    case.eq(vb, va, "%s judges data differently" % what)
    case.count("data_judged")


def via_json(case, sch):
    """the schema, through JSON text"""
    try:
        txt = json.dumps(sch)
    except TypeError:
        raise Skip("schema not JSON serializable")
    return json.loads(txt)


@reg.scenario(quick=700, thorough=15000, needs=("factories_compared", "data_judged", "json"))
def serialize(case):
    """create_from_full_schema of schema(True), directly and through JSON text, for both factories and across them"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind)
    case.describe(kind=kind, rules=r)
    same(case, fct, kind, r, "declared factory")
    sch = fct.schema(include_ancillary_info=True)
    if rng.random() < .6:
        sch = via_json(case, sch)
        case.count("json")
    kind2 = kind if rng.random() < .7 else other(kind)
    new = cls_of(kind2).create_from_full_schema(sch)
    want = r.copy()
    want.preds, want.gens, want.links = {}, [], False        # not part of the schema dictionary
    same(case, new, kind2, want, "factory made from the schema")
    same(case, fct, kind, r, "original factory")
    if kind2 == kind:
        plain = cls_of(kind).create_from_full_schema(fct.schema(include_ancillary_info=True))
        judge(case, want, plain, new, kind, "factory made from the schema")
        if not r.preds and not r.gens and not r.links:
            judge(case, want, fct, new, kind, "factory made from the schema")
    if r.types or r.fks or r.params or r.tooltips:
        case.nontrivial(kind, kind2, repr(want))
    case.sample(r)


@reg.scenario(quick=400, thorough=6000, needs=("removed_something",))
def json_subset(case):
    """a schema dictionary lacking the newer, optional entries is accepted and leaves those rules at their defaults"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind)
    case.describe(kind=kind, rules=r)
    sch = dict(fct.schema(include_ancillary_info=True))
    opt = {"parameters": ("params", {}), "infinity_io_flag": ("inf", "N/A"), "xlsx_trailing_empty_rows": ("xlsx", "prune"),
           "duplicates_ticdat_init": ("dup", "assert"), "tooltips": ("tooltips", {}),
           "automunge_multitype_fields": ("automunge", True)}
    want = r.copy()
    want.preds, want.gens, want.links = {}, [], False
    for k in rng.sample(sorted(opt), rng.randint(1, 6)):
        sch.pop(k)
        setattr(want, *opt[k])
        case.count("removed_something")
    same(case, cls_of(kind).create_from_full_schema(sch), kind, want, "factory made from a partial schema")
    case.nontrivial(kind, sorted(sch), repr(want))


@reg.scenario(quick=900, thorough=20000, needs=("factories_compared", "data_judged", "restricted", "cross"))
def clone(case):
    """clone(), restricted clones and clones into the other factory type keep exactly the remaining rules"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind, generic=0.15)
    case.describe(kind=kind, rules=r)
    used = rng.random() < .3
    if used:
        (fct.TicDat if kind == "tic" else fct.PanDat)()
    kw, want, kind2 = {}, r, kind
    if rng.random() < .6:
        keep = rng.sample(sorted(r.tables), rng.randint(1, len(r.tables)))
        kw["table_restrictions"] = rng.choice([list, set, tuple, frozenset])(keep)
        want = want.restrict(set(keep))
        case.count("restricted")
    x = rng.random()
    if x < .35:
        kind2 = other(kind)
        kw["clone_factory"] = cls_of(kind2)
        case.count("cross")
    elif x < .5:
        kw["clone_factory"] = cls_of(kind)
    elif x < .6:
        kw["clone_factory"] = cls_of(kind).create_from_full_schema
    if rng.random() < .3:
        kw["convert_dat"] = lambda d: d
    elif kind2 != kind:
        want = want.copy()
        want.preds = {k: v for k, v in want.preds.items() if not v[1]}
    if kind2 == "pan" or kind == "pan":
        want = want.copy()
        want.gens = [] if kind == "pan" else want.gens
        if kind2 == "pan":
            want.links = False
    case.describe(kwargs={k: str(v) for k, v in kw.items()})
    new = fct.clone(**kw)
    case.check(isinstance(new, cls_of(kind2)), "clone has the wrong type")
    same(case, new, kind2, want, "clone")
    same(case, fct, kind, r, "original after cloning")
    # the clone is not frozen by the use of the original, and changing it leaves the original alone
    r2 = rules.populate(rng, want, new, kind2, n=(1, 6))
    same(case, new, kind2, r2, "clone after more declarations")
    same(case, fct, kind, r, "original after changing the clone")
    new = fct.clone(**kw)
    if kind2 == kind and "convert_dat" not in kw:
        judge(case, want, fct.clone(table_restrictions=kw.get("table_restrictions")), new, kind, "clone")
        if "table_restrictions" not in kw:
            judge(case, want, fct, new, kind, "clone")
    case.nontrivial(kind, kind2, used, repr(want))


def new_name(rng, taken, pool):
    low = {x.lower() for x in taken}
    c = [x for x in pool if x.lower() not in low]
    return rng.choice(c) if c else None


def edit(rng, r, fct):
    """one schema edit: (name, call, new rules) or None"""
    op = rng.choice(["add_table", "add_column", "add_column", "remove_column", "rename_column", "rename_column", "restrict"])
    norm = sorted(r.normal())
    if op == "add_table":
        t = new_name(rng, r.tables, gen.TABLE_NAMES)
        fs = gen.names(rng, gen.FIELD_NAMES, rng.randint(1, 4))
        k = rng.randint(0, len(fs))
        pks, dfs = fs[:k], fs[k:]
        ct = rng.choice([list, tuple])
        return op, (lambda: fct.clone_add_a_table(t, ct(pks), ct(dfs))), r.add_table(t, pks, dfs)
    if op == "restrict":
        keep = rng.sample(sorted(r.tables), max(1, len(r.tables) - 1))
        return op, (lambda: fct.clone(table_restrictions=keep)), r.restrict(set(keep))
    if not norm:
        return None
    t = rng.choice(norm)
    if op == "add_column":
        f = new_name(rng, r.fields(t), gen.FIELD_NAMES)
        kind = rng.choice(["primary key", "data"])
        if not f or (t == "parameters" and r.params) or (kind == "primary key" and any(k[0] == t for k in r.preds) and False):
            return None
        n = len(r.tables[t][0 if kind == "primary key" else 1])
        pos = rng.choice(["append"] + list(range(n + 1)))
        want = r.add_column(t, f, kind, pos)
        if pos == "append" and rng.random() < .5:
            return op, (lambda: fct.clone_add_a_column(t, f, kind)), want
        return op, (lambda: fct.clone_add_a_column(t, f, kind, pos)), want
    f = rng.choice(r.fields(t))
    if op == "remove_column":
        if len(r.fields(t)) == 1 or (t == "parameters" and r.params):
            return None
        return op, (lambda: fct.clone_remove_a_column(t, f)), r.remove_column(t, f)
    g = new_name(rng, r.fields(t), gen.FIELD_NAMES + ["brand new"])
    return op, (lambda: fct.clone_rename_a_column(t, f, g)), r.rename_column(t, f, g)


@reg.scenario(quick=900, thorough=20000, needs=("add_table", "add_column", "remove_column", "rename_column", "restrict"))
def edits(case):
    """histories of clone_add/remove/rename edits: each does exactly what it names, no earlier factory changes"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind)
    case.describe(kind=kind, start=r)
    alive, done = [(fct, r)], []
    for _ in range(rng.randint(1, 5)):
        fct, r = alive[-1] if rng.random() < .8 else rng.choice(alive)
        e = edit(rng, r, fct)
        if not e:
            continue
        op, call, want = e
        done.append((op, repr(want.tables)))
        case.describe(edits=done)
        new = call()
        case.count(op)
        case.check(type(new) is type(fct), "edit returned a %s" % type(new))
        same(case, new, kind, want, "factory after %s" % op)
        alive.append((new, want))
        if rng.random() < .4:
            want = rules.populate(rng, want, new, kind, n=(1, 4))
            alive[-1] = (new, want)
    for i, (f, rr) in enumerate(alive):
        same(case, f, kind, rr, "factory %d at the end" % i)
    if len(alive) > 1:
        case.nontrivial(kind, tuple(done))
        # a column or table added by an edit is usable: rows of it can be made, with defaults
        f, rr = alive[-1]
        s = rr.schema()
        dat = f.TicDat() if kind == "tic" else f.PanDat()
        case.check(f.good_tic_dat_object(dat) if kind == "tic" else f.good_pan_dat_object(dat), "empty object not good")


@reg.scenario(quick=300, thorough=3000, needs=("rejections_observed",))
def bad_edits(case):
    """schema edits naming unknown tables/fields, existing names or bad positions raise and change nothing"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind)
    norm = [t for t in sorted(r.normal()) if r.fields(t)]
    if not norm:
        raise Skip("only generic tables")
    t = rng.choice(norm)
    f = rng.choice(r.fields(t))
    n = len(r.tables[t][0])
    for name, call in [
            ("unknown table", lambda: fct.clone_remove_a_column("nope", f)),
            ("unknown field", lambda: fct.clone_remove_a_column(t, "nope")),
            ("unknown field", lambda: fct.clone_rename_a_column(t, "nope", "other")),
            ("existing field", lambda: fct.clone_rename_a_column(t, f, rng.choice(r.fields(t)))),
            ("existing field", lambda: fct.clone_add_a_column(t, f, "data")),
            ("existing field", lambda: fct.clone_add_a_column(t, f, "primary key")),
            ("existing table", lambda: fct.clone_add_a_table(t, ["a"], ["b"])),
            ("no field", lambda: fct.clone_add_a_table("brand_new", [], [])),
            ("duplicate field", lambda: fct.clone_add_a_table("brand_new", ["a"], ["a"])),
            ("bad field type", lambda: fct.clone_add_a_column(t, "brand new", "key")),
            ("bad position", lambda: fct.clone_add_a_column(t, "brand new", "primary key", n + 1)),
            ("bad position", lambda: fct.clone_add_a_column(t, "brand new", "primary key", -1)),
            ("unknown table", lambda: fct.clone(table_restrictions=[t, "nope"]))]:
        with case.must_raise(name + " on " + kind):
            call()
    same(case, fct, kind, r, "factory after rejected edits")
    case.nontrivial(kind, repr(r.tables))
