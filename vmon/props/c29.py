"""C29: factory rules are fixed once used, and factories never influence each other."""
import os
from ..core import Registry, Skip
from .. import gen, ref, rules
from .c12 import cls_of, other, same, populated

reg = Registry()
reg.rule = ("random histories of declarations (set / override / clear of every kind of rule), rejected declarations, uses and "
            "clones over several live factories; after every step each factory's visible rules must equal its own plain-data "
            "model; distinct by (history, models)")
reg.assumptions = ["flags (infinity, duplicates, xlsx, automunge) and tooltips are not among the rules fixed by first use",
                   "clearing a type that was never declared is not a change and need not raise",
                   "remove_parameter stays possible after use (the existing test suite relies on it)"]
FIXED = ["type", "clear_type", "default", "defaults", "fk", "clear_fk", "pred", "pred_override", "pred_remove", "param",
         "gens"]


@reg.scenario(quick=700, thorough=15000, needs=("declared", "interleaved"))
def histories(case):
    """interleaved declarations on 2-4 factories: each always shows exactly its own last declared rules"""
    rng = case.rng
    base = rules.start(rng, generic=.1)
    alive, log = [], []
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(["tic", "pan"])
        r = base if rng.random() < .7 else rules.start(rng, generic=.1)
        alive.append([kind, r.copy(), rules.make(r, cls_of(kind))])
    for _ in range(rng.randint(10, 60)):
        i = rng.randrange(len(alive))
        kind, r, fct = alive[i]
        d = rules.declare(rng, r, fct, kind)
        if not d:
            continue
        d[0]()
        alive[i][1] = d[1]
        case.count("declared")
        if rng.random() < .3:
            same(case, fct, kind, d[1], "factory after a declaration")
    for kind, r, fct in alive:
        same(case, fct, kind, r, "factory at the end of the history")
    case.count("interleaved")
    case.nontrivial(repr([(k, r) for k, r, _ in alive]))
    case.sample([repr(r)[:400] for _, r, _ in alive])


def bad_calls(rng, r, fct, kind):
    norm = [t for t in sorted(r.normal()) if r.fields(t) and t != "parameters"]
    generic = [t for t, v in r.tables.items() if v == '*']
    out = [("unknown table", lambda: fct.set_data_type("nope", "x")),
           ("unknown table", lambda: fct.set_default_value("nope", "x", 1)),
           ("unknown table", lambda: fct.set_default_values(nope={"x": 1})),
           ("unknown table", lambda: fct.add_data_row_predicate("nope", lambda row: True)),
           ("unknown table", lambda: fct.set_tooltip("nope", "", "x")),
           ("unknown parameter", lambda: fct.remove_parameter("never declared")),
           ("bad infinity flag", lambda: fct.set_infinity_io_flag(rng.choice([0, -5, "x", float("inf"), True and "n/a"]))),
           ("bad xlsx option", lambda: fct.set_xlsx_trailing_empty_rows("nope")),
           ("bad duplicates option", lambda: fct.set_duplicates_ticdat_init("nope")),
           ("bad automunge option", lambda: fct.set_automunge_multitype_fields("nope"))]
    if "parameters" not in r.tables:
        out.append(("no parameters table", lambda: fct.add_parameter("p", 1)))
    elif r.tables["parameters"] != '*' and ("parameters", r.tables["parameters"][1][0]) not in r.types:
        out.append(("illegal parameter default", lambda: fct.add_parameter("p", "text")))
        out.append(("illegal parameter default", lambda: fct.add_parameter("p", 11, max=10)))
        out.append(("illegal parameter default", lambda: fct.add_parameter("p", rng.choice([None, float("nan")]))))
        out.append(("illegal parameter default", lambda: fct.add_parameter("p", 1, number_allowed=False, strings_allowed='*')))
        out.append(("illegal parameter default", lambda: fct.add_parameter("p", 1.5, must_be_int=True)))
        out.append(("illegal parameter default", lambda: fct.add_parameter("p", "not a date", datetime=True)))
        if r.params:
            out.append(("type on the data field of declared parameters",
                        lambda: fct.set_data_type("parameters", r.tables["parameters"][1][0])))
    elif r.tables["parameters"] != '*':
        out.append(("parameter with a typed data field", lambda: fct.add_parameter("p", 1)))
    for g in generic[:1]:
        out.append(("generic table", lambda: fct.set_data_type(g, "x")))
        if kind == "tic":
            out.append(("predicate on a generic table", lambda: fct.add_data_row_predicate(g, lambda row: True)))
        if norm:
            out.append(("generic table", lambda: fct.add_foreign_key(norm[0], g, [r.fields(norm[0])[0], "x"])))
        if kind == "tic":
            out.append(("generic table", lambda: fct.set_generator_tables([g])))
    if norm:
        t = rng.choice(norm)
        f = rng.choice(r.fields(t))
        out += [("unknown field", lambda: fct.set_data_type(t, "nope")),
                ("unknown field", lambda: fct.set_default_value(t, "nope", 1)),
                ("unknown field", lambda: fct.set_default_values(**{t: {"nope": 1}})),
                ("unknown field", lambda: fct.set_tooltip(t, "nope", "x")),
                ("unknown field", lambda: fct.add_foreign_key(t, t, ["nope", f])),
                ("unknown field", lambda: fct.add_foreign_key(t, t, [f, "nope"])),
                ("empty mapping", lambda: fct.add_foreign_key(t, t, [])),
                ("max below min", lambda: fct.set_data_type(t, f, min=5, max=4)),
                ("bad min", lambda: fct.set_data_type(t, f, min="x")),
                ("bad strings", lambda: fct.set_data_type(t, f, strings_allowed="abc")),
                ("bad strings", lambda: fct.set_data_type(t, f, strings_allowed=[1])),
                ("bad default", lambda: fct.set_default_value(t, f, [1])),
                ("bad default", lambda: fct.set_default_values(**{t: {f: {}}})),
                ("not a predicate", lambda: fct.add_data_row_predicate(t, 3)),
                ("not a maker", lambda: fct.add_data_row_predicate(t, lambda row: 1, predicate_kwargs_maker=3)),
                ("bad response", lambda: fct.add_data_row_predicate(t, lambda row: 1, predicate_failure_response="x")),
                ("bad tooltip", lambda: fct.set_tooltip(t, f, 3))]
        if kind == "tic" and r.tables[t][0]:
            out.append(("keyed generator table", lambda: fct.set_generator_tables([t])))
        if kind == "tic":
            out.append(("unknown generator table", lambda: fct.set_generator_tables(["nope"])))
        if t in r.gens:
            out.append(("predicate on a generator table", lambda: fct.add_data_row_predicate(t, lambda row: True)))
    return out


@reg.scenario(quick=500, thorough=8000, needs=("rejections_observed",))
def rejected(case):
    """declarations that name unknown or unsuitable things, or carry bad values, raise and change nothing"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind, generic=.2)
    case.describe(kind=kind, rules=r)
    calls = bad_calls(rng, r, fct, kind)
    rng.shuffle(calls)
    for name, call in calls:
        with case.must_raise("declaration with " + name):
            call()
        if rng.random() < .2:
            same(case, fct, kind, r, "factory after a rejected declaration (%s)" % name)
    same(case, fct, kind, r, "factory after rejected declarations")
    case.nontrivial(kind, repr(r))


def use(case, r, fct, kind):
    """a random way of making the first data object; returns a label"""
    rng = case.rng
    s = r.schema()
    ways = ["empty", "data"]
    if kind == "tic":
        ways += ["csv"] + ([] if r.gens or "*" in r.tables.values() else ["json"])
    way = rng.choice(ways)
    mk = fct.TicDat if kind == "tic" else fct.PanDat
    if way == "empty":
        mk()
    elif way == "data":
        ok = [t for t in s.normal() if t not in r.gens]
        s.tables = {t: s.tables[t] for t in ok}
        data = gen.rows(rng, s)
        mk(**(gen.tic_args(s, data) if kind == "tic" else gen.pan_args(s, data)))
    elif way == "csv":
        os.mkdir(case.path("csvdir"))
        fct.csv.create_tic_dat(case.path("csvdir"))
    elif way == "json":
        with open(case.path("x.json"), "w") as f:
            f.write("{}")
        fct.json.create_tic_dat(case.path("x.json"))
    return way


@reg.scenario(quick=700, thorough=15000, needs=("late_attempts", "rejections_observed"))
def fixed_after_use(case):
    """after the first data object, every attempt to change the rules raises and leaves all of them as they were"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind, generic=.1)
    if r.links or (r.gens and False):
        raise Skip("linked factories are used in C13")
    case.describe(kind=kind, rules=r)
    way = use(case, r, fct, kind)
    case.count("used:" + way)
    same(case, fct, kind, r, "factory after use")
    done = []
    for op in FIXED + rng.sample(FIXED, 6):
        d = rules.declare(rng, r, fct, kind, op)
        if not d or (op == "clear_type" and d[1].types == r.types):
            continue
        with case.must_raise("%s after the factory was used (%s)" % (op, way)):
            d[0]()
        case.count("late_attempts")
        done.append(op)
        same(case, fct, kind, r, "factory after a late %s" % op)
    with case.must_raise("add_implied_foreign_keys after use") if kind == "tic" else _nothing():
        fct.add_implied_foreign_keys() if kind == "tic" else None
    same(case, fct, kind, r, "factory after late attempts")
    if r.params:
        d = rules.declare(rng, r, fct, kind, "param_remove")
        d[0]()
        same(case, fct, kind, d[1], "factory after a late remove_parameter")
        case.count("late_removals")
    case.nontrivial(kind, way, repr(r))


class _nothing(object):
    def __enter__(self): return self
    def __exit__(self, *a): return False


@reg.scenario(quick=400, thorough=6000, needs=("mutations_tried",))
def handed_out(case):
    """the dictionaries and tuples a factory hands out can not be used to change it"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind)
    case.describe(kind=kind, rules=r)
    full = fct.schema(include_ancillary_info=True)
    objs = [fct.primary_key_fields, fct.data_fields, fct.default_values, fct.data_types, fct.parameters, fct.tooltips,
            fct.schema(), full, full["tables_fields"], full["tooltips"], full["default_values"], full["data_types"],
            full["parameters"]]
    for t in r.normal():
        objs.append(fct.get_row_predicates(t))
    for o in list(objs):
        objs += [v for v in o.values() if isinstance(v, (dict, list))]
    for o in list(objs):
        if isinstance(o, list):
            objs += [x for x in o if isinstance(x, list)]
    for o in objs:
        for m in (lambda: o.__setitem__(next(iter(o)), "changed"), lambda: o.clear(), lambda: o.popitem(),
                  lambda: o.update(x="y"), lambda: o.append("z"), lambda: o.pop()):
            try:
                m()
            except Exception:
                case.count("rejections_observed")
            case.count("mutations_tried")
    same(case, fct, kind, r, "factory after editing what it handed out")
    case.nontrivial(kind, repr(r))


@reg.scenario(quick=400, thorough=8000, needs=("objects_compared", "args_mutated"))
def independence(case):
    """containers passed in are copied; clones and sibling factories, and the objects they make, never change each other"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r = rules.start(rng, generic=.1, params=0)
    norm = [t for t in sorted(r.normal()) if r.fields(t)]
    if not norm:
        raise Skip("only generic tables")
    args = {t: ('*' if v == '*' else [list(v[0]), list(v[1])]) for t, v in r.tables.items()}
    fct = cls_of(kind)(**args)
    twin = cls_of(kind)(**args)
    tr = r.copy()
    t = rng.choice(norm)
    f = rng.choice(r.fields(t))
    strings, dflt = ["a", "b"], {t: {f: 5}}
    for x in (fct, twin):
        x.set_data_type(t, f, number_allowed=False, strings_allowed=strings)
        x.set_default_values(**dflt)
    for rr in (r, tr):
        rr.types[t, f] = dict(number_allowed=False, strings_allowed=("a", "b"))
        rr.defaults[t, f] = 5
    strings.append("late")
    dflt[t][f] = "late"
    for v in args.values():
        if v != '*':
            v[0].append("late")
            v[1].clear()
    mp = [[f, r.fields(norm[0])[0]]]
    fct.add_foreign_key(t, norm[0], mp)
    r.fks = {(t, norm[0], ((mp[0][0], mp[0][1]),))}
    mp[0][0] = "late"
    mp.append(["x", "y"])
    case.count("args_mutated")
    same(case, fct, kind, r, "factory after its arguments were edited")
    same(case, twin, kind, tr, "twin factory")
    # objects made by one factory, then a clone with other defaults is made and used
    s = tr.schema()
    s.tables = {x: v for x, v in s.tables.items() if v != '*'}
    data = gen.rows(rng, s, n=(1, 4))
    def obj(fc):
        return fc.TicDat(**gen.tic_args(s, data)) if kind == "tic" else fc.PanDat(**gen.pan_args(s, data))
    rd = gen.tic_rows if kind == "tic" else gen.pan_rows
    dat = obj(twin)
    before = gen.canon_rows(rd(s, dat), order=True)
    cl = twin.clone()
    cr = rules.populate(rng, tr, cl, kind, n=(2, 8))
    if not cr.gens and not cr.links:
        d2 = obj(cl)
        case.eq(gen.canon_rows(rd(s, d2), order=True), before, "the clone's object")
        case.count("objects_compared")
        if kind == "tic":
            for tt in s.normal():
                if s.pks(tt):
                    k = tuple("new key %d" % i for i in range(len(s.pks(tt))))
                    k = k[0] if len(k) == 1 else k
                    for fc, d, rr in ((twin, dat, tr), (cl, d2, cr)):
                        got = {x: ref.canon(y) for x, y in getattr(d, tt)[k].items()}
                        case.eq(got, {x: ref.canon(rr.defaults[tt, x]) for x in s.dfs(tt)}, "defaults of a new row")
                        del getattr(d, tt)[k]
    case.eq(gen.canon_rows(rd(s, dat), order=True), before, "object of the first factory, after the clone was changed")
    same(case, twin, kind, tr, "twin after all")
    same(case, fct, kind, r, "factory after all")
    case.nontrivial(kind, repr(r), repr(cr))
