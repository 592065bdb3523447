"""C03: nothing changes a frozen data object, and the mappings a factory hands out are read-only."""
import pandas as pd
from ..core import Registry
from .. import gen, ref
from .c01 import defaults

reg = Registry()
reg.rule = ("a frozen object, made by one of the freezing paths, against every public method and in-place operator of its tables, "
            "rows and links, called with plausible arguments; distinct by (path, container, operation)")
reg.assumptions = ["generic tables (DataFrames) are excluded, as are re-running __init__ and underscore attributes"]

INPLACE = ["__setitem__", "__delitem__", "__ior__", "__iadd__", "__imul__", "__iand__", "__isub__"]
MUST_RAISE = {"dict": ["clear", "popitem", "pop", "update", "__setitem__", "__delitem__", "__ior__"],
              "row": ["__setitem__"], "emptyrow": ["update", "clear", "popitem", "setdefault", "__setitem__", "__ior__"]}


def attack(case, name, kind, obj, args_list, snap, want):
    """call everything on obj; the snapshot must not move"""
    ops = [m for m in dir(obj) if not m.startswith("_") and callable(getattr(type(obj), m, None))]
    ops += [m for m in INPLACE if hasattr(type(obj), m)]
    for m in ops:
        raised = 0
        for args in args_list:
            try:
                getattr(obj, m)(*args)
            except Exception:
                raised += 1
            case.count("attacks")
        case.eq(snap(), want, "data after %s.%s on a frozen object" % (name, m), key="%s.%s" % (kind, m))
        if m in MUST_RAISE.get(kind, ()):
            case.check(raised == len(args_list), lambda: "%s.%s did not raise on a frozen object" % (name, m), key="quiet %s.%s" % (kind, m))
        case.nontrivial(kind, m, name)
    for attr in ["_dataFrozen", "brand_new", "_attributesFrozen"]:
        with case.must_raise("setting attribute %s of %s" % (attr, name), key="attr %s.%s" % (kind, attr)) if kind != "tuple" else _quiet():
            setattr(obj, attr, False)


class _quiet(object):
    def __enter__(self): pass
    def __exit__(self, *a): return True


def snapshot(s, dat):
    rows = gen.tic_rows(s, dat)
    return repr({t: [[(type(x).__name__, repr(x)) for x in r] for r in rows[t]] for t in sorted(rows)})


@reg.scenario(quick=900, thorough=9000, needs=("attacks", "tables", "rows", "links", "reads"))
def frozen_object(case):
    """every mutator of object, tables, rows and links of a frozen object"""
    import ticdat
    rng = case.rng
    links = rng.random() < .5
    if links:
        s = gen.link_schema(rng)
        data = gen.fk_data(rng, s, null=0, n=(1, 5))
        for t in s.normal():
            data[t] = [tuple("" if v is None else v for v in r) for r in data[t]]
    else:
        s = defaults(rng, gen.schema(rng, tables=(1, 4), generic=.1, no_name=True))
        data = gen.rows(rng, s, n=(0, 4), cell=lambda t, f: rng.choice([1, 2.5, "abc", 7]), key=lambda t, f: rng.choice(["a", "b", "c"]))
        s.generators = [t for t in s.normal() if not s.pks(t) and rng.random() < .2]
    tdf = s.build(ticdat.TicDatFactory)
    if links:
        tdf.enable_foreign_key_links()
    dat = tdf.TicDat(**gen.tic_args(s, data))
    paths = ["freeze_me", "factory freeze_me", "copy"]
    if not links and not s.generators and len(s.normal()) == len(s.tables):
        paths += ["json", "csv", "sql", "xls", "pandat"]
    path = rng.choice(paths)
    case.describe(schema=s, data=data, path=path, links=links)
    before = snapshot(s, dat)
    if path == "freeze_me":
        fr = ticdat.freeze_me(dat)
    elif path == "factory freeze_me":
        fr = tdf.freeze_me(dat)
    elif path == "copy":
        fr = tdf.copy_tic_dat(dat, freeze_it=True)
        case.check(snapshot(s, dat) == before, "copying changed the original")
    elif path == "pandat":
        pdf = s.build(ticdat.PanDatFactory)
        fr = pdf.copy_to_tic_dat(pdf.PanDat(**gen.pan_args(s, data, True)), freeze_it=True)
        before = snapshot(s, fr)
    else:
        p = case.path({"json": "x.json", "csv": "d", "sql": "x.db", "xls": "x.xlsx"}[path])
        io = getattr(tdf, path)
        {"json": lambda: io.write_file(dat, p), "csv": lambda: io.write_directory(dat, p), "sql": lambda: io.write_db_data(dat, p),
         "xls": lambda: io.write_file(dat, p)}[path]()
        fr = io.create_tic_dat(p, freeze_it=True)
        before = snapshot(s, fr)
    case.count("path " + path)
    snap = lambda: snapshot(s, fr)
    case.eq(snap(), before, "data after freezing (%s)" % path)
    # the object
    for t in s.normal():
        for what, f in [("setting", lambda: setattr(fr, t, {})), ("deleting", lambda: delattr(fr, t)),
                        ("augmenting", lambda: setattr(fr, t, getattr(fr, t)))]:
            with case.must_raise("%s the attribute %s" % (what, t)):
                f()
    with case.must_raise("setting a new attribute"):
        fr.brand_new = 1
    # tables, rows, links
    for t in s.normal():
        tbl = getattr(fr, t)
        if t in s.generators:
            case.check(callable(tbl), "generator table")
            continue
        case.count("tables")
        n = len(s.pks(t))
        nk = ("zz",) * n if n > 1 else "zz"
        row = {f: 99 for f in s.dfs(t)}
        if n:
            ks = list(tbl)
            k = ks[0] if ks else nk
            calls = [(nk, row), (k, row), ({nk: row},), ([(k, row)],), (k,), (nk,), ()]
            attack(case, t, "dict", tbl, [(k, row)], snap, before)
            for c in calls:
                for m in ["pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__", "__ior__", "get", "copy",
                          "keys", "values", "items", "__getitem__", "__contains__"]:
                    try:
                        r = getattr(tbl, m)(*c)
                        if m == "copy":
                            r[nk] = 5
                    except Exception:
                        pass
                    case.count("attacks")
                    case.eq(snap(), before, "data after %s.%s%r on a frozen object" % (t, m, c), key="dict." + m)
            try:
                fr_tbl = getattr(fr, t)
                fr_tbl |= {nk: row}
            except Exception:
                pass
            case.eq(snap(), before, "data after |= on frozen " + t, key="dict.|=")
            with case.must_raise("setdefault of a missing key of frozen " + t, key="quiet dict.setdefault"):
                tbl.setdefault(nk, row)
            with case.must_raise("reading a missing key of frozen " + t, KeyError):
                tbl[nk]
            case.count("reads")
            rows = list(tbl.items())
            case.check(all(tbl[k] is r and tbl.get(k) is r for k, r in rows) and len(tbl) == len(data[t]), "reading frozen " + t)
        else:
            case.check(len(tbl) == len(data[t]) and isinstance(tbl, tuple), "frozen keyless table is %s" % type(tbl))
            attack(case, t, "tuple", tbl, [(0, row), (row,), (0,), ()], snap, before)
            rows = list(enumerate(tbl))
        for k, r in rows[:3]:
            case.count("rows")
            f = s.dfs(t)[0] if s.dfs(t) else "zz"
            attack(case, "%s[%r]" % (t, k), "row" if s.dfs(t) else "emptyrow", r, [(f, 5)] if s.dfs(t) else [("zz", 5)], snap, before)
            for l in [x for x in vars(r) if not x.startswith("_")] if hasattr(r, "__dict__") else []:
                link = getattr(r, l)
                case.count("links")
                with case.must_raise("replacing link %s" % l):
                    setattr(r, l, {})
                with case.must_raise("deleting link %s" % l):
                    delattr(r, l)
                if isinstance(link, dict) and not link and s.tables.get(l) and l in s.tables and not s.dfs(l):
                    continue                  # ambiguous: may be a linked data-less row
                children = dict(link) if isinstance(link, dict) else None
                if children is not None:
                    nm = "%s[%r].%s" % (t, k, l)
                    ck = list(children)[0] if children else "zz"
                    for m, a in [("__setitem__", (ck, 5)), ("__delitem__", (ck,)), ("clear", ()), ("pop", (ck,)), ("popitem", ()),
                                 ("update", ({ck: 5},)), ("setdefault", ("zzz", 5)), ("__ior__", ({ck: 5},)), ("__getitem__", ("zzzz",)),
                                 ("__getitem__", (("z1", "z2"),)), ("__getitem__", (("z1", "z2", "z3"),))]:
                        try:
                            getattr(link, m)(*a)
                        except Exception:
                            pass
                        case.count("attacks")
                        case.check(list(link.items()) == list(children.items()) and
                                   all(link[x] is y for x, y in children.items()),
                                   lambda: "link %s changed by %s%r" % (nm, m, a), key="link." + m)
                    for c in children.values():
                        for f in list(c.keys())[:1]:
                            with case.must_raise("editing row of link " + nm, key="link row"):
                                c[f] = "edited"
                case.eq(snap(), before, "data after attacking link %s" % l, key="link")
    case.check(ticdat.freeze_me(fr) is fr, "freezing twice")
    case.eq(snap(), before, "data at the end")
    case.sample(dict(schema=s, path=path))


def mappings(fct):
    for name in ["primary_key_fields", "data_fields", "default_values", "data_types", "parameters", "tooltips"]:
        m = getattr(fct, name, None)
        if m is None:
            continue
        yield name, m
        for k, v in m.items():
            if hasattr(v, "items"):
                yield "%s[%r]" % (name, k), v


@reg.scenario(quick=500, thorough=4000, needs=("attacks",))
def factory_mappings(case):
    """mutating what the factory hands out never changes the factory (and raises for its dicts)"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.fk_schema(rng))
    for t in s.normal():
        for f in s.fields(t):
            if rng.random() < .4:
                s.types[t, f] = gen.type_spec(rng)
    s.tables["parameters"] = (("key",), ("value",))
    s.params["p"] = (5, {})
    cls = rng.choice([ticdat.TicDatFactory, ticdat.PanDatFactory])
    fct = s.build(cls)
    t0 = s.normal()[0]
    fct.set_tooltip(t0, s.fields(t0)[0], "a tip")
    used = rng.random() < .5
    if used:
        fct.TicDat() if cls is ticdat.TicDatFactory else fct.PanDat()
    snap = lambda: repr(sorted((k, sorted(map(repr, v.items())) if hasattr(v, "items") else sorted(map(repr, v)) if isinstance(v, tuple) else v)
                               for k, v in fct.schema(include_ancillary_info=True).items()))
    before = snap()
    case.describe(schema=s, factory=cls.__name__)
    for name, m in mappings(fct):
        k = list(m)[0] if len(m) else "zz"
        for op, a in [("__setitem__", (k, 5)), ("__setitem__", ("zz", 5)), ("__delitem__", (k,)), ("clear", ()), ("pop", (k,)),
                      ("popitem", ()), ("update", ({"zz": 5},)), ("setdefault", ("zz", 5)), ("__ior__", ({"zz": 5},))]:
            with case.must_raise("%s.%s%r" % (name, op, a), key="mapping." + op):
                getattr(m, op)(*a)
            case.count("attacks")
            case.check(snap() == before, lambda: "factory changed by %s.%s" % (name, op), key="mapping." + op)
            case.nontrivial(cls.__name__, name.split("[")[0], op)
    for v in [fct.foreign_keys] + ([fct.generator_tables] if hasattr(fct, "generator_tables") else []):
        case.check(isinstance(v, (tuple, frozenset)), "%r is not an immutable sequence" % (v,))
    full = fct.schema(include_ancillary_info=True)
    for t in list(full["tables_fields"]):
        full["tables_fields"][t] = "*"
    simple = fct.schema()
    for t in list(simple):
        if simple[t] != '*':
            simple[t][0].append("zz")
    case.check(snap() == before, "factory changed through schema()")
    case.sample(dict(schema=s))
