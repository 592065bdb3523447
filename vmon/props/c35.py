"""C35: a factory is built from exactly the well-formed schemas, and then has exactly the tables and fields it was given."""
import copy, json
from ..core import Registry, Skip
from .. import gen, ref, rules
from .c12 import cls_of, same, populated

reg = Registry()
reg.rule = ("random table listings and full schema dictionaries, well-formed or damaged in one or several named ways; the factory must be made "
            "exactly for the undamaged ones and then match the plain-data model; distinct by (kind of factory, listing or schema, damage)")
reg.assumptions = ["names are strings; tables and fields may hold any text but white space and a leading underscore (tables only)",
                   "which exception is raised is not judged, only that one is"]
ODD_FIELDS = ["a.b", "100%", "[x]", "it's", 'say "x"', "a\tb", " lead", "trail ", "_private", "é", "ß", "日本", "a,b", "{y}", "1", "", "None",
              "class", "index", "columns", "values", "items", "keys", "name", "dtype", "a" * 80, "A+B", "x=y", "-", "*"]
ODD_TABLES = ["t2", "données", "a-b", "x.y", "1st", "class", "values", "items", "keys", "T", "a" * 60, "trailing_", "m__m"]


def a_listing(rng):
    """{table: '*' or [pks, dfs]}, well-formed"""
    s = gen.schema(rng, tables=(1, 5), pks=(0, 3), dfs=(0, 4), generic=.15, table_names=gen.TABLE_NAMES + ODD_TABLES,
                   field_names=gen.FIELD_NAMES + (ODD_FIELDS if rng.random() < .5 else []))
    return {t: v if v == '*' else (tuple(v[0]), tuple(v[1])) for t, v in s.tables.items()}


def swap_case(rng, x):
    ys = [y for y in (x.upper(), x.lower(), x.swapcase(), x.title()) if y != x and y.lower() == x.lower()]
    return rng.choice(ys) if ys else None


def damage(rng, tables):
    """one way of making the listing ill-formed: (label, new listing), or None where it does not apply"""
    tables = dict(tables)
    norm = [t for t, v in tables.items() if v != '*']
    t = rng.choice(sorted(tables))
    how = rng.choice(["underscore", "blank", "case table", "value", "one list", "three lists", "text list", "not text", "no fields", "dup pk",
                      "dup data", "dup across", "case field", "case across"])
    if how == "underscore":
        tables["_" + t] = tables.pop(t)
    elif how == "blank":
        tables[rng.choice(["a b", t + " ", " " + t, "my table", t.replace("_", " ") + " "])] = tables.pop(t)
    elif how == "case table":
        u = swap_case(rng, t)
        if u is None:
            return None
        tables[u] = rng.choice([tables[t], '*', (("p",), ())])
    elif how == "value":
        tables[t] = rng.choice([None, "x", "**", 3, True, (), [], {}, "ab", 0.5])
    elif how == "one list":
        tables[t] = [["a", "b"]] if rng.random() < .5 else ["a", "b"][:1]
    elif how == "three lists":
        tables[t] = [["a"], ["b"], rng.choice([["c"], []])]
    elif how == "text list":
        tables[t] = rng.choice([["ab", "cd"], [["a"], "b"], ["a", ["b"]], [["a"], None], [None, ["a"]], [["a"], 3]])
    else:
        if not norm:
            return None
        t = rng.choice(norm)
        pks, dfs = map(list, tables[t])
        side = rng.choice([pks, dfs])
        if how == "not text":
            side.insert(rng.randint(0, len(side)), rng.choice([3, None, 1.5, ("a", "b"), True]))
        elif how == "no fields":
            pks, dfs = [], []
        elif how in ("dup pk", "dup data"):
            side = pks if how == "dup pk" else dfs
            if not side:
                return None
            side.insert(rng.randint(0, len(side)), rng.choice(side))
        elif how == "dup across":
            src, dst = (pks, dfs) if rng.random() < .5 else (dfs, pks)
            if not src:
                return None
            dst.insert(rng.randint(0, len(dst)), rng.choice(src))
        else:
            alls = pks + dfs
            f = rng.choice(alls)
            u = swap_case(rng, f)
            if u is None:
                return None
            same_side = pks if f in pks else dfs
            dst = same_side if how == "case field" else (dfs if same_side is pks else pks)
            dst.insert(rng.randint(0, len(dst)), u)
        tables[t] = (pks, dfs)
    return how, tables


def as_args(rng, tables):
    """the same listing with lists and tuples mixed"""
    mk = lambda x: x if not isinstance(x, (list, tuple)) else rng.choice([list, tuple])(x)
    def val(v):
        if isinstance(v, (list, tuple)):
            return mk([mk(x) for x in v])
        return v
    items = [(t, val(v)) for t, v in tables.items()]
    rng.shuffle(items)
    return dict(items)


def model(tables):
    r = rules.Rules()
    r.tables = tables
    r.defaults = {(t, f): 0 for t, v in tables.items() if v != '*' for f in v[1]}
    return r


def is_fresh(case, fct, kind, tables, what):
    same(case, fct, kind, model(tables), what)
    case.eq({t: tuple(v) for t, v in fct.primary_key_fields.items()}, {t: v[0] for t, v in tables.items() if v != '*'}, what + ": key fields")
    case.eq({t: tuple(v) for t, v in fct.data_fields.items()}, {t: v[1] for t, v in tables.items() if v != '*'}, what + ": data fields")
    dat = fct.TicDat() if kind == "tic" else fct.PanDat()
    for t, v in tables.items():
        tbl = getattr(dat, t)
        case.eq(len(tbl), 0, "%s: rows of %s in an empty data object" % (what, t))
        if kind == "pan" and v != '*':
            case.eq(list(tbl.columns), list(v[0] + v[1]), "%s: columns of the empty table %s" % (what, t))
        if kind == "tic" and v != '*':
            case.check(hasattr(tbl, "keys") == bool(v[0]), lambda: "%s: %s is %r" % (what, t, type(tbl)))
    good = fct.good_tic_dat_object if kind == "tic" else fct.good_pan_dat_object
    case.check(good(dat) is True, lambda: "%s: its empty data object is not good" % what)


@reg.scenario(quick=8000, thorough=150000, needs=("accepted", "rejections_observed"))
def tables(case):
    """the constructor (and create_from_full_schema with nothing but tables) makes a factory exactly for the well-formed listings"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    listing = a_listing(rng)
    hows = []
    if rng.random() < .6:
        new = listing
        for _ in range(rng.choice([1, 1, 1, 2])):
            try:
                d = damage(rng, new)
            except Exception:                      # a second damage to what the first one left
                d = None
            if d:
                hows.append(d[0])
                new = d[1]
        args = as_args(rng, new)
    else:
        args = as_args(rng, listing)
    case.describe(kind=kind, listing=args, damage=hows)
    cls = cls_of(kind)
    before = copy.deepcopy(args)
    if rng.random() < .7:
        how, make = "constructor", lambda: cls(**args)
    else:
        extra = {k: v for k, v in dict(parameters={}, infinity_io_flag="N/A", xlsx_trailing_empty_rows="prune", tooltips={},
                                       duplicates_ticdat_init="assert", automunge_multitype_fields=True).items() if rng.random() < .5}
        how, make = "full schema", lambda: cls.create_from_full_schema(dict(
            extra, tables_fields=args, foreign_keys=rng.choice([[], ()]), default_values={}, data_types={}))
    if hows:
        with case.must_raise("%s with a malformed listing (%s)" % (how, ", ".join(hows)), key="tables:" + hows[0]):
            make()
        for h in hows:
            case.count("damage " + h)
    else:
        is_fresh(case, make(), kind, listing, "factory from its " + how)
        case.count("accepted")
    case.check(repr(args) == repr(before), lambda: "the listing was changed to %r" % args)
    case.nontrivial(kind, how, repr(args))
    case.sample([kind, hows, repr(args)[:200]])


REQUIRED = ["tables_fields", "foreign_keys", "default_values", "data_types"]
OPTIONAL = ["parameters", "infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init", "tooltips", "automunge_multitype_fields"]


def plain(x):
    """the schema as plain dicts and lists that can be damaged"""
    if hasattr(x, "keys"):
        return {k: plain(x[k]) for k in x}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def damage_schema(rng, r, sch):
    """(label, damaged copy) or None"""
    sch = copy.deepcopy(sch)
    norm = [t for t in sorted(r.normal()) if t != "parameters"]
    how = rng.choice(["missing", "unknown key", "not a dict", "fk short", "fk text", "fk table", "fk field", "fk generic", "types list",
                      "types inner", "types table", "types field", "types bad", "defaults list", "defaults table", "defaults field",
                      "defaults bad", "params list", "params short", "params long", "params no table", "params default", "flag", "tooltip table",
                      "tooltip field", "tooltip text", "tables"])
    t = rng.choice(norm) if norm else None
    f = rng.choice(r.fields(t)) if t else None
    g = [x for x, v in r.tables.items() if v == '*']
    if how == "missing":
        del sch[rng.choice(REQUIRED)]
    elif how == "unknown key":
        sch[rng.choice(["nope", "Parameters", "generator_tables", "row_predicates", "", "foreign keys"])] = rng.choice([{}, [], None])
    elif how == "not a dict":
        return how, rng.choice([None, [], list(sch), "x", 3, sorted(sch.items(), key=str)])
    elif how.startswith("fk"):
        if not t:
            return None
        fks = sch["foreign_keys"] = list(sch.get("foreign_keys") or [])
        at = rng.randint(0, len(fks))
        if how == "fk short":
            bad = rng.choice([[t, t], [t], []])
        elif how == "fk text":
            bad = rng.choice(["abc", None, 3, {"native_table": t}])
        elif how == "fk table":
            bad = rng.choice([["nope", t, [f, f]], [t, "nope", [f, f]]])
        elif how == "fk field":
            bad = rng.choice([[t, t, ["nope", f]], [t, t, [f, "nope"]], [t, t, [[f, f], ["nope", f]]]])
        else:
            if not g:
                return None
            bad = rng.choice([[g[0], t, ["x", f]], [t, g[0], [f, "x"]]])
        fks.insert(at, bad)
    elif how.startswith("types"):
        if not t:
            return None
        dts = sch["data_types"]
        row = [True, True, False, 0, float("inf"), False, [], False, False]
        if how == "types list":
            sch["data_types"] = rng.choice([[[t, f]], "abc", {t: [f]}, {t: 3}])
        elif how == "types inner":
            dts.setdefault(t, {})[f] = rng.choice([{"min": 0}, "number", None, 3, True])
        elif how == "types table":
            dts["nope"] = {f: row}
        elif how == "types field":
            dts.setdefault(t, {})["nope"] = row
        else:
            i, v = rng.choice([(3, "x"), (4, -1), (4, "x"), (6, "abc"), (6, [1]), (4, 0)])
            row[i] = v
            if (i, v) == (4, 0):
                row[1] = row[2] = True
                row[3] = 1
            dts.setdefault(t, {})[f] = row
    elif how.startswith("defaults"):
        if not t:
            return None
        dvs = sch["default_values"]
        if how == "defaults list":
            sch["default_values"] = rng.choice([[[t, f]], "abc", {t: [f]}, {t: 3}, {t: f}])
        elif how == "defaults table":
            dvs["nope"] = {f: 1}
        elif how == "defaults field":
            dvs.setdefault(t, {})["nope"] = 1
        else:
            dvs.setdefault(t, {})[f] = rng.choice([[1], {}, [], ["a"]])
    elif how.startswith("params"):
        usable = "parameters" in r.tables and r.tables["parameters"] != '*' and ("parameters", r.tables["parameters"][1][0]) not in r.types
        ps = sch["parameters"] = dict(sch.get("parameters") or {})
        row = [True, True, False, 0, float("inf"), False, [], False, False]
        if how == "params no table":
            if "parameters" in r.tables:
                return None
            ps["p"] = rng.choice([[row, 1], [None, 1]])
        elif not usable:
            return None
        elif how == "params list":
            sch["parameters"] = rng.choice([[["p", 1]], "abc", {3: [row, 1]}])
        elif how == "params short":
            ps["p"] = rng.choice([[row], [], [row[:7], 1], [row[:3], 1], [[], 1]])
        elif how == "params long":
            ps["p"] = rng.choice([[row, 1, 1], [row + [False], 1], [row, [1]]])
        else:
            ps["p"] = [row, rng.choice(["text", -1, None])]
    elif how == "flag":
        k, vs = rng.choice([("infinity_io_flag", [0, -1, "x", float("inf"), float("nan"), [1]]), ("xlsx_trailing_empty_rows", ["nope", None, True]),
                            ("duplicates_ticdat_init", ["nope", None, "Assert"]), ("automunge_multitype_fields", ["nope", None, 2, "True"])])
        sch[k] = rng.choice(vs)
    elif how.startswith("tooltip"):
        tips = sch["tooltips"] = dict(sch.get("tooltips") or {})
        if how == "tooltip table":
            tips["nope"] = {"": "x"}
        elif not t:
            return None
        elif how == "tooltip field":
            tips.setdefault(t, {})["nope"] = "x"
        else:
            tips.setdefault(t, {})[rng.choice([f, ""])] = rng.choice([3, None, ["x"]])
    else:
        d = damage(rng, {x: v if v == '*' else tuple(map(tuple, v)) for x, v in sch["tables_fields"].items()})
        if not d:
            return None
        how, sch["tables_fields"] = "tables: " + d[0], d[1]
    return how, sch


@reg.scenario(quick=5000, thorough=80000, needs=("accepted", "rejections_observed"))
def full_schema(case):
    """create_from_full_schema takes exactly the complete, consistent dictionaries; entries it can do without get their usual defaults"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    r, fct = populated(case, kind, generic=.2)
    sch = plain(fct.schema(include_ancillary_info=True))
    cls = cls_of(rng.choice([kind, "tic", "pan"]))
    kind2 = "tic" if cls is cls_of("tic") else "pan"
    want = r.copy()
    want.preds, want.gens, want.links = {}, [], False
    gone = [k for k in OPTIONAL if rng.random() < .3]
    for k in gone:
        del sch[k]
    if "parameters" in gone:
        want.params = {}
    if "tooltips" in gone:
        want.tooltips = {}
    want.inf = "N/A" if "infinity_io_flag" in gone else want.inf
    want.xlsx = "prune" if "xlsx_trailing_empty_rows" in gone else want.xlsx
    want.dup = "assert" if "duplicates_ticdat_init" in gone else want.dup
    want.automunge = True if "automunge_multitype_fields" in gone else want.automunge
    d = damage_schema(rng, r, sch) if rng.random() < .65 else None
    case.describe(kind=kind, rules=r, without=gone, damage=d and d[0])
    if d:
        with case.must_raise("full schema with damage: " + d[0], key="full_schema:" + d[0]):
            cls.create_from_full_schema(d[1])
        case.count("damage " + d[0].split(":")[0])
        case.nontrivial(kind2, d[0], repr(d[1]))
    else:
        before = repr(sch)
        new = cls.create_from_full_schema(sch)
        case.count("accepted")
        same(case, new, kind2, want, "factory made from the schema")
        case.check(repr(sch) == before, lambda: "create_from_full_schema changed its argument to %r" % sch)
        case.nontrivial(kind2, repr(want), gone)
    same(case, fct, kind, r, "original factory")
    case.sample([kind2, gone, d and d[0]])
