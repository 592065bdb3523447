"""A reference model of a factory's rules: what was declared, kept as plain data, with the documented schema edits."""
import collections, copy
from . import gen, ref

INF = float("inf")


def norm_type(td):
    """what a declared type means; td is a TypeDictionary or a kwargs dict"""
    if td is None:
        return None
    if isinstance(td, dict):
        kw = td
    else:
        kw = dict(zip(("number_allowed", "inclusive_min", "inclusive_max", "min", "max", "must_be_int",
                       "strings_allowed", "nullable", "datetime"), td))
    if kw.get("datetime"):
        return ("datetime", bool(kw.get("nullable", False)))
    sa = kw.get("strings_allowed", ())
    sa = "*" if sa == "*" else tuple(sa)
    n = ()
    if kw.get("number_allowed", True):
        n = (ref.canon(kw.get("min", 0)), ref.canon(kw.get("max", INF)), bool(kw.get("inclusive_min", True)),
             bool(kw.get("inclusive_max", False)), bool(kw.get("must_be_int", False)))
    return (n, sa, bool(kw.get("nullable", False)))


class Rules(object):
    def __init__(self):
        self.tables = {}            # name -> '*' or (pks, dfs)
        self.fks = set()            # (nt, ft, ((nf, ff), ...))
        self.types, self.defaults, self.params, self.tooltips = {}, {}, {}, {}
        self.preds = {}             # (t, name) -> (predicate, maker, response)
        self.inf, self.xlsx, self.dup, self.automunge = "N/A", "prune", "assert", True
        self.gens, self.links = [], False
    def copy(self):
        r = Rules()
        r.__dict__.update({k: (copy.copy(v)) for k, v in self.__dict__.items()})
        return r
    def normal(self):
        return [t for t, v in self.tables.items() if v != '*']
    def fields(self, t):
        return tuple(self.tables[t][0]) + tuple(self.tables[t][1])
    def view(self, kind):
        """everything observable, in a comparable form; kind 'tic' or 'pan'"""
        def half(t, fs):
            pk = self.tables[t][0]
            return "one" if pk and set(fs) >= set(pk) else "many"
        rtn = dict(
            tables={t: v if v == '*' else (tuple(v[0]), tuple(v[1])) for t, v in self.tables.items()},
            fks={(nt, ft, frozenset(mp), half(nt, [a for a, b in mp]) + "-to-" + half(ft, [b for a, b in mp]))
                 for nt, ft, mp in self.fks},
            types={k: norm_type(v) for k, v in self.types.items()},
            defaults={k: ref.canon(v) for k, v in self.defaults.items()},
            params={k: (norm_type(kw), ref.canon(v)) for k, (v, kw) in self.params.items()},
            tooltips=dict(self.tooltips),
            flags=(self.inf if self.inf in ("N/A", None) else float(self.inf), self.xlsx, self.dup, self.automunge),
            preds={k: v for k, v in self.preds.items()})
        if kind == "tic":
            rtn["gens"] = frozenset(self.gens)
        return rtn
    # --------------------------------------------------------- documented schema edits
    def restrict(self, keep):
        r = self.copy()
        r.tables = {t: v for t, v in self.tables.items() if t in keep}
        r.fks = {fk for fk in self.fks if fk[0] in keep and fk[1] in keep}
        r.types = {k: v for k, v in self.types.items() if k[0] in keep}
        r.defaults = {k: v for k, v in self.defaults.items() if k[0] in keep}
        r.params = dict(self.params) if "parameters" in keep else {}
        r.tooltips = {k: v for k, v in self.tooltips.items() if (k if isinstance(k, str) else k[0]) in keep}
        r.preds = {k: v for k, v in self.preds.items() if k[0] in keep}
        r.gens = [t for t in self.gens if t in keep]
        return r
    def add_table(self, t, pks, dfs):
        r = self.copy()
        r.tables[t] = (tuple(pks), tuple(dfs))
        r.defaults.update({(t, f): 0 for f in dfs})
        return r
    def add_column(self, t, f, kind, pos):
        r = self.copy()
        pks, dfs = map(list, self.tables[t])
        (pks if kind == "primary key" else dfs).insert(10 ** 6 if pos == "append" else pos, f)
        r.tables[t] = (tuple(pks), tuple(dfs))
        if kind == "data":
            r.defaults[t, f] = 0
        if pks:
            r.gens = [g for g in self.gens if g != t]
        return r
    def remove_column(self, t, f):
        r = self.copy()
        r.tables[t] = tuple(tuple(x for x in fs if x != f) for fs in self.tables[t])
        for n in ("types", "defaults", "tooltips"):
            setattr(r, n, {k: v for k, v in getattr(self, n).items() if k != (t, f)})
        r.fks = {(nt, ft, mp) for nt, ft, mp in self.fks
                 if not any((nt, a) == (t, f) or (ft, b) == (t, f) for a, b in mp)}
        return r
    def rename_column(self, t, f, g):
        r = self.copy()
        def ren(tt, ff):
            return g if (tt, ff) == (t, f) else ff
        r.tables[t] = tuple(tuple(ren(t, x) for x in fs) for fs in self.tables[t])
        for n in ("types", "defaults", "tooltips"):
            setattr(r, n, {(k if isinstance(k, str) else (k[0], ren(*k))): v for k, v in getattr(self, n).items()})
        r.fks = {(nt, ft, tuple((ren(nt, a), ren(ft, b)) for a, b in mp)) for nt, ft, mp in self.fks}
        return r
    def schema(self):
        """as a gen.Schema (for data generation)"""
        s = gen.Schema(collections.OrderedDict((t, v) for t, v in sorted(self.tables.items())))
        s.fks = sorted(self.fks)
        s.types = collections.OrderedDict(sorted(self.types.items()))
        s.defaults = collections.OrderedDict(sorted(self.defaults.items(), key=lambda kv: kv[0]))
        s.params = collections.OrderedDict(sorted(self.params.items()))
        s.generators = list(self.gens)
        return s
    def __repr__(self):
        return "Rules(%s)" % ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items()))


def observe(fct, kind):
    """the same view, taken through the factory's public interface"""
    sch = fct.schema(include_ancillary_info=True)
    tables = {t: v if v == '*' else (tuple(v[0]), tuple(v[1])) for t, v in sch["tables_fields"].items()}
    assert fct.schema() == sch["tables_fields"]
    def mp(m):
        return frozenset([tuple(m)]) if hasattr(m, "native_field") else frozenset(tuple(x) for x in m)
    tips = {}
    for t, d in sch["tooltips"].items():
        for f, v in d.items():
            tips[(t, f) if f else t] = v
    preds = {}
    for t in fct.all_tables:
        if t in fct.generic_tables:
            continue
        for n, p in fct.get_row_predicates(t).items():
            preds[t, n] = (p.predicate, p.predicate_kwargs_maker, p.predicate_failure_response)
    rtn = dict(
        tables=tables,
        fks={(k.native_table, k.foreign_table, mp(k.mapping), k.cardinality) for k in sch["foreign_keys"]},
        types={(t, f): norm_type(v) for t, d in sch["data_types"].items() for f, v in d.items()},
        defaults={(t, f): ref.canon(v) for t, d in sch["default_values"].items() for f, v in d.items()},
        params={p: (norm_type(v.type_dictionary), ref.canon(v.default_value)) for p, v in sch["parameters"].items()},
        tooltips=tips,
        flags=(sch["infinity_io_flag"] if sch["infinity_io_flag"] in ("N/A", None) else float(sch["infinity_io_flag"]),
               sch["xlsx_trailing_empty_rows"], sch["duplicates_ticdat_init"], bool(sch["automunge_multitype_fields"])),
        preds=preds)
    # the properties must tell the same story as the schema
    assert dict(fct.tooltips) == tips, "tooltips property differs from schema"
    pkf = {t: tuple(v) for t, v in fct.primary_key_fields.items()}
    dff = {t: tuple(v) for t, v in fct.data_fields.items()}
    assert {t: (pkf[t], dff[t]) for t in pkf} == {t: v for t, v in tables.items() if v != '*'}
    assert set(fct.generic_tables) == {t for t, v in tables.items() if v == '*'}
    assert set(fct.all_tables) == set(tables)
    if kind == "tic":
        rtn["gens"] = frozenset(fct.generator_tables)
    return rtn


def diff(got, want):
    out = []
    for k in want:
        if got[k] != want[k]:
            a, b = got[k], want[k]
            if isinstance(b, dict):
                a, b = ({x: v for x, v in a.items() if b.get(x, "<absent>") != v},
                        {x: v for x, v in b.items() if a.get(x, "<absent>") != v})
            out.append("%s: got %r want %r" % (k, a, b))
    return "; ".join(out)


# ------------------------------------------------------------------ declarations
def start(rng, generic=0.15, params=0.5, gens=True):
    """(Rules, constructor kwargs) with nothing declared yet"""
    s = gen.schema(rng, tables=(1, 4), pks=(1, 3), dfs=(0, 4), generic=generic)
    r = Rules()
    r.tables = {t: v if v == '*' else (tuple(v[0]), tuple(v[1])) for t, v in s.tables.items()}
    if rng.random() < params:
        r.tables["parameters"] = ((rng.choice(["Name", "Parameter", "key"]),), (rng.choice(["Value", "Setting"]),))
    for t in r.normal():
        r.defaults.update({(t, f): 0 for f in r.tables[t][1]})
    return r


def make(r, cls):
    return cls(**{t: ('*' if v == '*' else [list(v[0]), list(v[1])]) for t, v in r.tables.items()})


def a_default(rng, json_safe=True):
    v = rng.choice([0, 1, -2.5, "a", "", "x y", None, INF, True, False, 10 ** 9, "5"])
    return v


def a_predicate(rng):
    salt = rng.randint(2, 9)
    resp = rng.choice(["Boolean", "Error Message"])
    def pred(row, **kw):
        ok = (hash(repr(sorted((k, ref.canon(v)) for k, v in row.items()))) % salt) != 0
        return ok or (False if resp == "Boolean" else "salt %s" % salt)
    maker = None
    if rng.random() < 0.3:
        def maker(dat):
            return {"k": salt}
    return pred, maker, resp


def param_decl(rng):
    """(default, kwargs or None)"""
    if rng.random() < 0.2:
        return rng.choice([0, "x", 1.5, None, INF]), None
    for _ in range(50):
        kw = gen.type_spec(rng, datetime_ok=True)
        v = gen.good_value(rng, kw)
        if ref.valid(kw, v) and not isinstance(v, (list, tuple)) and not (ref.is_dt(v)):
            v = float(v) if hasattr(v, "dtype") else v
            if ref.valid(kw, v):
                return v, kw
    return 0, None


KINDS = ["type", "type", "type", "clear_type", "default", "default", "defaults", "fk", "fk", "clear_fk", "pred", "pred",
         "pred_override", "pred_remove", "param", "param", "param_remove", "tooltip", "tooltip", "tooltip_clear", "inf",
         "xlsx", "dup", "automunge", "gens", "links"]


def declare(rng, r, fct, kind, op=None):
    """one random declaration, made on the factory and returned as the new Rules; None when not applicable.
    op: restrict to this kind.  The factory call is the last thing evaluated, so that it can be expected to raise."""
    op = op or rng.choice(KINDS)
    n = r.copy()
    norm = [t for t in r.normal() if r.fields(t)]
    if not norm:
        return None
    t = rng.choice(sorted(norm))
    f = rng.choice(r.fields(t))
    pdata = "parameters" in r.tables and r.tables["parameters"] != '*' and t == "parameters" and f in r.tables[t][1]
    if op == "type":
        if pdata:
            return None
        kw = gen.type_spec(rng)
        n.types[t, f] = kw
        return (lambda: fct.set_data_type(t, f, **kw)), n
    if op == "clear_type":
        if not r.types or rng.random() < .2:
            if (t, f) in r.types:
                del n.types[t, f]
        else:
            t, f = rng.choice(sorted(r.types))
            del n.types[t, f]
        return (lambda: fct.clear_data_type(t, f)), n
    if op == "default":
        v = a_default(rng)
        n.defaults[t, f] = v
        return (lambda: fct.set_default_value(t, f, v)), n
    if op == "defaults":
        kw = {}
        for tt in rng.sample(sorted(norm), min(len(norm), rng.randint(1, 2))):
            kw[tt] = {ff: a_default(rng) for ff in rng.sample(list(r.fields(tt)), rng.randint(1, len(r.fields(tt))))}
            n.defaults.update({(tt, ff): v for ff, v in kw[tt].items()})
        return (lambda: fct.set_default_values(**kw)), n
    if op == "fk":
        ft = rng.choice(sorted(norm))
        k = rng.randint(1, min(3, len(r.fields(t)), len(r.fields(ft))))
        pool = list(r.tables[ft][0]) if len(r.tables[ft][0]) >= k and rng.random() < .7 else list(r.fields(ft))
        mp = tuple(zip(rng.sample(list(r.fields(t)), k), rng.sample(pool, k)))
        if any(x[:2] == (t, ft) and set(x[2]) == set(mp) for x in r.fks):
            return None                            # the same foreign key twice: not a new declaration
        n.fks = set(r.fks) | {(t, ft, mp)}
        arg = [list(x) for x in mp] if len(mp) > 1 or rng.random() < .3 else list(mp[0])
        return (lambda: fct.add_foreign_key(t, ft, arg)), n
    if op == "clear_fk":
        if rng.random() < .6:
            n.fks = {fk for fk in r.fks if fk[0] != t}
            return (lambda: fct.clear_foreign_keys(t)), n
        n.fks = set()
        return (lambda: fct.clear_foreign_keys()), n
    if op in ("pred", "pred_override"):
        if t in r.gens:
            return None
        p, m, resp = a_predicate(rng)
        taken = [k[1] for k in r.preds if k[0] == t]
        if op == "pred_override":
            if not taken:
                return None
            name = rng.choice(sorted(taken, key=str))
        elif rng.random() < .5:
            name = None
        else:
            name = rng.choice(["p", "q q", 0, 1, 2, "5"])
        real = next(i for i in range(1000) if i not in taken) if name is None else name
        n.preds[t, real] = (p, m, resp)
        return (lambda: fct.add_data_row_predicate(t, p, predicate_name=name, predicate_kwargs_maker=m,
                                                   predicate_failure_response=resp)), n
    if op == "pred_remove":
        if not r.preds:
            return None
        t, name = rng.choice(sorted(r.preds, key=str))
        if t in r.gens:
            return None
        del n.preds[t, name]
        return (lambda: fct.add_data_row_predicate(t, None, predicate_name=name)), n
    if op == "param":
        if "parameters" not in r.tables or r.tables["parameters"] == '*' or \
                [len(x) for x in r.tables["parameters"]] != [1, 1] or \
                ("parameters", r.tables["parameters"][1][0]) in r.types:
            return None
        name = rng.choice(["Speed", "max load", "mode", "date", "ñ", "p5"])
        v, kw = param_decl(rng)
        n.params[name] = (v, kw)
        if kw is None:
            return (lambda: fct.add_parameter(name, v, enforce_type_rules=False)), n
        return (lambda: fct.add_parameter(name, v, **kw)), n
    if op == "param_remove":
        if not r.params:
            return None
        name = rng.choice(sorted(r.params))
        del n.params[name]
        return (lambda: fct.remove_parameter(name)), n
    if op == "tooltip":
        tt = rng.choice(sorted(r.tables))
        ff = "" if r.tables[tt] == '*' or rng.random() < .3 else rng.choice(r.fields(tt))
        tip = rng.choice(["tip", "another \"tip\"", "ünïcode", "multi\nline"])
        n.tooltips[(tt, ff) if ff else tt] = tip
        return (lambda: fct.set_tooltip(tt, ff, tip)), n
    if op == "tooltip_clear":
        if not r.tooltips:
            return None
        k = rng.choice(sorted(r.tooltips, key=str))
        del n.tooltips[k]
        return (lambda: fct.set_tooltip(k if isinstance(k, str) else k[0], "" if isinstance(k, str) else k[1], "")), n
    if op == "inf":
        n.inf = rng.choice(["N/A", None, 999, 1e6, 5000.5])
        return (lambda: fct.set_infinity_io_flag(n.inf)), n
    if op == "xlsx":
        n.xlsx = rng.choice(["prune", "ignore"])
        return (lambda: fct.set_xlsx_trailing_empty_rows(n.xlsx)), n
    if op == "dup":
        n.dup = rng.choice(["assert", "warn", "ignore"])
        return (lambda: fct.set_duplicates_ticdat_init(n.dup)), n
    if op == "automunge":
        n.automunge = rng.choice([True, False])
        return (lambda: fct.set_automunge_multitype_fields(n.automunge)), n
    if op == "gens":
        if kind != "tic":
            return None
        n.gens = [x for x in sorted(norm) if not r.tables[x][0] and not any(k[0] == x for k in r.preds)
                  and rng.random() < .5]
        return (lambda: fct.set_generator_tables(n.gens)), n
    if op == "links":
        if kind != "tic":
            return None
        n.links = True
        return (lambda: fct.enable_foreign_key_links()), n
    raise AssertionError(op)


def populate(rng, r, fct, kind, n=(2, 25), tries=None):
    for _ in range(rng.randint(*n)):
        d = declare(rng, r, fct, kind)
        if d:
            d[0]()
            r = d[1]
    return r
