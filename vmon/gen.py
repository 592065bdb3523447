"""Random schemas, types and data.  Everything is plain data (Schema / rows); nothing here asks ticdat anything."""
import datetime, math, collections
import numpy as np
import pandas as pd
from . import ref

INF = float("inf")
FIELD_NAMES = ["name", "a", "B", "Min Supply", "Max Supply", "cost", "from city", "To City", "x1", "qty", "día",
               "is ok?", "val-1", "Order", "group", "select", "class", "z_z", "Unit Price", "code", "due date",
               "42nd", "mixedCase", "key field", "supplier", "w"]
TABLE_NAMES = ["foods", "nutrition_quantities", "Categories", "arcs", "Cost", "inflow", "Plant_A", "t1", "orders",
               "a_b_c", "Zones", "links_", "lanes", "SKU"]


class Schema(object):
    def __init__(self, tables):
        self.tables = collections.OrderedDict(tables)      # name -> (pks, dfs) or '*'
        self.fks = []                                      # (native, foreign, ((nf, ff), ...))
        self.types = collections.OrderedDict()             # (t, f) -> kwargs
        self.defaults = collections.OrderedDict()          # (t, f) -> value
        self.params = collections.OrderedDict()            # name -> (default, kwargs or None)
        self.generators = []
        self.inf_flag = "N/A"
    def normal(self):
        return [t for t, v in self.tables.items() if v != '*']
    def pks(self, t):
        return self.tables[t][0]
    def dfs(self, t):
        return self.tables[t][1]
    def fields(self, t):
        return tuple(self.tables[t][0]) + tuple(self.tables[t][1])
    def default(self, t, f):
        """documented: data fields default to 0"""
        if (t, f) in self.defaults:
            return self.defaults[t, f]
        return 0
    def __repr__(self):
        return "Schema(tables=%r, fks=%r, types=%r, defaults=%r, params=%r, gens=%r, inf=%r)" % (
            dict(self.tables), self.fks, dict(self.types), dict(self.defaults), dict(self.params), self.generators,
            self.inf_flag)
    def sig(self):
        return (tuple((t, v if v == '*' else (len(v[0]), len(v[1]))) for t, v in self.tables.items()),
                tuple(self.fks), tuple(sorted(map(str, self.types))))
    def build(self, cls):
        fct = cls(**{t: ('*' if v == '*' else [list(v[0]), list(v[1])]) for t, v in self.tables.items()})
        for nt, ft, mp in self.fks:
            fct.add_foreign_key(nt, ft, [list(x) for x in mp] if len(mp) > 1 else list(mp[0]))
        for (t, f), kw in self.types.items():
            fct.set_data_type(t, f, **kw)
        for (t, f), v in self.defaults.items():
            fct.set_default_value(t, f, v)
        for p, (dv, kw) in self.params.items():
            if kw is None:
                fct.add_parameter(p, dv, enforce_type_rules=False)
            else:
                fct.add_parameter(p, dv, **kw)
        if self.generators and hasattr(fct, "set_generator_tables"):
            fct.set_generator_tables(self.generators)
        if self.inf_flag != "N/A":
            fct.set_infinity_io_flag(self.inf_flag)
        return fct


def names(rng, pool, n):
    """n names, unique ignoring case"""
    rtn, seen = [], set()
    pool = list(pool)
    rng.shuffle(pool)
    for x in pool:
        if x.lower() not in seen:
            seen.add(x.lower())
            rtn.append(x)
        if len(rtn) == n:
            return rtn
    raise AssertionError("name pool too small")


P_WIDE = .004


def schema(rng, tables=(1, 4), pks=(0, 3), dfs=(0, 4), field_names=FIELD_NAMES, table_names=TABLE_NAMES,
           generic=0.0, no_pk=0.3, no_name=False):
    if no_name:              # documented: a multi-field key containing 'name' can not be populated from a DataFrame
        field_names = [f for f in field_names if f != "name"]
    s = collections.OrderedDict()
    for t in names(rng, table_names, rng.randint(*tables)):
        if rng.random() < generic:
            s[t] = '*'
            continue
        if rng.random() < P_WIDE:                             # more fields than Excel has one-letter columns
            SEEN["tables of 14 to 60 fields"] += 1
            m = rng.randint(14, 60)
            fs = names(rng, list(field_names) + ["w%d" % i for i in range(60)], m)
            npk = 0 if rng.random() < no_pk else rng.randint(max(1, pks[0]), max(1, pks[1])) if rng.random() < .7 else rng.randint(1, min(m - 1, 28))
            s[t] = (tuple(fs[:npk]), tuple(fs[npk:]))
            continue
        while True:
            npk = 0 if rng.random() < no_pk else rng.randint(max(1, pks[0]), max(1, pks[1]))
            ndf = min(rng.randint(*dfs), len(field_names) - npk)
            if npk + ndf > 0:
                break
        fs = names(rng, field_names, npk + ndf)
        s[t] = (tuple(fs[:npk]), tuple(fs[npk:]))
    return Schema(s)


# ------------------------------------------------------------------ types
def type_spec(rng, datetime_ok=True, nullable_bias=0.35):
    kind = rng.choice(["num", "num", "num", "int", "str", "strset", "mixed", "mixedset"] +
                      (["datetime"] if datetime_ok else []))
    nullable = rng.random() < nullable_bias
    if kind == "datetime":
        return dict(datetime=True, nullable=nullable)
    kw = dict(nullable=nullable)
    if kind in ("num", "int", "mixed", "mixedset"):
        kw["number_allowed"] = True
        r = rng.random()
        if r < 0.15:
            pass                                          # all defaults: [0, inf)
        else:
            lo = rng.choice([0, 1, -1, -5, -INF, 0.5, -2.5, 10])
            hi = rng.choice([INF, INF, 10, 100, 7.5, 1, 12])
            if hi < lo:
                lo, hi = hi, lo
            kw.update(min=lo, max=hi, inclusive_min=rng.random() < 0.5, inclusive_max=rng.random() < 0.5)
        if kind == "int":
            kw["must_be_int"] = True
            if kw.get("min") == -INF:
                kw["inclusive_min"] = False               # int and -inf together: not specified
        if kind == "mixed":
            kw["strings_allowed"] = "*"
        if kind == "mixedset":
            kw["strings_allowed"] = rng.choice([["a"], ["a", "B b"], ("x", "", "n/a")])
    else:
        kw["number_allowed"] = False
        kw["strings_allowed"] = "*" if kind == "str" else rng.choice([[], ["a"], ["a", "B b", "c"], ["", "d"]])
    return kw


DATES_GOOD = ["2020-01-02", "2021-12-31 23:59:58", "1999/07/04", "Jan 5 2015", "2018-03-04T05:06:07"]
DATES_BAD = ["banana", "2020-13-45", "not a date", "31/31/31x"]


CLOCK_CHANGES = [datetime.datetime(*x) for x in [(2021, 3, 14, 2), (2021, 11, 7, 1), (2020, 3, 29, 1), (2020, 10, 25, 1), (2021, 9, 26, 2), (2021, 4, 4, 2)]]


def a_datetime(rng):
    d = datetime.datetime(rng.randint(1990, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                          rng.randint(0, 59), rng.randint(0, 59))
    how = rng.random()
    if how < .12:
        d = d.replace(microsecond=rng.choice([1, 10, 1000, 123456, 500000, 999999, rng.randrange(10 ** 6)]))
    elif how < .17:                         # clocks skip or repeat this hour somewhere
        d = rng.choice(CLOCK_CHANGES) + datetime.timedelta(minutes=rng.randrange(60))
    elif how < .22:
        d = datetime.datetime(d.year, d.month, d.day)
    elif how < .26:
        d = d.replace(year=rng.choice([1901, 1969, 1970, 2038, 2200]))
    return pd.Timestamp(d) if rng.random() < 0.4 else d


def near(rng, kw):
    """a value chosen to sit on, just inside or just outside the rule"""
    kw = kw or {}
    if kw.get("datetime"):
        return rng.choice([lambda: a_datetime(rng), lambda: rng.choice(DATES_GOOD), lambda: rng.choice(DATES_BAD),
                           lambda: rng.choice([3, 1.5, None, 0])])()
    if not kw:
        return anything(rng)
    opts = []
    lo, hi = kw.get("min", 0), kw.get("max", INF)
    if kw.get("number_allowed", True):
        opts += [lambda: lo, lambda: hi, lambda: lo + 1, lambda: hi - 1, lambda: lo - 1, lambda: hi + 1,
                 lambda: np.nextafter(lo, -INF), lambda: np.nextafter(lo, INF), lambda: np.nextafter(hi, INF),
                 lambda: np.nextafter(hi, -INF), lambda: rng.randint(-3, 15), lambda: rng.uniform(-3, 15),
                 lambda: float(rng.randint(0, 9)), lambda: np.int64(rng.randint(-2, 11)),
                 lambda: np.float64(rng.randint(-2, 11) + rng.choice([0, .5]))]
    else:
        opts += [lambda: rng.randint(-3, 5), lambda: 0, lambda: 0.0]
    sa = kw.get("strings_allowed", ())
    if sa != '*':
        opts += [(lambda x=x: x) for x in sa] * 2
    opts += [lambda: rng.choice(["a", "A", "B b", "c", "", " ", "x", "n/a", "zzz", "5", "*"])] * (2 if sa else 1)
    opts += [lambda: None] * 2 + [lambda: anything(rng)]
    v = rng.choice(opts)()
    if kw.get("must_be_int") and isinstance(v, float) and v == -INF:
        return -3
    return v


def anything(rng):
    return rng.choice([lambda: rng.randint(-5, 20), lambda: rng.uniform(-10, 10), lambda: 0, lambda: None,
                       lambda: rng.choice(["", "a", "foo bar", "Ünï", "12", "1.5", "None", "x,y", "'q'", '"d"', "a;b",
                                           "True"]),
                       lambda: INF, lambda: -INF, lambda: True, lambda: False, lambda: a_datetime(rng),
                       lambda: 10 ** 12 + rng.randint(0, 5), lambda: np.int64(rng.randint(0, 5)),
                       lambda: np.float64(rng.uniform(0, 5)), lambda: -0.0, lambda: 1e-300])()


def good_value(rng, kw, tries=60):
    for _ in range(tries):
        v = near(rng, kw)
        if ref.valid(kw, v):
            return v
    return None


# ------------------------------------------------------------------ data
KEYS_STR = ["a", "b", "c", "d", "e", "New York", "ñandú", "x-1", "Q", "zz"]
KEYS_MIX = KEYS_STR + [1, 2, 3, 4.5, 7, 100]


def key_value(rng, pool=KEYS_MIX):
    return rng.choice(pool)


SEEN = collections.Counter()                              # unusual sizes handed out to the current case (emptied by the runner)
P_BIG = .006                                              # one table in so many has tens to thousands of rows


def size(rng, n, top=2500):
    """a number of rows: usually within n, now and then far beyond (block and threshold sizes)"""
    if rng.random() >= P_BIG:
        return rng.randint(*n)
    SEEN["tables far larger than usual"] += 1
    return rng.choice([rng.randint(12, 40), rng.randint(60, 130), 100, rng.randint(200, 300), 256, rng.randint(480, 620), 1000, rng.randint(900, 1300),
                       rng.randint(1300, 2500)][:9 if top > 2000 else 6 if top > 400 else 4])


def fresh(rng, r, cols):
    """r with other values of the same kinds in some of the columns cols"""
    r = list(r)
    for i in cols:
        v = r[i]
        if isinstance(v, bool) or v is None:
            continue
        if isinstance(v, str):
            r[i] = "%s~%d" % (v, rng.randrange(10 ** 6)) if rng.random() < .5 else "k%d" % rng.randrange(10 ** 6)
        elif isinstance(v, int):
            r[i] = rng.randrange(10 ** 6)
        elif isinstance(v, float) and v == v:
            r[i] = rng.randrange(10 ** 6) + .5
        elif isinstance(v, datetime.datetime):
            r[i] = v.replace(microsecond=0) + datetime.timedelta(minutes=rng.randrange(10 ** 6))
    return tuple(r)


def rows(rng, s, n=(0, 8), cell=None, key=None, unique=True):
    """{table: [full-row tuples in primary-key-then-data order]}; primary keys distinct when unique"""
    cell = cell or (lambda t, f: anything(rng))
    key = key or (lambda t, f: key_value(rng))
    rtn = {}
    for t in s.normal():
        out, seen = [], set()
        m = size(rng, n)
        for _ in range(m):
            k = tuple(key(t, f) for f in s.pks(t))
            if m > n[1] and k in seen and unique:
                k = fresh(rng, k, range(len(k)))
            if s.pks(t) and unique:
                if k in seen:
                    continue
                seen.add(k)
            out.append(k + tuple(cell(t, f) for f in s.dfs(t)))
        rtn[t] = out
    return rtn


def tic_args(s, data):
    """dict-of-dicts / list-of-dicts constructor arguments"""
    rtn = {}
    for t in s.normal():
        pk, df = s.pks(t), s.dfs(t)
        n = len(pk)
        if pk:
            rtn[t] = {(r[0] if n == 1 else tuple(r[:n])): dict(zip(df, r[n:])) for r in data[t]}
        else:
            rtn[t] = [dict(zip(df, r)) for r in data[t]]
    return rtn


def pan_args(s, data, dtype_object=False):
    rtn = {}
    for t in s.normal():
        kw = {"dtype": object} if dtype_object else {}
        rtn[t] = pd.DataFrame([list(r) for r in data[t]], columns=list(s.fields(t)), **kw)
    return rtn


def tic_rows(s, dat, tables=None):
    """full rows as read back through the public mapping interface"""
    rtn = {}
    for t in (tables or s.normal()):
        tbl = getattr(dat, t)
        if s.pks(t):
            n = len(s.pks(t))
            rtn[t] = [((k,) if n == 1 else tuple(k)) + tuple(r[f] for f in s.dfs(t)) for k, r in tbl.items()]
        else:
            it = tbl() if callable(tbl) else tbl
            rtn[t] = [tuple(r[f] for f in s.dfs(t)) for r in it]
    return rtn


def pan_rows(s, dat, tables=None):
    rtn = {}
    for t in (tables or s.normal()):
        df = getattr(dat, t)
        rtn[t] = [tuple(r) for r in df[list(s.fields(t))].itertuples(index=False, name=None)]
    return rtn


def canon_rows(data, keep_bool=True, order=False):
    rtn = {}
    for t, rs in data.items():
        c = [tuple(ref.canon(x) for x in r) for r in rs]
        rtn[t] = c if order else sorted(c, key=repr)
    return rtn


# ------------------------------------------------------------------ foreign keys
def add_fks(rng, s, n=(1, 5), cyclic=0.4, self_ref=0.15):
    """simple and compound keys, to key and non-key fields, chains, diamonds, self references and cycles"""
    order = s.normal()
    seen = set()
    for _ in range(rng.randint(*n)):
        nt, ft = rng.choice(order), rng.choice(order)
        if nt == ft and rng.random() > self_ref:
            continue
        if order.index(nt) < order.index(ft) and rng.random() > cyclic:
            nt, ft = ft, nt
        fpool = list(s.pks(ft)) if s.pks(ft) and rng.random() < 0.7 else list(s.fields(ft))
        k = len(fpool) if rng.random() < 0.5 else rng.randint(1, min(3, len(fpool)))
        k = min(k, len(s.fields(nt)))
        ff, nf = rng.sample(fpool, k), rng.sample(list(s.fields(nt)), k)
        if rng.random() < 0.3:                           # same names on both sides when possible
            same = [f for f in fpool if f in s.fields(nt)]
            if same:
                ff = nf = rng.sample(same, rng.randint(1, min(3, len(same))))
        fk = (nt, ft, tuple(zip(nf, ff)))
        if nt == ft and all(a == b for a, b in fk[2]):
            continue
        if fk not in seen:
            seen.add(fk)
            s.fks.append(fk)
    return s


def fk_schema(rng, **kw):
    for _ in range(50):
        s = schema(rng, tables=(1, 5), dfs=(0, 3), pks=(1, 3), no_pk=0.2,
                   field_names=rng.choice([["a", "b", "c", "d", "e f"], FIELD_NAMES]))
        add_fks(rng, s, **kw)
        if s.fks:
            return s
    raise AssertionError("no foreign keys drawn")


def fk_pool(rng):
    return rng.choice([["a", "b", "c"], ["p q", "ñ", "z", "x-1", "y"], [1, 2, 3], [1, 2, 3, 4, 5, 6], [1.5, 2, 7.25],
                       ["a", "b", 1, 2, 3.5], ["1", 1, "2", 2], list(range(12))])


def fk_data(rng, s, null=0.05, n=(0, 10), pool=None):
    """rows over a small value pool; child rows mostly copy a parent's fields so that matches, near misses and
    orphans all occur"""
    mixed = pool is None and rng.random() < 0.25          # columns of numbers, of text and of both side by side
    if mixed:
        pool = rng.choice([["a", "b", 1, 2, 3], ["p q", "z", "1", 1, 2], ["a", "b", "c", 1, 2.5], list("abcdef") + list(range(6))])
        null = rng.choice([null, 0, 0])
    pool = pool or fk_pool(rng)
    sorts, by_sort = {}, {}
    if mixed:
        by_sort = {"text": [v for v in pool if isinstance(v, str)],
                   "number": [v for v in pool if not isinstance(v, str)]}
    def cell(t=None, f=None):
        p = pool
        if by_sort:
            p = by_sort.get(sorts.setdefault((t, f), rng.choice(["text", "number", "any"])), pool)
        return None if rng.random() < null else rng.choice(p)
    data = {t: [] for t in s.normal()}
    todo = list(s.normal())
    rng.shuffle(todo)
    todo.sort(key=lambda t: sum(1 for fk in s.fks if fk[0] == t and fk[1] != t))
    for t in todo:
        seen = set()
        m = size(rng, n, 700)
        for _ in range(m):
            row = {f: cell(t, f) for f in s.fields(t)}
            for nt, ft, mp in s.fks:
                if nt == t and data[ft] and rng.random() < 0.75:
                    p = dict(zip(s.fields(ft), rng.choice(data[ft])))
                    for a, b in mp:
                        row[a] = p[b]
                    if rng.random() < 0.15:               # a near miss: one field of the combination off
                        row[rng.choice(mp)[0]] = cell()          # of any sort
            r = tuple(row[f] for f in s.fields(t))
            k = r[:len(s.pks(t))]
            if m > n[1] and k in seen:
                r = fresh(rng, r, [rng.randrange(len(k))] if k else [])
                k = r[:len(k)]
            if s.pks(t):
                if k in seen:
                    continue
                seen.add(k)
            data[t].append(r)
    if s.fks and rng.random() < 0.3:                      # tables sorted by the fields that refer to each other
        nt, ft, mp = rng.choice(s.fks)
        text_first = rng.random() < .5
        for t, fs in [(nt, [a for a, _ in mp]), (ft, [b for _, b in mp])]:
            at = [s.fields(t).index(f) for f in fs]
            data[t].sort(key=lambda r: [(r[i] is None, isinstance(r[i], str) != text_first, r[i] is not None and r[i]) for i in at])
    return data


def mapping_of(fk):
    """how a ForeignKey namedtuple's mapping should look, as plain tuples"""
    return tuple(fk[2][0]) if len(fk[2]) == 1 else tuple(tuple(x) for x in fk[2])


def cardinality(s, fk):
    nt, ft, mp = fk
    def half(t, fs):
        return "one" if s.pks(t) and set(fs) >= set(s.pks(t)) else "many"
    return half(nt, [a for a, _ in mp]) + "-to-" + half(ft, [b for _, b in mp])


def link_schema(rng, permuted=False, table_names=TABLE_NAMES):
    """a schema all of whose foreign keys can be followed as links (each references a whole primary key)"""
    for _ in range(200):
        s = schema(rng, tables=(2, 5), dfs=(0, 3), pks=(1, 3), no_pk=0.1, table_names=table_names,
                   field_names=rng.choice([["a", "b", "c", "d", "e f"], FIELD_NAMES]))
        seen = set()
        for _ in range(rng.randint(1, 5)):
            nt, ft = rng.choice(s.normal()), rng.choice(s.normal())
            pk = s.pks(ft)
            if not pk or len(s.fields(nt)) < len(pk) or (nt == ft and rng.random() < .7):
                continue
            same = [f for f in pk if f in s.fields(nt)]
            pool = list(s.pks(nt)) if len(s.pks(nt)) >= len(pk) and rng.random() < .5 else list(s.fields(nt))
            if permuted and s.fks and rng.random() < .4 and len(pk) > 1:
                old = rng.choice(s.fks)
                if old[1] == ft:
                    nt, pool = old[0], [a for a, _ in old[2]]
                    same = []
            nf = list(pk) if len(same) == len(pk) and nt != ft and rng.random() < .4 else rng.sample(pool, len(pk))
            if nt == ft and set(nf) == set(pk):
                continue
            sig = (nt, ft, frozenset(zip(nf, pk)) if permuted else frozenset(nf))
            if sig in seen:
                continue
            seen.add(sig)
            mp = list(zip(nf, pk))
            rng.shuffle(mp)
            s.fks.append((nt, ft, tuple(mp)))
        if s.fks:
            return s
    raise AssertionError("no links drawn")


def plain_frames(case, s, dat, what):
    """the frames of a PanDat that ticdat made can be used by field name: fields are columns, and only columns"""
    for t in s.normal():
        df = getattr(dat, t)
        case.check(list(df.columns) and set(s.fields(t)) <= set(df.columns), lambda: "%s: %s has the columns %s" % (what, t, list(df.columns)))
        both = {x for x in df.index.names if x is not None} & set(df.columns)
        case.check(not both, lambda: "%s: %s can not be sorted or grouped by %s, which is both a column and an index level" % (what, t, sorted(both)),
                   key="index level")
        case.count("frames_used_by_field")
