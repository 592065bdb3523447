"""C26: AMPL exchange transfers every row and value."""
import collections, datetime, math, re
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref

reg = Registry()
reg.rule = ("random schemas, data, renamings, exclusions and variable contents; amplpy.DataFrame and AMPL are replaced by recorders that keep what "
            "ticdat hands over (and refuse what amplpy refuses: a second column of one name, columns of different lengths); variables are recorders "
            "or real amplpy DataFrames; distinct by schema, data and arguments")
reg.assumptions = ["there is no AMPL in this sandbox, and the amplpy installed here has dropped DataFrame.setColumn and addColumn, which ticdat calls: the "
                   "recorder offers them as amplpy documented them",
                   "None may be handed over as nan (as in copy_to_pandas), numbers as equal numbers of another type",
                   "tables with a field 'name' can not be filled from variables unless it is their only key (documented for DataFrames)"]
NUM = ["n", "f"]


class Recorder(object):
    """amplpy.DataFrame as documented"""
    made = []
    def __init__(self, index, columns=()):
        self.index, self.cols, self.data = tuple([index] if isinstance(index, str) else index), [], {}
        if len(set(self.index)) != len(self.index):
            raise ValueError("duplicate index headers %r" % (self.index,))
        self.n = None
        Recorder.made.append(self)
    def _take(self, header, values):
        if self.n is not None and len(values) != self.n:
            raise ValueError("%d values for %d rows" % (len(values), self.n))
        self.n = len(values)
        self.data[header] = list(values)
    def setColumn(self, header, values):
        if header not in self.index and header not in self.cols:
            raise ValueError("no column %r" % header)
        self._take(header, values)
    def addColumn(self, header, values=()):
        if header in self.index or header in self.cols:
            raise ValueError("column %r exists" % header)
        self.cols.append(header)
        self._take(header, values)
    def rows(self, headers):
        return [tuple(ref.canon(self.data[h][i]) for h in headers) for i in range(self.n or 0)]


class Amplpy(object):
    DataFrame = Recorder


class Ampl(object):
    def __init__(self, refuse=None):
        self.calls, self.refuse = [], refuse
    def setData(self, data, *args):
        self.calls.append((data, args))
        if self.refuse is not None and data is self.refuse:
            raise RuntimeError("set is not defined")


def cell(rng):
    return rng.choice([1, 2.5, -3, "a", "b c", "", 0, float("inf"), None, True, datetime.datetime(2020, 1, 2), 10 ** 6, 1e-9, "1"])


def make(case, kind):
    rng = case.rng
    s = gen.schema(rng, tables=(1, 4), no_pk=.2, generic=.1, no_name=True)
    if not s.normal():
        raise Skip("only generic tables")
    rows = gen.rows(rng, s, n=(0, 6))
    for t in s.normal():
        rows[t] = [tuple(r[:len(s.pks(t))]) + tuple(cell(rng) for _ in s.dfs(t)) for r in rows[t]]
    import ticdat
    if kind == "tic":
        f = s.build(ticdat.TicDatFactory)
        d = f.TicDat(**gen.tic_args(s, rows))
    else:
        f = s.build(ticdat.PanDatFactory)
        d = f.PanDat(**gen.pan_args(s, rows, dtype_object=True))
    return s, rows, f, d


def module(kind):
    from ticdat import ticdatfactory, pandatfactory
    return ticdatfactory if kind == "tic" else pandatfactory


@reg.scenario(quick=700, thorough=9000, needs=["tables_copied", "rows_transferred", "renamed_keys", "renamed_data", "omitted_fields", "excluded", "empty_tables",
                                               "set_names", "extra_columns", "refused_set_data"])
def to_ampl(case):
    """copy_to_ampl and set_ampl_data"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    s, rows, f, d = make(case, kind)
    keyed = [t for t in s.normal() if s.pks(t)]
    excl = [t for t in s.tables if rng.random() < .2]
    copied = [t for t in keyed if t not in excl]
    if set(excl) & set(keyed):
        case.count("excluded")
    ren, extra = {}, {t: [] for t in copied}
    fresh = iter("new%d" % i for i in range(999))
    for t in copied:
        if kind == "pan" and rng.random() < .3:
            x = rng.choice(["extra", "x y"])
            if x not in s.fields(t):
                getattr(d, t)[x] = list(range(len(rows[t])))
                if rng.random() < .7:
                    ren[t, x] = rng.choice([next(fresh), x, "", None])
                    if ren[t, x]:
                        extra[t].append(x)
                        case.count("extra_columns")
        for fl in s.fields(t):
            k = rng.random()
            if k < .25:
                ren[t, fl] = next(fresh)
                case.count("renamed_keys" if fl in s.pks(t) else "renamed_data")
            elif k < .33:
                ren[t, fl] = fl
            elif k < .45 and fl in s.dfs(t):
                ren[t, fl] = rng.choice([None, "", False])
                case.count("omitted_fields")
        if len(s.fields(t)) > 1 and rng.random() < .08:              # two fields trade names
            a, b = rng.sample(s.fields(t), 2)
            ren[t, a], ren[t, b] = b, a
    kw = {}
    if ren or rng.random() < .3:
        kw["field_renamings"] = ren
    if excl or rng.random() < .3:
        kw["excluded_tables"] = rng.choice([list, set, tuple])(excl)
    mod = module(kind)
    had, Recorder.made = mod.amplpy, []
    mod.amplpy = Amplpy
    case.describe(kind=kind, schema=repr(s), rows=repr(rows)[:900], args=repr(kw))
    snap = repr([(t, getattr(d, t)) for t in s.tables])
    try:
        try:
            got = f.copy_to_ampl(d, **kw)
        except Exception as e:
            import traceback
            case.fail("copy_to_ampl raises %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-600:]), key="to_ampl:raises")
        case.eq(repr([(t, getattr(d, t)) for t in s.tables]), snap, "the data after copy_to_ampl")
        case.eq({a for a in dir(got) if not a.startswith("_")}, set(copied), "tables copied")
        for t in copied:
            r = lambda x: ren.get((t, x), x)
            df = getattr(got, t)
            case.check(isinstance(df, Recorder), "table %s is a %r" % (t, type(df)))
            case.eq(df.index, tuple(r(x) for x in s.pks(t)), "index headers of %s" % t)
            src = [x for x in list(s.dfs(t)) + extra[t] if r(x)]
            case.eq(sorted(df.cols), sorted(r(x) for x in src), "data columns of %s" % t)
            case.eq(sorted(df.data), sorted(list(df.index) + df.cols), "columns of %s given values" % t)
            head = [r(x) for x in list(s.pks(t)) + src]
            want = [tuple(ref.canon(v[s.fields(t).index(x)] if x in s.fields(t) else i) for x in list(s.pks(t)) + src) for i, v in enumerate(rows[t])]
            key = lambda x: repr(x)
            case.eq(sorted(df.rows(head), key=key), sorted(want, key=key), "rows of %s under the headers %r" % (t, head))
            case.count("tables_copied")
            case.count("rows_transferred", len(want))
            if not want:
                case.count("empty_tables")
        names = {t: "SET_" + t.upper() for t in copied if rng.random() < .4}
        if names:
            case.count("set_names")
        ampl = Ampl()
        f.set_ampl_data(got, ampl, *([names] if names or rng.random() < .5 else []))
        case.eq(sorted(((id(x), a) for x, a in ampl.calls)), sorted((id(getattr(got, t)), (names[t],) if t in names else ()) for t in copied), "calls of setData")
        if copied and rng.random() < .3:
            bad = rng.choice(copied)
            try:
                f.set_ampl_data(got, Ampl(getattr(got, bad)), names)
            except Exception as e:
                case.check(type(e).__name__ == "TicDatError" and bad in str(e), "refused setData of %s reported as %r" % (bad, e))
                case.count("refused_set_data")
            else:
                case.fail("setData refused table %s and set_ampl_data says nothing" % bad)
        if rng.random() < .3:
            with case.must_raise("set_ampl_data with an unknown table in table_to_set_name"):
                f.set_ampl_data(got, Ampl(), {"no such table": "S"})
        if copied and rng.random() < .3:
            a = Ampl()
            for bad in ({copied[0]: 5}, [copied[0]], {copied[0]: None}, "S"):
                with case.must_raise("set_ampl_data with table_to_set_name=%r" % (bad,)):
                    f.set_ampl_data(got, a, bad)
            case.eq(a.calls, [], "calls of setData before the refusal")
            with case.must_raise("set_ampl_data for something that is not an AMPL object"):
                f.set_ampl_data(got, rng.choice([None, {}, "ampl", object()]))
            other = type("Other", (object,), {})()
            setattr(other, "no_such_table", 1)
            with case.must_raise("set_ampl_data of an object with an unknown table"):
                f.set_ampl_data(other, a)
            case.eq(a.calls, [], "calls of setData before the refusal")
            case.count("bad_set_arguments")
    finally:
        mod.amplpy = had
    case.nontrivial(kind, s.sig(), repr(rows), repr(kw))
    case.sample(dict(kind=kind, schema=repr(s), args=repr(kw)))


@reg.scenario(quick=250, thorough=2500, needs=["rejections_observed"])
def bad_arguments(case):
    """renamings and exclusions that make no sense are refused before anything is copied"""
    rng = case.rng
    kind = rng.choice(["tic", "pan"])
    s, rows, f, d = make(case, kind)
    keyed = [t for t in s.normal() if s.pks(t)]
    if not keyed:
        raise Skip("no keyed table")
    t = rng.choice(keyed)
    other = [x for x in s.tables if x not in keyed]
    opts = [dict(field_renamings={(t, "no such field"): "x"}), dict(field_renamings={("no such table", "x"): "y"}), dict(excluded_tables=["no such table"]),
            dict(field_renamings={(t, s.pks(t)[0]): rng.choice(["", None])}), dict(field_renamings={t: "x"}), dict(field_renamings={(t, s.pks(t)[0]): 7}),
            dict(field_renamings={(t, s.pks(t)[0]): "x"}, excluded_tables=[t])]
    if other and other[0] in s.normal():
        opts.append(dict(field_renamings={(other[0], s.fields(other[0])[0]): "x"}))
    kw = rng.choice(opts)
    mod = module(kind)
    had, Recorder.made = mod.amplpy, []
    mod.amplpy = Amplpy
    try:
        with case.must_raise("copy_to_ampl(%r) for %r" % (kw, s)):
            f.copy_to_ampl(d, **kw)
        case.eq(Recorder.made, [], "frames made before the refusal")
    finally:
        mod.amplpy = had
    case.nontrivial(kind, s.sig(), repr(kw))


class Values(object):
    """what Variable.getValues() returns, for any content"""
    def __init__(self, keys, vals, style, name):
        self.keys_, self.vals, self.style, self.name = keys, vals, style, name
    def toDict(self):
        return {(k[0] if len(k) == 1 else k): v for k, v in zip(self.keys_, self.vals)}
    def toPandas(self):
        ks = [k[0] if len(k) == 1 else k for k in self.keys_]
        w = len(self.keys_[0])
        ix = ks if w == 1 else pd.MultiIndex.from_tuples(ks, names=["index%d" % i for i in range(w)]) if self.style == "multi" else \
            pd.Index(ks, tupleize_cols=False)
        return pd.DataFrame({self.name: self.vals}, index=ix)


class Variable(object):
    def __init__(self, values):
        self.values, self.asked = values, 0
    def getValues(self):
        self.asked += 1
        return self.values


def real(keys, vals, name):
    """a real amplpy DataFrame"""
    import amplpy
    w = len(keys[0])
    df = amplpy.DataFrame(index=tuple("index%d" % i for i in range(w)))
    for i in range(w):
        df._setColumn("index%d" % i, [k[i] for k in keys])
    df._addColumn(name, vals)
    return df


FILTERS = {"all": lambda x: True, "none": lambda x: False, "positive": lambda x: x > 0, "nonzero": lambda x: x != 0, "small": lambda x: abs(x) < 3,
           "one": lambda x: x == 1}


@reg.scenario(quick=900, thorough=10000, needs=["entries_kept", "entries_filtered", "merged_tables", "key_only_variables", "empty_variables", "real_frames", "rows_expected",
                                                "all_filtered"])
def from_ampl(case):
    """copy_from_ampl_variables against a merge by hand"""
    rng = case.rng
    import ticdat
    kind = rng.choice(["tic", "pan"])
    s = gen.schema(rng, tables=(1, 4), no_pk=.15, generic=.1, no_name=True)
    keyed = [t for t in s.normal() if s.pks(t)]
    if not keyed:
        raise Skip("no keyed table")
    for t in s.normal():
        for f in s.dfs(t):
            if rng.random() < .25:
                s.defaults[t, f] = rng.choice([5, 2.5, "dflt", None])
    args, want, log = {}, {t: {} for t in keyed}, []
    slots = [(t, f) for t in keyed for f in list(s.dfs(t)) + [rng.choice([None, "", False])]]
    rng.shuffle(slots)
    for t, f in slots[:rng.randint(0, len(slots))]:
        w = len(s.pks(t))
        pool = [rng.choice([["a", "b", "c d", "1"], [1, 2, 3], [1.5, 2.0, -1.0], ["x"]]) for _ in range(w)]
        keys = list(dict.fromkeys(tuple(rng.choice(p) for p in pool) for _ in range(rng.choice([0, 1, 2, 4, 8]))))
        k = rng.random()
        vals = [rng.choice([0, 1, 2.5, -1, 0.0, 1e-12, 4]) for _ in keys]
        if k < .15:
            vals = [0 for _ in keys]
        elif k < .3:
            vals = [rng.choice([0.0, float("inf"), 1.5]) for _ in keys]
        name = rng.choice(["Buy.val", "v", "ticdat_dummy", f or "z", s.pks(t)[0]])
        if keys and rng.random() < .5:
            v = Variable(real(keys, vals, name))
            case.count("real_frames")
        else:
            v = Variable(Values(keys, vals, rng.choice(["multi", "tuples"]), name))
        if not keys:
            case.count("empty_variables")
        filt = rng.choice([None, None] + list(FILTERS))
        args[t, f] = v if filt is None else rng.choice([tuple, list])([v, FILTERS[filt]])
        kept = [(k, x) for k, x in zip(keys, vals) if FILTERS[filt or "nonzero"](x)]
        log.append((t, f, keys, vals, filt))
        if keys and not kept:
            case.count("all_filtered")
        case.count("entries_kept", len(kept))
        case.count("entries_filtered", len(keys) - len(kept))
        if not f:
            case.count("key_only_variables")
        if any(x[0] == t for x in log[:-1]):
            case.count("merged_tables")
        for k, x in kept:
            row = want[t].setdefault(tuple(map(ref.canon, k)), {})
            if f:
                row[f] = ref.canon(x)
    case.describe(kind=kind, schema=repr(s), variables=repr(log)[:1500])
    fct = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
    try:
        got = fct.copy_from_ampl_variables(args)
    except Exception as e:
        import traceback
        case.fail("copy_from_ampl_variables raises %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-900:]), key="from_ampl:raises")
    case.eq(fct.good_tic_dat_object(got) if kind == "tic" else fct.good_pan_dat_object(got), True, "the result is a good object")
    rows = gen.tic_rows(s, got) if kind == "tic" else gen.pan_rows(s, got)
    for t in s.normal():
        exp = {k: tuple(r.get(f, ref.canon(s.default(t, f))) for f in s.dfs(t)) for k, r in want.get(t, {}).items()}
        np_ = len(s.pks(t))
        have = [(tuple(map(ref.canon, r[:np_])), tuple(map(ref.canon, r[np_:]))) for r in rows[t]]
        case.eq(len(have), len(exp), "rows of %s: %r" % (t, have))
        case.eq(dict(have), exp, "rows of %s" % t)
        case.count("rows_expected", len(exp))
    if kind == "pan":
        gen.plain_frames(case, s, got, "the result")
    case.nontrivial(kind, s.sig(), repr(log))


@reg.scenario(quick=250, thorough=2000, needs=["rejections_observed"])
def bad_variables(case):
    """variables for unknown tables or fields, keyless tables, and things that are not variables"""
    rng = case.rng
    import ticdat
    kind = rng.choice(["tic", "pan"])
    s = gen.schema(rng, tables=(1, 3), no_pk=.4, no_name=True)
    keyed = [t for t in s.normal() if s.pks(t)]
    free = [t for t in s.normal() if not s.pks(t)]
    fct = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
    t = rng.choice(s.normal())
    w = len(s.pks(t)) or 1
    v = Variable(Values([("a",) * w], [1], "multi", "v"))
    opts = [{("no such table", None): v}, {(t, "no such field"): v}, {t: v}, {(t, None): 7}, {(t, None): (v,)}, {(t, None): (v, 7)}, {(t, None): (v, FILTERS["all"], 1)}]
    if free:
        opts.append({(free[0], s.dfs(free[0])[0]): v})
    if keyed:
        opts.append({(keyed[0], s.pks(keyed[0])[0]): v})
    bad = rng.choice(opts)
    with case.must_raise("copy_from_ampl_variables(%r) for %r" % (bad, s)):
        fct.copy_from_ampl_variables(bad)
    case.nontrivial(kind, s.sig(), repr(list(bad)))


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


@reg.scenario(quick=1500, thorough=15000, needs=["fields_substituted", "single_braces", "rejections_observed", "touching_braces"])
def formats(case):
    """ampl_format: {{...}} fields are those of str.format, everything else stays"""
    rng = case.rng
    from ticdat import ampl_format
    kw = {"x": rng.choice([1, "abc", "{y}", "{{y}}", "}}", None, 2.5, float("inf")]), "y": rng.randint(0, 99), "big_M": rng.choice([1e6, 12345.678]),
          "thing": Thing(a="A", b=[3, 4]), "lst": [5, 6], "_dct": {"k": "v"}}
    fields = [("x", str(kw["x"])), ("y", str(kw["y"])), ("big_M:.2f", "%.2f" % kw["big_M"]), ("y:05d", "%05d" % kw["y"]), ("thing.a", "A"), ("thing.b[1]", "4"),
              ("lst[0]", "5"), ("_dct[k]", "v"), ("x!r", repr(kw["x"])), ("y:>6", "%6d" % kw["y"])]
    lits = ["set FOOD;\n", "param cost {FOOD};", "{i in S: i <> 'a'}", "{", "}", " ", "var Buy {j in FOOD} >= 0;", "sum {i in A, j in B} x[i,j]", "", "%s %d", "$x", "\\",
            "{0}", "{}", "{x}", "_[_", "ünï", ":", "!", "\tindented", "\r\n", "  "]
    text, want, last = "", "", "lit"
    used = False
    for _ in range(rng.randint(0, 9)):
        if rng.random() < .45:
            a, b = rng.choice(fields)
            if text.endswith("}}") or text.endswith("{{"):
                pass
            if text.endswith("{") or text.endswith("}"):
                case.count("touching_braces")
            text, want = text + "{{" + a + "}}", want + b
            used = True
            case.count("fields_substituted")
            last = "field"
        else:
            l = rng.choice(lits)
            if last == "lit" and text and l and (text[-1] + l[0]) in ("{{", "}}"):
                l = " " + l
            if "{" in l or "}" in l:
                case.count("single_braces")
            text, want = text + l, want + l
            last = "lit" if l else last
    # "{" before a field that follows a field's "}}" never forms another "{{"; a literal "{" right after "{{" can't occur
    case.describe(mod_str=text, kwargs=repr(kw))
    try:
        got = ampl_format(text, **kw)
    except Exception as e:
        case.fail("ampl_format(%r) raises %s: %s" % (text, type(e).__name__, e))
    case.eq(got, want, "ampl_format(%r)" % text)
    if rng.random() < .15:
        with case.must_raise("a field without an argument"):
            ampl_format(text + "{{no_such_name}}", **kw)
        with case.must_raise("a mod_str that is not text"):
            ampl_format(rng.choice([5, None, ["a"]]), **kw)
    case.nontrivial(text, repr(kw))
