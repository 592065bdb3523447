"""C38: what an operation gives depends on its arguments and the factory's rules, never on what was done before."""
import copy, gc, os, re, shutil
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf
from .c04 import tic_snap, pan_snap
from .c28 import schema, add_parameters
from .c37 import plain

reg = Registry()
reg.rule = ("random rules (types, foreign keys, predicates, parameters, defaults, flags) and a few living data objects that are edited, dropped and "
            "replaced; a long-lived factory does a random history of checks, repairs, conversions, copies, writes and reads (the same paths over and "
            "over); after every step the same operation is done by a newly built factory on an equal, newly built object or the same bytes, and the two "
            "observations (result or error) are compared; distinct by history and rules")
reg.assumptions = ["errors are compared by type and the words of their text without paths", "predicates and their makers are pure functions of the row",
                   "a target is overwritten with allow_overwrite where the writer has it"]


class Pure(object):
    """a predicate that only depends on the row"""
    def __init__(self, f, kind, salt):
        self.f, self.kind, self.salt = f, kind, salt
    def __call__(self, row, **kw):
        x = row[self.f]
        bad = ref.is_null(x) or (isinstance(x, str) and len(x) > kw.get("limit", 2)) or (ref.is_num(x) and (hash(float(x)) + self.salt) % 3 == 0)
        return not bad if self.kind == "Boolean" else "bad %s" % self.f if bad else True


def make(rng, kind):
    s, data = schema(rng, generic=0)
    if rng.random() < .4:
        add_parameters(rng, s, data)
    for t in s.normal():
        for f in s.dfs(t):
            if rng.random() < .25 and (t, f) not in s.types and t != "parameters":
                s.defaults[t, f] = rng.choice([1, 2.5, "d", None])
    if rng.random() < .4:
        s.inf_flag = rng.choice([None, 999, 50.5])
    preds = []
    for t in s.normal():
        for i in range(rng.choice([0, 0, 1, 2])):
            preds.append((t, "p%d" % i, rng.choice(s.fields(t)), rng.choice(["Boolean", "Error Message"]), rng.randint(0, 2),
                          rng.choice([None, None, 1, 5])))
    links = kind == "tic" and rng.random() < .2
    opts = dict(xlsx=None)
    if kind == "tic" and rng.random() < .3:
        opts["init"] = rng.choice(["warn", "ignore", "assert"])
    def build():
        import ticdat
        fct = s.build(ticdat.TicDatFactory if kind == "tic" else ticdat.PanDatFactory)
        for t, n, f, resp, salt, lim in preds:
            fct.add_data_row_predicate(t, Pure(f, resp, salt), predicate_name=n, predicate_failure_response=resp,
                                       **({} if lim is None else dict(predicate_kwargs_maker=lambda dat, lim=lim: {"limit": lim})))
        if links and s.fks:
            fct.enable_foreign_key_links()
        if opts.get("init"):
            fct.set_duplicates_ticdat_init(opts["init"])
        return fct
    return s, data, build, repr((sorted(map(repr, preds)), links, opts))


def fresh_data(rng, s):
    data = gen.fk_data(rng, s, null=rng.choice([0, .05]), n=(0, 8))
    if "parameters" in s.tables and s.params:
        names = rng.sample(sorted(s.params), rng.randint(0, len(s.params))) + (["what"] if rng.random() < .2 else [])
        data["parameters"] = [(p, rng.choice([1, 2.5, 11, "a", "b", None])) for p in names]
    for t in s.normal():
        n = len(s.pks(t))
        if t != "parameters":
            data[t] = [r[:n] + tuple(x if rng.random() < .85 else gen.anything(rng) for x in r[n:]) for r in data[t]]
    return data


def sortless(x):
    """frames in one order of columns: the order of an edited frame's columns is its own"""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        x = x.copy()
        x.columns = list(map(str, x.columns))
        return x[sorted(x.columns)]
    if isinstance(x, dict):
        return {k: sortless(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(map(sortless, x))
    return x


def rules(fct):
    r = fct.schema(include_ancillary_info=True)
    return {k: v if isinstance(v, dict) else sorted(map(repr, v)) if isinstance(v, (list, tuple)) else repr(v) for k, v in r.items()}


# ------------------------------------------------------------------ TicDat
def tic_equal(s, fct, rows):
    return fct.TicDat(**gen.tic_args(s, {t: [tuple(r) for r in rows[t]] for t in rows}))


def edit_tic(rng, s, dat):
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(s.normal())
        tab = getattr(dat, t)
        what = rng.choice(["field", "field", "del", "add", "clear"])
        if what == "field" and len(tab) and s.dfs(t):
            r = rng.choice(list(tab.values() if s.pks(t) else tab))
            r[rng.choice(s.dfs(t))] = rng.choice([1, 2, "a", "b", "zz top", None, 7.25])
        elif what == "del" and len(tab):
            if s.pks(t):
                del tab[rng.choice(list(tab))]
            else:
                del tab[rng.randrange(len(tab))]
        elif what == "add":
            vals = [rng.choice([1, 2, 3, "a", "b", 3.5]) for _ in s.fields(t)]
            n = len(s.pks(t))
            row = dict(zip(s.dfs(t), vals[n:]))
            if n:
                tab[tuple(vals[:n]) if n > 1 else vals[0]] = row
            else:
                tab.append(row)
        elif what == "clear" and rng.random() < .3:
            tab.clear()


TIC_FILES = ["json", "json verbose", "json pandas", "csv", "sql", "sql text", "xlsx", "xls"]
TIC_OPS = ["types", "types", "fks", "fks", "rows", "rows", "params", "replace", "remove", "remove", "copy", "pandas", "obfusimplify", "freeze",
           "good", "clone", "asdict", "write", "write", "write", "read", "read", "dups"]


def tic_op(op, k, s, fct, dat, path):
    """one operation; k: its random choices, drawn once"""
    if op == "types":
        return fct.find_data_type_failures(dat, **k["max"])
    if op == "fks":
        return fct.find_foreign_key_failures(dat, verbosity=k["verbosity"], **k["max"])
    if op == "rows":
        return fct.find_data_row_failures(dat, **k["max"])
    if op == "params":
        return fct.create_full_parameters_dict(dat)
    if op == "replace":
        return tic_snap(s, fct.replace_data_type_failures(fct.copy_tic_dat(dat)))
    if op == "remove":
        return tic_snap(s, fct.remove_foreign_key_failures(fct.copy_tic_dat(dat), propagate=k["propagate"]))
    if op == "copy":
        return tic_snap(s, fct.copy_tic_dat(dat, freeze_it=k["flip"]))
    if op == "pandas":
        x = fct.copy_to_pandas(dat, drop_pk_columns=k["flip"])
        return {t: plain(getattr(x, t)) + (repr(list(getattr(x, t).index)),) for t in s.normal()}
    if op == "obfusimplify":
        x = fct.obfusimplify(dat)
        return tic_snap(s, x.copy), sorted(map(repr, x.renamings.items()))
    if op == "freeze":
        return tic_snap(s, fct.freeze_me(fct.copy_tic_dat(dat)))
    if op == "good":
        return fct.good_tic_dat_object(dat)
    if op == "clone":
        x = fct.clone(*k["tables"])
        return plain(rules(x)), x.find_data_type_failures(x.TicDat(**{t: getattr(dat, t) for t in x.all_tables}))
    if op == "asdict":
        return fct.as_dict(dat)
    raise AssertionError(op)


def read_tic(fmt, k, s, fct, p):
    kw = {}
    if fmt == "csv" and k["odd"]:
        kw["headers_present"] = False
    if fmt in ("xls", "xlsx") and k["odd"]:
        kw = {"row_offsets": {t: 1 for t in k["half"]}}
    if k["flip"]:
        kw["freeze_it"] = True
    return tic_snap(s, files.read(fmt, fct, p, **kw))


# ------------------------------------------------------------------ PanDat
def pan_cols(s, dat):
    return {t: plain(sortless(getattr(dat, t))) for t in s.normal()}


def edit_pan(rng, s, dat):
    import pandas as pd
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(s.normal())
        df = getattr(dat, t)
        what = rng.choice(["cell", "cell", "drop", "dup", "column"])
        if what == "cell" and len(df) and len(df.columns):
            j = rng.randrange(len(df.columns))
            c = df.columns[j]
            if df[c].dtype != object:
                df[c] = df[c].astype(object)
            df.iat[rng.randrange(len(df)), j] = rng.choice([1, 2, "a", "b", "zz top", None, 7.25])
        elif what == "drop" and len(df):
            df.drop(index=df.index[rng.randrange(len(df))], inplace=True)
        elif what == "dup" and len(df):
            i = rng.randrange(len(df))
            setattr(dat, t, pd.concat([df, df.iloc[i:i + 1]]).reset_index(drop=True))
        elif what == "column":
            setattr(dat, t, df[rng.sample(list(df.columns), len(df.columns))].copy())


PAN_FILES = ["json", "json split", "json records", "csv", "csv sep", "sql", "xlsx"]
PAN_OPS = ["types", "types", "fks", "fks", "rows", "rows", "params", "replace", "remove", "remove", "copy", "tic", "obfusimplify", "good", "clone",
           "finddups", "write", "write", "write", "read", "read"]


def pan_op(op, k, s, fct, dat, path):
    if op == "types":
        return fct.find_data_type_failures(dat, as_table=k["flip"])
    if op == "fks":
        return fct.find_foreign_key_failures(dat, verbosity=k["verbosity"], as_table=k["flip"])
    if op == "rows":
        return fct.find_data_row_failures(dat, as_table=k["flip"])
    if op == "finddups":
        return fct.find_duplicates(dat, keep=k["keep"], as_table=k["flip"])
    if op == "params":
        return fct.create_full_parameters_dict(dat)
    if op == "replace":
        return pan_cols(s, fct.replace_data_type_failures(fct.copy_pan_dat(dat)))
    if op == "remove":
        return pan_cols(s, fct.remove_foreign_key_failures(fct.copy_pan_dat(dat), propagate=k["propagate"]))
    if op == "copy":
        return pan_cols(s, fct.copy_pan_dat(dat))
    if op == "tic":
        return {t: plain(getattr(fct.copy_to_tic_dat(dat), t)) for t in s.normal()}
    if op == "obfusimplify":
        x = fct.obfusimplify(dat)
        return pan_cols(s, x.copy), sorted(map(repr, x.renamings.items()))
    if op == "good":
        return fct.good_pan_dat_object(dat)
    if op == "clone":
        x = fct.clone(*k["tables"])
        return plain(rules(x)), x.find_data_type_failures(x.PanDat(**{t: getattr(dat, t) for t in x.all_tables}))
    raise AssertionError(op)


def read_pan(fmt, k, s, fct, p):
    return pan_cols(s, pf.read(fmt, fct, p, **({"fill_missing_fields": True} if k["flip"] else {})))


# ------------------------------------------------------------------ the history
def observe(case, fn):
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "gave", fn()
    except Skip:
        raise
    except Exception as e:
        text = str(e)
        for d in ("old", "new"):
            text = text.replace(os.path.join(case.tmp, d), "<dir>")
        return "raised", type(e).__name__, sorted(set(re.findall(r"\w+", re.sub("0x[0-9a-f]+", "", text))))    # sets print in any order


class Where(object):
    """what files.write and panfiles.write want of a case"""
    def __init__(self, d, rng):
        self.d, self.rng = d, rng
        os.makedirs(d, exist_ok=True)
    def path(self, x):
        return os.path.join(self.d, x)
    def count(self, *a):
        pass


def history(case, kind):
    rng = case.rng
    s, data, build, extra = make(rng, kind)
    tic = kind == "tic"
    cls = "TicDat" if tic else "PanDat"
    old = build()
    rows_of = lambda d: gen.tic_rows(s, d)
    def renew(fct, d):
        """an equal object that nothing else knows"""
        return tic_equal(s, fct, copy.deepcopy(rows_of(d))) if tic else fct.PanDat(**{t: getattr(d, t).copy(deep=True) for t in s.normal()})
    def new_dat(data):
        return tic_equal(s, old, data) if tic else old.PanDat(**gen.pan_args(s, data))
    try:
        dats = [new_dat(data)]
    except Exception as e:
        raise Skip("no data object: %s" % e)
    snap = tic_snap if tic else pan_snap
    fmts = rng.sample(TIC_FILES if tic else PAN_FILES, rng.randint(1, 3))
    live, done = {}, []
    for step in range(rng.randint(6, 16)):
        if rng.random() < .35:
            i = rng.randrange(len(dats))
            (edit_tic if tic else edit_pan)(rng, s, dats[i])
            done.append("edit %d" % i)
        if rng.random() < .2:
            i = rng.randrange(len(dats) + (len(dats) < 3))
            if i < len(dats):
                dats[i] = None
                gc.collect()                                  # so that the next object can be where the old one was
            d = new_dat(fresh_data(rng, s))
            if i < len(dats):
                dats[i] = d
            else:
                dats.append(d)
            done.append("new %d" % i)
            case.count("objects replaced")
        i = rng.randrange(len(dats))
        dat = dats[i]
        op = rng.choice(TIC_OPS if tic else PAN_OPS)
        keep = rng.sample(s.normal(), rng.randint(1, len(s.normal())))
        k = dict(max=rng.choice([{}, {}, {"max_failures": rng.randint(1, 4)}]), verbosity=rng.choice(["High", "Low"]), propagate=rng.random() < .6,
                 flip=rng.random() < .3, odd=rng.random() < .15, half=keep, keep=rng.choice(["first", "last", False]),
                 tables=[keep] if rng.random() < .4 else [])
        if op == "dups" and not tic:
            continue
        new = build()
        twin = renew(new, dat)
        fmt = rng.choice(sorted(live) if op in ("read", "dups") and live else fmts)
        case.describe(schema=s, extra=extra, history=done, op=op, options=k, fmt=fmt)
        if op in ("read", "dups"):
            if fmt not in live:
                continue
            if op == "read":
                rd = read_tic if tic else read_pan
                a, b = [observe(case, lambda: rd(fmt, k, s, f, live[fmt])) for f in (old, new)]
            else:
                get = lambda f: {"csv": f.csv, "sql": f.sql, "xls": f.xls, "xlsx": f.xls}.get(fmt, f.json).find_duplicates
                if fmt == "sql text":
                    continue
                a, b = [observe(case, lambda: get(f)(live[fmt])) for f in (old, new)]
            case.count("reads compared")
        elif op == "write":
            w = files.write if tic else pf.write
            there = Where(case.path("old"), rng)
            shutil.rmtree(os.path.join(case.tmp, "new"), ignore_errors=True)
            fresh = Where(case.path("new"), rng)
            p = []
            a = observe(case, lambda: p.append(w(there, fmt, old, dat, **({"allow_overwrite": True} if tic else {}))))
            q = []
            b = observe(case, lambda: q.append(w(fresh, fmt, new, twin)))
            if p and q:
                live[fmt] = p[0]
                rd = read_tic if tic else read_pan
                k["odd"] = False
                last = build()
                a, b = [observe(case, lambda: rd(fmt, k, s, f, x)) for f, x in ((rng.choice([old, last]), p[0]), (last, q[0]))]
                case.count("writes compared")
            elif p or a[0] == "raised":
                live.pop(fmt, None)
                for x in os.listdir(there.d):                 # what a failed write leaves is nobody's business
                    x = there.path(x)
                    shutil.rmtree(x) if os.path.isdir(x) else os.remove(x)
                live.clear()
        else:
            f = tic_op if tic else pan_op
            before = snap(s, dat)
            a = observe(case, lambda: f(op, k, s, old, dat, None))
            b = observe(case, lambda: f(op, k, s, new, twin, None))
            case.eq(snap(s, dat), before, "%s: the data object after the operation" % op)
        case.check(a[0] == b[0], lambda: "%s %s: the used factory %s, a new one %s" % (op, fmt, str(a)[:300], str(b)[:300]), key=op)
        case.eq(plain(sortless(a)), plain(sortless(b)), "%s (%s): what the used factory gives, against a new factory with the same rules" % (op, fmt if op in (
            "read", "write", "dups") else "memory"), key=op)
        done.append("%s %d" % (op, i))
        case.count("steps compared")
        case.count("op " + op)
        case.count("raised alike", a[0] == "raised")
    case.nontrivial(s.sig(), extra, repr(done))
    case.sample(dict(schema=s, history=done))


@reg.scenario(quick=450, thorough=8000, needs=("steps compared", "reads compared", "writes compared", "objects replaced", "op types", "op fks", "op rows",
                                               "op remove", "op replace"))
def tic_history(case):
    """a TicDatFactory after any history answers as a new one does"""
    history(case, "tic")


@reg.scenario(quick=360, thorough=7000, needs=("steps compared", "reads compared", "writes compared", "objects replaced", "op types", "op fks", "op rows",
                                               "op remove", "op replace", "op finddups"))
def pan_history(case):
    """a PanDatFactory after any history answers as a new one does"""
    history(case, "pan")
