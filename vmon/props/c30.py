"""C30: data object validation accepts exactly the conforming objects."""
import collections, collections.abc, types
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref
from .c23 import tic_exact, frame_exact

reg = Registry()
reg.rule = ("conforming objects (TicDat, frozen, plain objects holding dicts/lists/DataFrames, PanDat) of random schemas with generic and "
            "generator tables, and the same after one to three kinds of damage at a random place; an independent recursive definition of "
            "'conforming' judges each; distinct by schema, kind and place of the damage")
reg.assumptions = ["good_tic_dat_object is judged with its default row_checking='strict'; good_tic_dat_table with both settings",
                   "tables of objects are Python containers or DataFrames; objects whose own methods raise are not generated",
                   "a key of a single-field table is any hashable that is not a container, or a container of length one",
                   "generator functions return an iterable of rows", "an empty dict counts as an empty keyless table; a filled dict given to good_tic_dat_table as a keyless table is not judged"]


# ---- the definition
def is_dict(x):
    return isinstance(x, collections.abc.Mapping) or (not isinstance(x, (pd.DataFrame, pd.Series)) and all(
        hasattr(x, a) for a in ("keys", "values", "items", "__getitem__", "__len__", "__contains__")))


def is_container(x):
    return isinstance(x, (list, tuple, set, frozenset, dict, pd.DataFrame, pd.Series)) or (hasattr(x, "__len__") and hasattr(x, "__iter__")
                                                                                        and hasattr(x, "__contains__") and not isinstance(x, str))


def key_ok(s, t, k):
    n = len(s.pks(t))
    return (len(k) if is_container(k) else 1) == n


def unhashable(k):
    try:
        hash(k)
    except TypeError:
        return True


def row_ok(s, t, r, strict):
    d = s.dfs(t)
    if is_dict(r):
        return set(r) == set(d) if strict else set(r) <= set(d)
    if strict:
        return False
    return len(r) == len(d) if is_container(r) else len(d) == 1


def table_ok(s, t, x, strict=True):
    if s.tables[t] == '*':
        return isinstance(x, pd.DataFrame)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        if strict:
            return False
        raise Skip("frames as tables")
    if t in s.generators:
        if callable(x):
            return all(row_ok(s, t, r, strict) for r in x())
        return is_container(x) and not is_dict(x) and all(row_ok(s, t, r, strict) for r in x)
    if s.pks(t):
        if is_dict(x):
            return all(key_ok(s, t, k) and row_ok(s, t, r, strict) for k, r in x.items())
        if not strict and is_container(x) and not s.dfs(t) and any(unhashable(k) for k in x):
            raise Skip("unhashable keys in a key container")
        return not strict and is_container(x) and not s.dfs(t) and all(key_ok(s, t, k) for k in x)
    if is_dict(x) and x and not strict:
        raise Skip("a dict as a keyless table")
    return is_container(x) and (not is_dict(x) or not x) and all(row_ok(s, t, r, strict) for r in x)


def object_ok(s, obj):
    return all(hasattr(obj, t) and table_ok(s, t, getattr(obj, t)) for t in s.tables)


def pan_ok(s, obj):
    for t, v in s.tables.items():
        if not isinstance(getattr(obj, t, None), pd.DataFrame):
            return False
        if v != '*':
            cols = list(getattr(obj, t).columns)
            if any(cols.count(f) != 1 for f in s.fields(t)):
                return False
    return True


# ---- objects
def tables_of(rng, s, data):
    """plain python tables holding the data"""
    out = {}
    for t, v in s.tables.items():
        if v == '*':
            out[t] = pd.DataFrame({"x": [1, 2], "y": ["a", None]})
            continue
        n = len(s.pks(t))
        if n:
            out[t] = {(r[0] if n == 1 else tuple(r[:n])): dict(zip(s.dfs(t), r[n:])) for r in data[t]}
            if rng.random() < .1:
                out[t] = collections.OrderedDict(out[t])
        else:
            out[t] = [dict(zip(s.dfs(t), r)) for r in data[t]]
            if t in s.generators and rng.random() < .6:
                out[t] = (lambda rows: lambda: iter([dict(r) for r in rows]))(out[t])
            elif rng.random() < .2:
                out[t] = tuple(out[t])
    return out


ODD = [None, 5, 0.0, "text", "", True, object(), lambda: []]


def bad_row(rng, s, t, row):
    r = dict(row)
    d = [f for f in s.dfs(t) if f in r]
    k = rng.choice(["missing", "extra", "renamed", "tuple", "list", "scalar", "none", "case", "swapped", "empty"])
    if k == "missing" and d:
        del r[rng.choice(d)]
    elif k == "extra":
        r[rng.choice(["zz", "Zz extra", 0, None] + list(s.pks(t)))] = 1
    elif k == "renamed" and d:
        r["zz new"] = r.pop(rng.choice(d))
    elif k == "case" and d:
        f = rng.choice(d)
        if f.swapcase() not in d:
            r[f.swapcase()] = r.pop(f)
    elif k == "tuple":
        return k, tuple(r.values()) + (1,) * rng.randint(0, 1)
    elif k == "list":
        return k, list(r.values())[rng.randint(0, 1):]
    elif k == "scalar":
        return k, rng.choice([1, "a", 2.5, None])
    elif k == "none":
        return k, None
    elif k == "empty":
        r = {}
    return k, r


def bad_key(rng, s, t, k):
    n = len(s.pks(t))
    k = k if isinstance(k, tuple) else (k,)
    return rng.choice([k + ("more",), k[:-1] or ("p", "q"), k[:-1] or (), ("x",) * n, "scalar", k * 2, (), 7])


def damage(rng, s, tabs):
    """returns (kind, place) of what it did to the plain tables"""
    t = rng.choice(list(s.tables))
    if t not in tabs:
        return ("nothing", t)
    x = tabs[t]
    kind = rng.choice(["drop", "odd", "container", "row", "row", "row", "key", "key", "frame", "unframe"])
    if kind == "drop":
        del tabs[t]
    elif kind == "odd":
        tabs[t] = rng.choice(ODD)
    elif kind == "container":
        tabs[t] = rng.choice([[], {}, (), set(), list(x) if is_container(x) else [1], {1: {}}, [{}], [[]], {(): {}}, {"k": {"a": 1}}, [1, 2]])
    elif kind == "frame" and s.tables[t] != '*':
        tabs[t] = rng.choice([pd.DataFrame([[1] * len(s.fields(t))], columns=list(s.fields(t))), pd.DataFrame(), pd.Series([1, 2])])
    elif kind == "unframe":
        tabs[t] = rng.choice([[], {}, [{"x": 1}], pd.Series([1])])
    elif s.tables[t] != '*' and is_dict(x) and x and kind in ("row", "key"):
        k = rng.choice(list(x))
        if kind == "row":
            what, tabs[t] = "row", dict(x)
            sub, tabs[t][k] = bad_row(rng, s, t, x[k]) if is_dict(x[k]) else ("again", x[k])
            kind = "row " + sub
        else:
            y = [(bad_key(rng, s, t, a), b) if a is k or a == k else (a, b) for a, b in x.items()]
            tabs[t] = dict(y)
    elif s.tables[t] != '*' and not s.pks(t) and kind == "row":
        rows = list(x()) if callable(x) else list(x) if isinstance(x, (list, tuple)) else []
        if rows and all(is_dict(r) for r in rows):
            i = rng.randrange(len(rows))
            sub, rows[i] = bad_row(rng, s, t, rows[i])
            tabs[t] = (lambda: iter(list(rows))) if callable(x) else type(x)(rows)
            kind = "row " + sub
    return (kind, t)


class Plain(object):
    pass


def plain_object(rng, tabs):
    o = Plain() if rng.random() < .7 else types.SimpleNamespace()
    for t, x in tabs.items():
        setattr(o, t, x)
    if rng.random() < .2:
        o.something_else = 1
    return o


def picture(x, depth=0):
    """identities and contents all the way down"""
    if isinstance(x, pd.DataFrame):
        return frame_exact(x)
    if isinstance(x, pd.Series):
        return (id(x), repr(x))
    if is_dict(x):
        return (id(x), type(x), [(picture(k), picture(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (id(x), type(x), [picture(v) for v in x])
    return (id(x), repr(x))


def make_schema(rng, gens=True, generic=.2):
    s = gen.schema(rng, tables=(1, 4), dfs=(0, 3), pks=(1, 3), no_pk=.3, field_names=rng.choice([["a", "b", "c", "d", "e f"], gen.FIELD_NAMES]))
    if rng.random() < generic:
        s.tables["gg"] = '*'
    if gens and rng.random() < .3:
        s.generators = [t for t in s.normal() if not s.pks(t) and rng.random() < .7]
    return s


def ask(case, fn, obj, pic, what):
    """the answer, never an exception, with a message exactly when it is no, the object as before"""
    msgs = []
    before = pic()
    r = fn(obj, msgs.append)
    case.check(r is True or r is False, lambda: "%s returned %r" % (what, r))
    case.check(all(isinstance(m, str) and m for m in msgs) and bool(msgs) == (not r), lambda: "%s said %r but its messages are %r" % (what, r, msgs), key="message")
    case.eq(pic(), before, what + " changed the object", key="modified")
    r2 = fn(obj)
    case.check(r2 == r, lambda: "%s answers %r, then %r" % (what, r, r2), key="unstable")
    return r


@reg.scenario(2500, 30000, needs=("accepted", "refused", "accepted after damage"))
def tic_object(case):
    """good_tic_dat_object against the definition, on plain objects before and after damage"""
    import ticdat
    rng = case.rng
    s = make_schema(rng)
    data = gen.rows(rng, s, n=(0, 4))
    tabs = tables_of(rng, s, data)
    did = [damage(rng, s, tabs) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))]
    obj = plain_object(rng, tabs)
    fct = s.build(ticdat.TicDatFactory)
    case.describe(schema=s, tables=tabs, damage=did)
    want = object_ok(s, obj)
    r = ask(case, fct.good_tic_dat_object, obj, lambda: {t: picture(x) for t, x in vars(obj).items()}, "good_tic_dat_object")
    case.check(r == want, lambda: "good_tic_dat_object says %r" % r, key="verdict")
    case.count("accepted" if r else "refused")
    if r and did:
        case.count("accepted after damage")
    case.nontrivial(s.sig(), did)
    if r:
        after_acceptance(case, s, fct, obj)
    case.sample(dict(schema=s, damage=did))


def after_acceptance(case, s, fct, obj):
    """what is accepted can be copied, checked and written"""
    dat = fct.copy_tic_dat(obj)
    case.check(fct.good_tic_dat_object(dat), "the copy of an accepted object is refused")
    case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), gen.canon_rows(gen.tic_rows(s, obj), order=True), "the copy of an accepted object")
    fct.find_data_type_failures(obj), fct.find_foreign_key_failures(obj), fct.find_data_row_failures(obj)
    fct.copy_to_pandas(obj, reset_index=True)
    if not s.generators and '*' not in s.tables.values():
        p = case.path("x.json")
        fct.json.write_file(obj, p)
        case.eq({t: len(v) for t, v in gen.tic_rows(s, fct.json.create_tic_dat(p)).items()}, {t: len(v) for t, v in gen.tic_rows(s, obj).items()},
                "rows written from an accepted object")
    case.count("used")


@reg.scenario(700, 8000, needs=("accepted", "refused"))
def tic_mutated(case):
    """real TicDat objects, frozen or not, are accepted; after edits by hand they are judged by what they hold"""
    import ticdat
    rng = case.rng
    s = make_schema(rng, gens=False)
    data = gen.rows(rng, s, n=(0, 4))
    fct = s.build(ticdat.TicDatFactory)
    args = gen.tic_args(s, data)
    for t, v in s.tables.items():
        if v == '*':
            args[t] = pd.DataFrame({"x": [1]})
    frozen = rng.random() < .2
    dat = fct.freeze_me(fct.TicDat(**args)) if frozen else fct.TicDat(**args)
    case.describe(schema=s, data=data)
    pic = lambda: tic_exact(s, dat)
    case.check(ask(case, fct.good_tic_dat_object, dat, pic, "good_tic_dat_object"), "a fresh TicDat object is refused")
    other = make_schema(rng)
    of = other.build(ticdat.TicDatFactory)
    want = object_ok(other, dat)
    r = ask(case, of.good_tic_dat_object, dat, pic, "good_tic_dat_object of another factory")
    case.check(r == want, "the factory of %r says %r" % (other, r), key="verdict")
    case.count("accepted" if r else "refused")
    if frozen:
        case.nontrivial(s.sig(), "frozen", other.sig())
        return
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(s.normal())
        tbl = getattr(dat, t)
        op = rng.choice(["row", "del field", "add", "plain row", "drop", "none"])
        try:
            if op == "add":
                if s.pks(t):
                    n = len(s.pks(t))
                    tbl[rng.choice(["k9", ("k9",) * n, ("k9",) * (n + 1), (1, 2)])] = {}
                else:
                    tbl.append(rng.choice([{}, {f: 1 for f in s.dfs(t)}, [1], 5]))
            elif op in ("row", "plain row") and len(tbl):
                k = rng.choice(list(tbl)) if s.pks(t) else rng.randrange(len(tbl))
                if op == "plain row":
                    dict.__setitem__(tbl, k, bad_row(rng, s, t, tbl[k])[1]) if s.pks(t) else list.__setitem__(tbl, k, bad_row(rng, s, t, tbl[k])[1])
                elif s.dfs(t) and is_dict(tbl[k]):
                    tbl[k][rng.choice(s.dfs(t))] = 3
            elif op == "del field" and len(tbl) and s.dfs(t):
                k = rng.choice(list(tbl)) if s.pks(t) else rng.randrange(len(tbl))
                if is_dict(tbl[k]):
                    dict.pop(tbl[k], rng.choice(s.dfs(t)), None)
            elif op == "drop":
                delattr(dat, t)
                break
        except Exception as e:
            if not any(c.__name__ == "TicDatError" for c in type(e).__mro__) and not isinstance(e, (AttributeError, AssertionError, TypeError)):
                raise
    want = object_ok(s, dat)
    r = ask(case, fct.good_tic_dat_object, dat, lambda: {t: picture(x) for t, x in vars(dat).items()}, "good_tic_dat_object after edits")
    case.check(r == want, lambda: "after edits %r: good_tic_dat_object says %r" % ({t: repr(x) for t, x in vars(dat).items()}, r), key="verdict")
    case.count("accepted" if r else "refused")
    case.nontrivial(s.sig(), repr(data), want)


@reg.scenario(2000, 25000, needs=("accepted generous", "refused generous", "accepted strict", "refused strict", "built"))
def tic_table(case):
    """good_tic_dat_table against the definition; what it accepts the TicDat constructor can hold"""
    import ticdat
    rng = case.rng
    s = make_schema(rng, generic=0)
    data = gen.rows(rng, s, n=(0, 4))
    tabs = tables_of(rng, s, data)
    t = rng.choice(s.normal())
    one = gen.Schema({t: s.tables[t]})
    one.generators = [g for g in s.generators if g == t]
    x = loosen(rng, s, t, tabs[t]) if rng.random() < .6 else tabs[t]
    did = []
    tt = {t: x}
    for _ in range(rng.choice([0, 1, 1, 2])):
        did.append(damage(rng, one, tt))
    if t not in tt:
        raise Skip("no table left")
    x = tt[t]
    fct = s.build(ticdat.TicDatFactory)
    strict = rng.random() < .4
    kw = {"row_checking": "strict"} if strict else {} if rng.random() < .5 else {"row_checking": "generous"}
    case.describe(schema=s, table=t, x=x, kw=kw, damage=did)
    if isinstance(x, (pd.DataFrame, pd.Series)) and not strict:
        raise Skip("frames as tables")
    want = table_ok(s, t, x, strict)
    r = ask(case, lambda o, *h: fct.good_tic_dat_table(o, t, *h, **kw), x, lambda: picture(x), "good_tic_dat_table")
    case.check(r == want, lambda: "good_tic_dat_table says %r of %r" % (r, x), key="verdict")
    name = " strict" if strict else " generous"
    case.count(("accepted" if r else "refused") + name)
    case.nontrivial(s.sig(), t, repr(x)[:600], strict)
    if r:
        dat = fct.TicDat(**{t: x})
        case.check(fct.good_tic_dat_object(dat), "the TicDat built from an accepted table is refused")
        rows = gen.tic_rows(s, dat)[t]
        n = len(x()) if callable(x) and hasattr(x(), "__len__") else len(list(x())) if callable(x) else len(x)
        case.eq(len(rows), n, "rows of the TicDat built from an accepted table")
        case.count("built")
    with_msgs = []
    case.check(fct.good_tic_dat_table(x, "no such table", with_msgs.append) is False and with_msgs, "an unknown table name is accepted")


@reg.scenario(700, 8000, needs=("accepted", "refused", "built", "series", "key containers"))
def frame_table(case):
    """good_tic_dat_table of DataFrames, Series and key containers: the fields have to be there; strict wants none of them"""
    import ticdat
    rng = case.rng
    s = make_schema(rng, generic=0)
    data = gen.rows(rng, s, n=(0, 4))
    t = rng.choice(s.normal())
    pk, df = s.pks(t), s.dfs(t)
    seen, rows = set(), []
    for r in data[t]:
        k = tuple(map(ref.canon, r[:len(pk)]))
        if not pk or k not in seen:
            seen.add(k)
            rows.append(r)
    keys_only = bool(pk) and not df and rng.random() < .6
    if keys_only:
        keys = [r if len(pk) > 1 else r[0] for r in rows]
        bad = rng.random() < .5 and bool(keys)
        if bad:
            i = rng.randrange(len(keys))
            keys[i] = rng.choice([keys[i] + ("x",) if len(pk) > 1 else (keys[i], "x"), keys[i][0] if len(pk) > 1 else (1, 2, 3)])
        x, want, n = rng.choice([list, tuple])(keys), not bad, len(keys)
        case.count("key containers")
    else:
        x = pd.DataFrame([list(r) for r in rows], columns=list(pk + df), dtype=object)
        x = x[rng.sample(list(x.columns), len(x.columns))]
        if rng.random() < .3:
            x["zz other"] = 1
        drop = rng.choice(list(pk + df)) if rng.random() < .4 else None
        if drop is not None:
            x = x.drop(columns=[drop]) if rng.random() < .5 else x.rename(columns={drop: drop + " old"})
        indexed = bool(pk) and drop not in pk and rng.random() < .5
        if indexed:
            x = x.set_index(list(pk))
        want = drop is None
        n = len(rows)
        if rng.random() < .25 and len(df) == 1 and len(x.columns) >= 1:
            keep = x.columns[0] if df[0] not in x.columns else df[0]
            x = x[keep].rename(rng.choice(["whatever", df[0], None]))
            want = indexed or not pk     # the name of the only data field does not matter
            case.count("series")
        if t in s.generators or "name" in df or ("name" in pk and len(pk) > 1):
            want = False                 # documented limits
    strict = rng.random() < .3
    fct = s.build(ticdat.TicDatFactory)
    kw = {"row_checking": "strict"} if strict else {} if rng.random() < .5 else {"row_checking": "generous"}
    want = want and not strict
    case.describe(schema=s, table=t, x=x, kw=kw)
    if isinstance(x, pd.DataFrame) and x.columns.duplicated().any():
        raise Skip("a column twice")
    r = ask(case, lambda o, *h: fct.good_tic_dat_table(o, t, *h, **kw), x, lambda: picture(x), "good_tic_dat_table")
    case.check(r == want, lambda: "good_tic_dat_table says %r of %r" % (r, x), key="verdict")
    case.count("accepted" if r else "refused")
    case.nontrivial(s.sig(), t, repr(x)[:600], strict)
    if r:
        dat = fct.TicDat(**{t: x})
        case.check(fct.good_tic_dat_object(dat), "the TicDat built from an accepted table is refused")
        case.eq(len(gen.tic_rows(s, dat)[t]), n, "rows of the TicDat built from an accepted table")
        case.count("built")
    elif not strict and keys_only:    # the constructor fills the fields a frame lacks
        with case.must_raise("building a TicDat from a refused table"):
            fct.TicDat(**{t: x})


def loosen(rng, s, t, x):
    """other shapes good_tic_dat_table allows in its generous mode"""
    d = s.dfs(t)
    def row(r):
        k = rng.choice(["same", "subset", "list", "tuple", "scalar"])
        if k == "subset":
            return {f: v for f, v in r.items() if rng.random() < .6}
        if k in ("list", "tuple"):
            return [r[f] for f in d] if k == "list" else tuple(r[f] for f in d)
        if k == "scalar" and len(d) == 1:
            return r[d[0]]
        return r
    if s.pks(t):
        if not d and rng.random() < .6:
            return rng.choice([list, set, tuple])(x)
        return {k: row(r) for k, r in x.items()}
    if callable(x):
        rows = [row(r) for r in x()]
        return lambda: iter(list(rows))
    return [row(r) for r in x]


@reg.scenario(2000, 25000, needs=("accepted", "refused", "used"))
def pan_object(case):
    """good_pan_dat_object against the definition"""
    import ticdat
    rng = case.rng
    s = make_schema(rng, gens=False)
    data = gen.rows(rng, s, n=(0, 4))
    tabs = gen.pan_args(s, data, dtype_object=rng.random() < .3)
    for t, v in s.tables.items():
        if v == '*':
            tabs[t] = pd.DataFrame({"x": [1]})
    did = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        t = rng.choice(list(s.tables))
        if not isinstance(tabs.get(t), pd.DataFrame) or not tabs[t].columns.is_unique or tabs[t].columns.nlevels > 1:
            continue
        df = tabs[t]
        f = rng.choice(list(df.columns)) if len(df.columns) else None
        k = rng.choice(["drop", "odd", "missing", "renamed", "case", "index", "duplicate", "multi", "extra", "order", "series", "reindex", "columns object"])
        if k == "drop":
            del tabs[t]
        elif k == "odd":
            tabs[t] = rng.choice(ODD + [[], {}, {"a": [1]}, [[1]], df.values])
        elif k == "missing" and f is not None:
            tabs[t] = df.drop(columns=[f])
        elif k == "renamed" and f is not None:
            tabs[t] = df.rename(columns={f: "zz other"})
        elif k == "case" and f is not None:
            tabs[t] = df.rename(columns={f: str(f).swapcase()})
        elif k == "index" and f is not None:
            tabs[t] = df.set_index(f, drop=rng.random() < .7)
        elif k == "duplicate" and f is not None:
            tabs[t] = pd.concat([df, df[[f]]], axis=1)
        elif k == "multi" and f is not None:
            tabs[t] = pd.concat({c: df[[c]] for c in dict.fromkeys(df.columns)}, axis=1) if df.columns.is_unique else df
        elif k == "extra":
            tabs[t] = df.assign(**{"zz more": 1})
        elif k == "order":
            tabs[t] = df[list(df.columns)[::-1]] if df.columns.is_unique else df
        elif k == "series" and f is not None:
            tabs[t] = df.iloc[:, 0]
        elif k == "reindex":
            tabs[t] = df.set_axis(["r%s" % i for i in range(len(df))], axis=0)
        did.append((k, t))
    obj = plain_object(rng, tabs)
    fct = s.build(ticdat.PanDatFactory)
    case.describe(schema=s, tables=tabs, damage=did)
    want = pan_ok(s, obj)
    r = ask(case, fct.good_pan_dat_object, obj, lambda: {t: picture(x) for t, x in vars(obj).items()}, "good_pan_dat_object")
    case.check(r == want, lambda: "good_pan_dat_object says %r" % r, key="verdict")
    case.count("accepted" if r else "refused")
    case.nontrivial(s.sig(), did)
    if r:
        dat = fct.copy_pan_dat(obj)
        case.check(fct.good_pan_dat_object(dat), "the copy of an accepted object is refused")
        case.eq(gen.canon_rows(gen.pan_rows(s, dat), order=True), gen.canon_rows(gen.pan_rows(s, obj), order=True), "the copy of an accepted object")
        fct.find_data_type_failures(obj), fct.find_foreign_key_failures(obj), fct.find_data_row_failures(obj), fct.find_duplicates(obj)
        if '*' not in s.tables.values():
            p = case.path("x.json")
            fct.json.write_file(obj, p)
            case.eq({t: len(v) for t, v in gen.pan_rows(s, fct.json.create_pan_dat(p)).items()}, {t: len(v) for t, v in gen.pan_rows(s, obj).items()},
                    "rows written from an accepted object")
        case.count("used")
    else:
        for f, a in ((fct.copy_pan_dat, ()), (fct.find_duplicates, ()), (fct.find_data_type_failures, ()), (fct.json.write_file, ("",))):
            with case.must_raise("%s of a refused object" % f.__name__):
                f(obj, *a)
