"""C02: table edits behave like a plain dict / list model, every row conforms, rejected edits change nothing."""
import types
from ..core import Registry
from .. import gen, ref
from .c01 import defaults, Map

reg = Registry()
reg.rule = ("an edit history of 20-60 operations on the tables of one TicDat, mirrored in plain dicts and lists; the whole table is "
            "compared after every operation; distinct by the operation/outcome trace")
reg.assumptions = ["a list extended from a sequence with a bad row keeps the rows before it, like a plain list fed by a raising iterator"]

BAD = "no such field"


def good_row(rng, s, t, dat):
    """(argument for the edit, resulting field->value dict, mutate-the-argument function)"""
    dfs = s.dfs(t)
    vals = {f: gen.anything(rng) for f in dfs}
    o = rng.choice(["dict", "partial", "map", "list", "tuple", "scalar", "row", "empty"])
    if not dfs:
        return rng.choice([{}, [], (), Map({})]), {}, None
    if o == "scalar" and len(dfs) == 1:
        return vals[dfs[0]], vals, None
    if o in ("list", "tuple"):
        l = [vals[f] for f in dfs]
        return (l, vals, lambda: l.__setitem__(0, "mutated")) if o == "list" else (tuple(l), vals, None)
    if o == "row":
        rows = list(getattr(dat, t).values()) if s.pks(t) else list(getattr(dat, t))
        if rows:
            r = rng.choice(rows)
            return r, dict(r.items()), None
    keep = [f for f in dfs if o != "empty" and (o not in ("partial", "map") or rng.random() < .6)]
    d = {f: vals[f] for f in keep}
    return (Map(d) if o == "map" else d), {f: vals[f] if f in keep else s.default(t, f) for f in dfs}, \
        lambda: d.__setitem__(keep[0] if keep else "junk", "mutated")


def bad_row(rng, s, t):
    dfs = s.dfs(t)
    opts = [lambda: {BAD: 1}, lambda: dict([(f, 1) for f in dfs] + [(BAD, 2)]), lambda: [1] * (len(dfs) + 1)]
    if len(dfs) > 0:
        opts += [lambda: [1] * (len(dfs) - 1)]
    if len(dfs) != 1:
        opts += [lambda: 5, lambda: "ab", lambda: None]
    return rng.choice(opts)()


def bad_key(rng, s, t):
    n = len(s.pks(t))
    return rng.choice([("a", "b"), ("a", "b", "c")]) if n == 1 else \
        rng.choice([("a",) * (n + 1), ("a",) * (n - 1), "a", 3])


def same(a, b):
    """rows are compared value by value, type changes included"""
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and ref.canon(a[k]) == ref.canon(b[k]) for k in a)


def compare(case, s, t, dat, model, what):
    tbl = getattr(dat, t)
    case.check(len(tbl) == len(model), lambda: "%s: %s has %d rows, model %d" % (what, t, len(tbl), len(model)))
    if s.pks(t):
        case.eq(list(tbl), list(model), "%s: keys of %s" % (what, t))
        pairs = [(k, tbl.get(k), model[k]) for k in model]
        case.check(all(tbl.get(k) is r for k, r in tbl.items()) and list(tbl.keys()) == list(tbl), what)
    else:
        pairs = [(i, tbl[i], m) for i, m in enumerate(model)]
        case.check(all(a is b for a, (_, b, _m) in zip(tbl, pairs)), "iteration differs from indexing")
    for k, r, m in pairs:
        case.check(hasattr(r, "keys") and same(dict(r.items()), m) and tuple(r.keys()) == s.dfs(t) and
                   [ref.canon(x) for x in r.values()] == [ref.canon(m[f]) for f in s.dfs(t)] and len(r) == len(m) and
                   all(f in r for f in m) and BAD not in r and set(r) == set(m) and
                   all(ref.canon(r[f]) == ref.canon(m[f]) for f in m),
                   lambda: "%s: row %r of %s is %r, model %r" % (what, k, t, r, m))


def keyed_op(case, rng, s, t, dat, model, trace):
    tbl = getattr(dat, t)
    n = len(s.pks(t))
    mk = lambda: (rng.choice(gen.KEYS_MIX[:8]) if n == 1 else tuple(rng.choice(gen.KEYS_MIX[:4]) for _ in range(n)))
    some = lambda: rng.choice(list(model)) if model and rng.random() < .7 else mk()
    op = rng.choice(["set", "set", "set", "read", "field", "field", "del", "pop", "popitem", "clear", "update", "update kw",
                     "setdefault", "ior", "bad row", "bad row", "bad key", "bad key", "bad field", "bad update", "get"])
    k = some()
    what = op
    if op == "set":
        a, m, mut = good_row(rng, s, t, dat)
        tbl[k] = a
        model[k] = dict(m)
        if mut:
            mut()
    elif op == "read":
        got = tbl[k]
        model.setdefault(k, {f: s.default(t, f) for f in s.dfs(t)})
        case.check(same(dict(got.items()), model[k]), "reading key %r of %s gave %r" % (k, t, got))
    elif op == "field":
        if not model or not s.dfs(t):
            return
        k, f, v = rng.choice(list(model)), rng.choice(s.dfs(t)), gen.anything(rng)
        tbl[k][f] = v
        model[k][f] = v
    elif op == "del":
        if k in model:
            del tbl[k]
            del model[k]
        else:
            with case.must_raise("deleting a missing key", KeyError):
                del tbl[k]
    elif op == "pop":
        if k in model:
            got = tbl.pop(k)
            case.check(same(dict(got.items()), model.pop(k)), "pop returned %r" % got)
        else:
            d = object()
            case.check(tbl.pop(k, d) is d, "pop default")
    elif op == "popitem":
        if model:
            got, want = tbl.popitem(), model.popitem()
            case.check(got[0] == want[0] and same(dict(got[1].items()), want[1]), "popitem returned %r" % (got,))
    elif op == "clear":
        if rng.random() < .3:
            tbl.clear()
            model.clear()
    elif op in ("update", "ior", "update kw"):
        new, upd = {}, {}
        for _ in range(rng.randint(0, 3)):
            k = ("k%d" % rng.randint(0, 5)) if op == "update kw" else some()
            upd[k], m, _ = good_row(rng, s, t, dat)
            new[k] = dict(m)
        if op == "update kw" and n == 1:
            tbl.update(**upd)
        elif op == "ior":
            tbl |= upd
            case.check(tbl is getattr(dat, t), "|= replaced the table object")
            new = new if n == 1 or True else new
        elif op == "update":
            tbl.update(upd if rng.random() < .5 else list(upd.items()))
        else:
            return
        model.update(new)
    elif op == "setdefault":
        a, m, _ = good_row(rng, s, t, dat)
        got = tbl.setdefault(k, a)
        model.setdefault(k, dict(m))
        case.check(same(dict(got.items()), model[k]) and got is tbl.get(k), "setdefault returned %r" % got)
    elif op == "get":
        d = object()
        case.check((tbl.get(k, d) is d) == (k not in model) and (k in tbl) == (k in model), "get / in for %r" % (k,))
    elif op == "bad row":
        a = bad_row(rng, s, t)
        how = rng.choice(["set", "update", "setdefault"])
        what = "bad row %r by %s" % (a, how)
        k = k if how != "setdefault" else next(x for x in [mk() for _ in range(50)] + [("zz9",) * n if n > 1 else "zz9"]
                                              if x not in model)
        with case.must_raise(what):
            tbl.__setitem__(k, a) if how == "set" else tbl.update({k: a}) if how == "update" else tbl.setdefault(k, a)
    elif op == "bad key":
        k = bad_key(rng, s, t)
        a, _, _ = good_row(rng, s, t, dat)
        how = rng.choice(["set", "read", "update", "setdefault", "ior"])
        what = "bad key %r by %s" % (k, how)
        with case.must_raise(what):
            if how == "set":
                tbl[k] = a
            elif how == "read":
                tbl[k]
            elif how == "update":
                tbl.update({k: a})
            elif how == "ior":
                tbl |= {k: a}
            else:
                tbl.setdefault(k, a)
    elif op == "bad field":
        if not model:
            return
        k = rng.choice(list(model))
        with case.must_raise("setting an unknown field"):
            tbl[k][BAD] = 1
        with case.must_raise("reading an unknown field"):
            tbl[k][BAD]
    elif op == "bad update":
        good, _, _ = good_row(rng, s, t, dat)
        k1 = mk()
        upd = [(k1, good), (k, bad_row(rng, s, t))]
        if k1 == k:
            upd = upd[1:]
        elif rng.random() < .5:
            upd.reverse()
        with case.must_raise("update with one bad row"):
            tbl.update(upd)
    case.count(op)
    trace.append((t, what))
    return what


def keyless_op(case, rng, s, t, dat, model, trace):
    tbl = getattr(dat, t)
    op = rng.choice(["append", "append", "append", "insert", "extend", "iadd", "set", "set slice", "del", "del slice", "pop", "pop i",
                     "clear", "reverse", "get slice", "field", "field", "bad row", "bad row", "bad slice", "bad field",
                     "bad index", "bad extend"])
    n = len(model)
    ix = lambda: rng.randint(-n, n - 1)
    def sl():
        b = lambda: rng.choice([None, rng.randint(-n - 1, n + 1)])
        return slice(b(), b(), rng.choice([None, None, 1, 2, -1]))
    what = op
    def rows(k):
        l = [good_row(rng, s, t, dat) for _ in range(k)]
        return rng.choice([list, tuple, iter])([a for a, _, _ in l]), [dict(m) for _, m, _ in l]
    if op in ("append", "insert"):
        a, m, mut = good_row(rng, s, t, dat)
        i = rng.randint(-n - 2, n + 2)
        tbl.append(a) if op == "append" else tbl.insert(i, a)
        model.append(dict(m)) if op == "append" else model.insert(i, dict(m))
        if mut:
            mut()
    elif op in ("extend", "iadd"):
        a, m = rows(rng.randint(0, 3))
        if rng.random() < .15:
            a, m = tbl, [dict(x) for x in model]
        if op == "extend":
            tbl.extend(a)
        else:
            tbl += a
            case.check(tbl is getattr(dat, t), "+= replaced the table object")
        model.extend(m)
    elif op == "set":
        if not n:
            return
        i = ix()
        a, m, _ = good_row(rng, s, t, dat)
        tbl[i] = a
        model[i] = dict(m)
    elif op == "set slice":
        x = sl()
        size = len(range(*x.indices(n)))
        a, m = rows(size if x.step not in (None, 1) else rng.randint(0, 3))
        tbl[x] = a
        model[x] = m
    elif op in ("del", "pop i"):
        if not n:
            return
        i = ix()
        if op == "del":
            del tbl[i]
            del model[i]
        else:
            case.check(same(dict(tbl.pop(i).items()), model.pop(i)), "pop(i)")
    elif op == "del slice":
        x = sl()
        del tbl[x]
        del model[x]
    elif op == "pop":
        if not n:
            with case.must_raise("pop from an empty table", IndexError):
                tbl.pop()
        else:
            case.check(same(dict(tbl.pop().items()), model.pop()), "pop()")
    elif op == "clear":
        if rng.random() < .3:
            tbl.clear()
            model.clear()
    elif op == "reverse":
        tbl.reverse()
        model.reverse()
    elif op == "get slice":
        x = sl()
        got, want = tbl[x], model[x]
        case.check(len(got) == len(want) and all(same(dict(a.items()), b) for a, b in zip(got, want)), "slice %r" % x)
    elif op == "field":
        if not n:
            return
        i, f, v = ix(), rng.choice(s.dfs(t)), gen.anything(rng)
        tbl[i][f] = v
        model[i][f] = v
    elif op == "bad row":
        a = bad_row(rng, s, t)
        how = rng.choice(["append", "insert", "set"])
        what = "bad row %r by %s" % (a, how)
        if how == "set" and not n:
            return
        with case.must_raise(what):
            tbl.append(a) if how == "append" else tbl.insert(rng.randint(-1, n), a) if how == "insert" else \
                tbl.__setitem__(ix(), a)
    elif op == "bad slice":
        a, _ = rows(1)
        with case.must_raise("bad slice"):
            tbl[rng.randint(0, n):n] = list(a) + [bad_row(rng, s, t)]
    elif op == "bad index":
        with case.must_raise("bad index", IndexError):
            tbl[n + rng.randint(0, 2)] = good_row(rng, s, t, dat)[0]
        with case.must_raise("bad index", IndexError):
            del tbl[n + rng.randint(0, 2)]
    elif op == "bad field":
        if not n:
            return
        with case.must_raise("setting an unknown field"):
            tbl[ix()][BAD] = 1
    elif op == "bad extend":
        a, m = rows(1)
        with case.must_raise("extend with a bad row"):
            tbl.extend(list(a) + [bad_row(rng, s, t)])
        model.extend(m)
    case.count(op)
    trace.append((t, what))
    return what


@reg.scenario(quick=2500, thorough=25000, needs=(
    "set", "read", "field", "del", "pop", "popitem", "clear", "update", "update kw", "setdefault", "ior", "bad row", "bad key",
    "bad field", "bad update", "append", "insert", "extend", "iadd", "set slice", "del slice", "reverse", "bad slice", "bad extend"))
def edit_history(case):
    """random edit history against plain dicts and lists, every table compared after every operation"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, tables=(1, 3), pks=(1, 3), dfs=(0, 3), no_pk=.4))
    data = gen.rows(rng, s, n=(0, 4))
    tdf = s.build(ticdat.TicDatFactory)
    dat = tdf.TicDat(**gen.tic_args(s, data)) if rng.random() < .8 else tdf.TicDat()
    if not any(len(getattr(dat, t)) for t in s.normal()):
        data = {t: [] for t in data}
    model = {}
    for t in s.normal():
        n = len(s.pks(t))
        rows = [dict(zip(s.dfs(t), r[n:])) for r in data[t]]
        model[t] = dict(zip([r[0] if n == 1 else r[:n] for r in data[t]], rows)) if n else rows
    trace = []
    case.describe(schema=s, data=data, trace=trace)
    for _ in range(rng.randint(20, 60)):
        t = rng.choice(s.normal())
        what = (keyed_op if s.pks(t) else keyless_op)(case, rng, s, t, dat, model[t], trace)
        if what:
            compare(case, s, t, dat, model[t], what)
            case.count("operations")
    for t in s.normal():
        compare(case, s, t, dat, model[t], "end")
    case.check(tdf.good_tic_dat_object(dat), "no longer a good TicDat object")
    case.nontrivial(repr(trace), len(trace))
    case.sample(dict(schema=s, trace=trace[:12]))


@reg.scenario(quick=600, thorough=6000, needs=("fresh_tables",))
def independence(case):
    """tables and rows of different data objects of one factory are independent, default rows included"""
    import ticdat
    rng = case.rng
    s = defaults(rng, gen.schema(rng, tables=(1, 3)))
    tdf = s.build(ticdat.TicDatFactory)
    data = gen.rows(rng, s, n=(1, 4))
    a, b = tdf.TicDat(), tdf.TicDat(**gen.tic_args(s, data))
    c = tdf.TicDat(**{t: getattr(b, t) for t in s.normal()})
    trace = []
    model = {}
    for t in s.normal():
        model[t] = {} if s.pks(t) else []
        for _ in range(8):
            (keyed_op if s.pks(t) else keyless_op)(case, rng, s, t, a, model[t], trace)
        compare(case, s, t, a, model[t], "after edits")
        k = ("q",) * len(s.pks(t)) if len(s.pks(t)) > 1 else "q"
        if s.pks(t) and s.dfs(t):
            r1 = getattr(a, t)[k]
            r2 = getattr(tdf.TicDat(), t)[k]
            before = dict(r2.items())
            r1[s.dfs(t)[0]] = "edited"
            case.check(r1 is not r2 and same(dict(r2.items()), before), "default rows are shared")
    for x in (b, c):
        case.eq(gen.canon_rows(gen.tic_rows(s, x)), gen.canon_rows(data), "another object of the same factory")
    for t in s.normal():
        for r in (getattr(b, t).values() if s.pks(t) else getattr(b, t)):
            for f in s.dfs(t):
                r[f] = "edited"
    case.eq(gen.canon_rows(gen.tic_rows(s, c)), gen.canon_rows(data), "an object built from another object's tables")
    case.count("fresh_tables", len(s.normal()))
    case.nontrivial(repr(trace), repr(data))
