"""C13: foreign key links reach exactly the matching child rows."""
import itertools, os
from ..core import Registry, Skip
from .. import gen, ref
from .c04 import tic_snap

reg = Registry()
reg.rule = ("random schemas whose foreign keys all reference whole primary keys (several per table pair, permuted, compound, "
            "self references, one-to-one), links enabled, objects made in every way; for each parent row the monitor compares "
            "the linked rows (identity, keys) with the child rows that match by value; distinct by (keys, link structure)")
reg.assumptions = ["links are offered between tables that both have primary keys, as the code and documentation describe",
                   "several foreign keys between the same two tables are told apart by a suffix of field names",
                   "rows added after construction have no links"]
DICTY = set(dir(dict))


def expected_links(s):
    """{(native, foreign): [fk]} for keys that can be followed, duplicates dropped"""
    rtn = {}
    for nt, ft, mp in s.fks:
        if s.pks(nt) and s.pks(ft):
            l = rtn.setdefault((nt, ft), [])
            if not any(set(mp) == set(m) for m in l):
                l.append(mp)
    return rtn


def link_names(s, nt, ft, mps):
    """for each mapping, the set of acceptable attribute names"""
    if len(mps) == 1:
        return [{nt}]
    out = []
    for mp in mps:
        nf = {a for a, _ in mp}
        others = [{a for a, _ in m} for m in mps if m is not mp]
        if nf in others:
            r = {b: a for a, b in mp}
            out.append({"_".join([nt] + [r[b] for b in s.pks(ft)])})
            continue
        d = nf.difference(*others) or nf
        out.append({"_".join((nt,) + p) for p in itertools.permutations(sorted(d))})
    return out


def keys_of(s, t, k):
    return (k,) if len(s.pks(t)) == 1 else tuple(k)


def check_links(case, s, dat, what):
    n = 0
    wanted_names = {}
    for (nt, ft), mps in expected_links(s).items():
        for mp, names in zip(mps, link_names(s, nt, ft, mps)):
            if names & DICTY:
                case.count("colliding_name")
                continue
            child, parent = getattr(dat, nt), getattr(dat, ft)
            rev = {b: a for a, b in mp}
            one = set(rev.values()) >= set(s.pks(nt))
            match = {}
            for k, row in child.items():
                full = dict(zip(s.pks(nt), keys_of(s, nt, k)), **{f: row[f] for f in s.dfs(nt)})
                match.setdefault(tuple(full[rev[b]] for b in s.pks(ft)), []).append((full, k, row))
            used = set()
            for pk, prow in parent.items():
                pkt = keys_of(s, ft, pk)
                here = [x for x in names if x in vars(prow)]
                case.check(len(here) <= 1, lambda: "%s: several links %s for one foreign key" % (what, here))
                kids = match.get(pkt, [])
                if one:
                    case.check(len(kids) <= 1, "harness: one-to-one with two children")
                    if not kids:
                        case.check(not here, lambda: "%s: %s[%r] without child in %s has a link" % (what, ft, pk, nt))
                        continue
                    case.check(here, lambda: "%s: %s[%r] has no link to its child in %s via %s" % (what, ft, pk, nt, mp))
                    case.check(getattr(prow, here[0]) is kids[0][2],
                               lambda: "%s: %s[%r].%s is not the child row itself" % (what, ft, pk, here[0]))
                    used.add(here[0])
                    n += 1
                    continue
                if not here:
                    case.check(not kids, lambda: "%s: %s[%r] has no link to its children in %s" % (what, ft, pk, nt))
                    continue
                link = getattr(prow, here[0])
                used.add(here[0])
                rest = [f for f in s.pks(nt) if f not in rev.values()]
                want = {}
                for full, k, row in kids:
                    lk = tuple(full[f] for f in rest)
                    want[lk[0] if len(lk) == 1 else lk] = row
                case.check(len(want) == len(kids), "harness: link keys collide")
                case.eq(sorted(map(repr, link.keys())), sorted(map(repr, want.keys())),
                        "%s: keys of %s[%r].%s" % (what, ft, pk, here[0]))
                for lk, row in want.items():
                    case.check(link[lk] is row, lambda: "%s: %s[%r].%s[%r] is not the child row itself" %
                               (what, ft, pk, here[0], lk))
                    n += 1
            case.check(len(used) <= 1, lambda: "%s: the link name varies: %s" % (what, used))
            wanted_names.setdefault(ft, set()).update(names)
    for t in s.normal():
        tbl = getattr(dat, t)
        for row in (tbl.values() if s.pks(t) else tbl):
            extra = {x for x in vars(row) if not x.startswith("_")} - wanted_names.get(t, set())
            case.check(not extra, lambda: "%s: row of %s offers unexpected links %s" % (what, t, extra))
    case.count("links_followed", n)
    return n


def make(case, names=gen.TABLE_NAMES, cells=None):
    import ticdat
    rng = case.rng
    s = gen.link_schema(rng, permuted=rng.random() < .3,
                        table_names=["pop", "update", "items", "get", "t1", "t2"] if rng.random() < .05 else names)
    fct = s.build(ticdat.TicDatFactory)
    if rng.random() < .05:                      # the same foreign key declared twice, fields in another order
        nt, ft, mp = rng.choice(s.fks)
        if len(mp) > 1:
            fct.add_foreign_key(nt, ft, [list(x) for x in mp[::-1]])
    fct.enable_foreign_key_links()
    data = gen.fk_data(rng, s, null=cells if cells is not None else .03)
    for l in expected_links(s).values():
        if len(l) > 1:
            case.count("several_keys_per_pair")
            if len({frozenset(a for a, _ in m) for m in l}) < len(l):
                case.count("permuted_keys")
    for nt, ft, mp in s.fks:
        if {a for a, _ in mp} >= set(s.pks(nt)) and s.pks(nt):
            case.count("one_to_one")
        if nt == ft:
            case.count("self_reference")
    case.describe(schema=s, data=data)
    return s, fct, data


@reg.scenario(quick=1500, thorough=30000, needs=("links_followed", "several_keys_per_pair", "permuted_keys", "one_to_one",
                                                "self_reference"))
def constructed(case):
    """objects made by the constructor from dicts, lists and DataFrames: links exact, table data unaltered"""
    rng = case.rng
    s, fct, data = make(case)
    args = gen.tic_args(s, data)
    for t in s.normal():
        k = len(s.pks(t))
        x = rng.random()
        if x < .3:
            args[t] = [list(r) for r in data[t]]
        elif x < .4 and not ("name" in s.fields(t) and s.pks(t) != ("name",)):
            args[t] = gen.pan_args(s, data, dtype_object=True)[t]
    dat = fct.TicDat(**args)
    case.eq(gen.canon_rows(gen.tic_rows(s, dat), order=True), gen.canon_rows(data, order=True), "table data with links")
    n = check_links(case, s, dat, "constructor")
    case.check(fct.good_tic_dat_object(dat), "linked object is not good")
    if n:
        case.nontrivial(s.sig(), repr(data))
    case.sample(dict(schema=s, data=data, links=n))


@reg.scenario(quick=700, thorough=12000, needs=("links_followed", "edited_through_link"))
def derived(case):
    """copies, clones, as_dict rebuilds, frozen objects and edits through a link"""
    rng = case.rng
    s, fct, data = make(case)
    dat = fct.TicDat(**gen.tic_args(s, data))
    want = gen.canon_rows(data, order=True)
    objs = [("copy", fct.copy_tic_dat(dat)), ("as_dict", fct.TicDat(**fct.as_dict(dat))),
            ("frozen copy", fct.copy_tic_dat(dat, freeze_it=True)), ("copy of copy", fct.copy_tic_dat(fct.copy_tic_dat(dat)))]
    cl = fct.clone()
    objs.append(("clone", cl.TicDat(**gen.tic_args(s, data))))
    objs.append(("original", dat))
    n = 0
    for name, d in objs:
        case.eq(gen.canon_rows(gen.tic_rows(s, d), order=True), want, "table data of " + name)
        n += check_links(case, s, d, name)
    # rows reached through a link are the rows themselves: an edit through it is an edit of the child table
    for (nt, ft), mps in expected_links(s).items():
        nms = link_names(s, nt, ft, mps)
        if not s.dfs(nt):
            continue
        for k, row in getattr(dat, ft).items():
            for nm in nms[0]:
                l = vars(row).get(nm)
                if l is None or nm in DICTY:
                    continue
                one = {a for a, _ in mps[0]} >= set(s.pks(nt))
                rows = [l] if one else list(l.values())
                for r in rows[:1]:
                    f = rng.choice(s.dfs(nt))
                    r[f] = "edited through a link"
                    case.check(any(x is r and x[f] == "edited through a link" for x in getattr(dat, nt).values()),
                               "an edit through a link did not reach the child table")
                    case.count("edited_through_link")
    if n:
        case.nontrivial(s.sig(), repr(data))


@reg.scenario(quick=400, thorough=6000, needs=("links_followed", "restricted", "column added", "column renamed", "column removed", "table added"))
def edited_factory(case):
    """the clones made by table restrictions and by adding, renaming and removing columns and tables still link exactly the children"""
    rng = case.rng
    s, fct, data = make(case, cells=0)
    n = gen.Schema({t: (list(s.pks(t)), list(s.dfs(t))) for t in s.tables})
    n.fks, rows, new, done = list(s.fks), {t: list(v) for t, v in data.items()}, fct, []
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(["restricted", "column added", "column renamed", "column removed", "table added"])
        t = rng.choice(sorted(n.tables))
        if op == "restricted":
            keep = rng.sample(sorted(n.tables), rng.randint(max(1, len(n.tables) - 1), len(n.tables)))
            new = new.clone(table_restrictions=keep)
            n.tables = {x: n.tables[x] for x in n.tables if x in keep}
            n.fks = [k for k in n.fks if k[0] in keep and k[1] in keep]
        elif op == "column added":
            f = "more%d" % len(done)
            new = new.clone_add_a_column(t, f, "data")
            n.tables[t][1].append(f)
            rows[t] = [r + (len(done),) for r in rows[t]]
        elif op == "column renamed":
            f, g = rng.choice(n.fields(t)), "other%d" % len(done)
            new = new.clone_rename_a_column(t, f, g)
            n.tables[t] = tuple([g if x == f else x for x in l] for l in n.tables[t])
            n.fks = [(a, b, tuple((g if (a, x) == (t, f) else x, g if (b, y) == (t, f) else y) for x, y in mp)) for a, b, mp in n.fks]
        elif op == "column removed":
            used = {(a, x) for a, b, mp in n.fks for x, _ in mp}
            free = [f for f in n.dfs(t) if (t, f) not in used]
            if not free or len(n.fields(t)) == 1:
                continue
            f = rng.choice(free)
            new = new.clone_remove_a_column(t, f)
            i = n.fields(t).index(f)
            n.tables[t][1].remove(f)
            rows[t] = [r[:i] + r[i + 1:] for r in rows[t]]
        else:
            f = "new_table%d" % len(done)
            new = new.clone_add_a_table(f, ["a"], ["b"])
            n.tables[f] = (["a"], ["b"])
            rows[f] = [(1, 2), ("x", "y")]
        done.append((op, t, f if op != "restricted" else None))
        case.count(op)
    n.tables = {t: (tuple(a), tuple(b)) for t, (a, b) in n.tables.items()}
    rows = {t: rows[t] for t in n.tables}
    case.describe(edits=done, edited=n)
    dat = new.TicDat(**gen.tic_args(n, rows))
    case.eq(gen.canon_rows(gen.tic_rows(n, dat), order=True), gen.canon_rows(rows, order=True), "table data of the edited factory")
    k = check_links(case, n, dat, "after " + repr(done))
    check_links(case, s, fct.TicDat(**gen.tic_args(s, data)), "the original factory after the edits")
    if k and done:
        case.nontrivial(n.sig(), repr(rows))


@reg.scenario(quick=400, thorough=6000, needs=("links_followed", "read:csv", "read:json", "read:sql", "read:xls",
                                               "read:json pandas"))
def read_from_file(case):
    """objects made by the file readers have the same links"""
    rng = case.rng
    s, fct, data = make(case, cells=0)
    s0 = gen.Schema(s.tables)
    import ticdat
    plain = s0.build(ticdat.TicDatFactory)
    # only values that every format keeps as they are
    data = {t: [tuple(("v%s" % x if not isinstance(x, str) or x == "1" or x == "2" else x) for x in r) for r in rs]
            for t, rs in data.items()}
    for t in s.normal():
        k, seen, out = len(s.pks(t)), set(), []
        for r in data[t]:
            if not k or r[:k] not in seen:
                seen.add(r[:k])
                out.append(r)
        data[t] = out
    case.describe(schema=s, data=data)
    src = plain.TicDat(**gen.tic_args(s0, data))
    fmt = rng.choice(["csv", "json", "sql", "xls", "json pandas"])
    if fmt == "json pandas" and any("name" in s.fields(t) and s.pks(t) != ("name",) for t in s.normal()):
        fmt = "json"
    if fmt == "csv":
        os.mkdir(case.path("d"))
        plain.csv.write_directory(src, case.path("d"))
        dat = fct.csv.create_tic_dat(case.path("d"))
    elif fmt.startswith("json"):
        plain.json.write_file(src, case.path("d.json"), to_pandas=fmt != "json")
        dat = fct.json.create_tic_dat(case.path("d.json"))
    elif fmt == "sql":
        plain.sql.write_db_data(src, case.path("d.db"))
        dat = fct.sql.create_tic_dat(case.path("d.db"))
    else:
        plain.xls.write_file(src, case.path("d.xlsx"))
        dat = fct.xls.create_tic_dat(case.path("d.xlsx"))
    case.count("read:" + fmt)
    case.eq(gen.canon_rows(gen.tic_rows(s, dat)), gen.canon_rows(data), "data read from " + fmt)
    if check_links(case, s, dat, "read from " + fmt):
        case.nontrivial(fmt, s.sig(), repr(data))


@reg.scenario(quick=200, thorough=2000, needs=("plain_objects", "rejected_complex"))
def not_linked(case):
    """without links enabled rows offer none; foreign keys to something else than a whole primary key are refused"""
    import ticdat
    rng = case.rng
    s = gen.fk_schema(rng) if rng.random() < .5 else gen.link_schema(rng)
    data = gen.fk_data(rng, s, null=0)
    case.describe(schema=s, data=data)
    fct = s.build(ticdat.TicDatFactory)
    dat = fct.TicDat(**gen.tic_args(s, data))
    for t in s.normal():
        tbl = getattr(dat, t)
        for row in (tbl.values() if s.pks(t) else tbl):
            case.check(not [x for x in vars(row) if not x.startswith("_")], "links offered though not enabled")
    case.count("plain_objects")
    free = [t for t in s.normal() if not s.pks(t)]
    if free:
        f3 = s.build(ticdat.TicDatFactory)
        f3.set_generator_tables(free[:1])
        with case.must_raise("as_dict with a generator table"):
            f3.as_dict(f3.TicDat(**gen.tic_args(s, data)))
        case.count("generator")
    if any(set(b for _, b in mp) != set(s.pks(ft)) for nt, ft, mp in s.fks):
        f2 = s.build(ticdat.TicDatFactory)
        f2.enable_foreign_key_links()
        with case.must_raise("links over a foreign key that does not reference a primary key"):
            f2.TicDat(**gen.tic_args(s, data))
        case.count("rejected_complex")
    case.nontrivial(s.sig(), repr(data))
