"""C19: PostgreSQL round trips, on a real server started by the check (as nobody, in its own scratch directory)."""
import datetime, os, shutil, signal, subprocess, tempfile, time
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref
from .c23 import tic_exact, pan_exact

reg = Registry()
reg.rule = ("random schemas (typed and untyped fields, foreign keys to whole primary keys, parameters, defaults, infinity settings) are written to a "
            "PostgreSQL 16 server through an engine, a connection, a 2.0-style connection or a psycopg2 dsn; the rows found by a separate psycopg2 "
            "connection and the object read back are both compared with the data; distinct by schema, route and data")
reg.assumptions = ["untyped key fields hold text and untyped data fields hold numbers, as write_schema documents",
                   "foreign keys reference the whole primary key of a table that does not depend on the native table; self references are written parents first",
                   "a NULL reads as None in a TicDat and as a pandas null in a PanDat", "timestamps have microseconds and no time zone",
                   "deletion of old rows is committed before the new rows are written, so a failure the database itself raises half way is not judged"]

BIN = "/usr/lib/postgresql/16/bin"
INF = float("inf")
SRV = {}


def as_nobody(*cmd):
    return ["setpriv", "--reuid=nobody", "--regid=nogroup", "--clear-groups"] + list(cmd)


@reg.setup
def start():
    top = tempfile.mkdtemp(prefix="vpg_", dir="/tmp")
    os.chmod(top, 0o755)
    data, sock = os.path.join(top, "d"), os.path.join(top, "s")
    for d in (data, sock):
        os.mkdir(d)
        os.chmod(d, 0o700 if d == data else 0o777)
        shutil.chown(d, "nobody", "nogroup")
    SRV.update(top=top, sock=sock)
    env = dict(PATH=os.environ.get("PATH", ""), LC_ALL="C.UTF-8", TZ="UTC")
    subprocess.run(as_nobody(BIN + "/initdb", "-D", data, "-U", "vp", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync"), env=env, cwd=top,
                   check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    SRV["proc"] = subprocess.Popen(as_nobody(BIN + "/postgres", "-D", data, "-k", sock, "-c", "listen_addresses=", "-c", "fsync=off",
                                             "-c", "full_page_writes=off", "-c", "synchronous_commit=off", "-c", "max_connections=100"), env=env, cwd=top,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import psycopg2
    for _ in range(300):
        try:
            psycopg2.connect(host=sock, user="vp", dbname="postgres").close()
            return
        except psycopg2.OperationalError:
            time.sleep(.1)
    raise RuntimeError("the PostgreSQL server does not start")


@reg.teardown
def stop():
    p = SRV.get("proc")
    if p:
        p.send_signal(signal.SIGINT)
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
    if SRV.get("top"):
        shutil.rmtree(SRV["top"], ignore_errors=True)


def raw_con():
    """one monitoring connection per worker process, never handed to ticdat"""
    import psycopg2
    if SRV.get("pid") != os.getpid():
        SRV["con"] = psycopg2.connect(host=SRV["sock"], user="vp", dbname="postgres", options="-c lock_timeout=20s")
        SRV["con"].autocommit = True
        SRV["pid"] = os.getpid()
        SRV["n"] = 0
    return SRV["con"]


def ask(sql, *a):
    with raw_con().cursor() as c:
        c.execute(sql, *a)
        return c.fetchall() if c.description else None


def new_schema():
    raw_con()
    SRV["n"] += 1
    return "s%d_%d" % (os.getpid(), SRV["n"])


def pgn(f):
    """the documented name of a field in the database"""
    x = "".join(c if c.isalnum() else "_" for c in f.lower())
    return "_" + x[1:] if x[:1].isdigit() else x


def url():
    return "postgresql://vp@/postgres?host=" + SRV["sock"]


class Route(object):
    """the ways an application may hand its database to ticdat"""
    def __init__(self, rng):
        import sqlalchemy as sa
        from sqlalchemy.pool import NullPool
        self.kind = rng.choice(["engine", "connection", "connection", "future"])
        self.engine = sa.create_engine(url(), poolclass=NullPool, **({"future": True} if self.kind == "future" else {}))
        self.con = self.engine if self.kind == "engine" else self.engine.connect()
        self.dsn = rng.choice([None, None, dict(host=SRV["sock"], user="vp", dbname="postgres"), "host=%s user=vp dbname=postgres" % SRV["sock"]])

    def rest(self):
        """end the transaction a read leaves open"""
        if self.kind == "future":
            self.con.rollback()

    def close(self):
        if self.con is not self.engine:
            self.con.close()
        self.engine.dispose()
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()


def rows_of(schema, t, fields):
    return ask("select %s from %s.%s" % (", ".join(pgn(f) for f in fields), schema, t))


def everything(schema):
    """all rows of all tables of a database schema"""
    rtn = {}
    for (t,) in ask("select table_name from information_schema.tables where table_schema = %s", (schema,)):
        rtn[t] = sorted(map(repr, ask("select * from %s.%s" % (schema, t))))
    return rtn


# ---- schemas and data
TABLES = ["foods", "nutrition_quantities", "arcs", "cost", "inflow", "plant_a", "t1", "order", "zones", "links_", "user", "día", "a_b"]
FIELDS = ["name", "a", "B", "Min Supply", "Max Supply", "cost", "from city", "To City", "x1", "qty", "día", "is ok?", "val-1", "class", "z_z",
          "Unit Price", "42nd", "mixedCase", "key field", "%s", "a:b", "it's", 'q"q', "Σum", "date", "time", "value", "index", "level", "key", "type"]
TEXTS = ["a", "b", "New York", "", " ", "ñandú", "日本", "😀", "5", "1.50", "true", "NULL", "None", "nan", "inf", "2020-01-02", "it's", 'say "x"', "a,b", "a;b",
         ":x", ":name", "%s", "%(a)s", "50%", "\\n", "\\", "a\nb", "\t", "{1}", "$1", "--", "/* */", "'; drop table x; --", "x" * 300, "\r\n", "A", "a "]
FLOATS = [0, 1, -1, 2, 7, 0.5, -2.25, 0.1, 1 / 3.0, 1e-300, 5e-324, 1.7976931348623157e308, 1e15, 123456789.123456789, 2 ** 53 + 1.0, -1e-7, 1e6, 100000, 2 ** 31, 2 ** 40]
INTS = [0, 1, -1, 5, 42, 2 ** 31 - 1, -2 ** 31, 1000, 100000]


class Spec(object):
    """a schema, the kind of every field and what is forced"""
    def __init__(self, rng, mixed=False):
        self.s = s = gen.schema(rng, tables=(1, 4), pks=(1, 3), dfs=(0, 4), no_pk=.25, field_names=FIELDS, table_names=TABLES)
        for t in s.normal():                                       # distinct once renamed
            seen = set()
            fs = [f for f in s.fields(t) if not (pgn(f) in seen or seen.add(pgn(f)))]
            pk = tuple(f for f in s.pks(t) if f in fs)
            s.tables[t] = (pk, tuple(f for f in fs if f not in pk))
        self.kind, self.null, self.forced = {}, {}, {}
        s.inf_flag = rng.choice(["N/A", "N/A", "N/A", 1e7, 999999999, None])
        for t in s.normal():
            for f in s.fields(t):
                self.choose(rng, t, f)
        order = s.normal()
        for i, t in enumerate(order):
            for ft in order[:i + 1]:
                if s.pks(ft) and rng.random() < .45 and (ft != t or rng.random() < .3):
                    self.link(rng, t, ft)
        if rng.random() < .25:
            s.tables["parameters"] = (("Key",), ("Value",))
            s.params["p1"] = (5, dict())
            s.params["p two"] = ("x", dict(number_allowed=False, strings_allowed='*'))
            s.params["p'3"] = (2, dict(min=-INF, max=INF, inclusive_max=True))
            s.params["day"] = (datetime.datetime(2020, 5, 17), dict(datetime=True))
        for t in s.normal():
            for f in s.dfs(t):
                if (t, f) in self.kind and rng.random() < .3:
                    self.default(rng, t, f)

    def choose(self, rng, t, f, kind=None, null=None):
        s, pk = self.s, f in self.s.pks(t)
        k = kind or rng.choice(["untyped", "text", "float", "float", "int", "datetime", "untyped", "bool", "date"])
        null = (rng.random() < .3 if null is None else null) and not pk
        if k == "text":
            s.types[t, f] = dict(number_allowed=False, strings_allowed="*", nullable=null)
        elif k == "float":
            s.types[t, f] = dict(number_allowed=True, strings_allowed=(), min=rng.choice([0, -INF]), max=INF, inclusive_max=rng.random() < .5,
                                 inclusive_min=True, nullable=null)
            if s.types[t, f]["min"] == -INF:
                s.types[t, f]["inclusive_min"] = False
        elif k == "int":
            s.types[t, f] = dict(number_allowed=True, strings_allowed=(), min=-INF, max=INF, inclusive_max=False, inclusive_min=False, must_be_int=True, nullable=null)
        elif k == "datetime":
            s.types[t, f] = dict(datetime=True, nullable=null)
        else:
            s.types.pop((t, f), None)
            if k in ("bool", "date"):
                self.forced[t, f] = k if k == "date" else rng.choice(["bool", "boolean"])
            elif rng.random() < .15:
                k = rng.choice(["text", "float", "int", "datetime"])
                self.forced[t, f] = dict(text="text", float="float", int="integer", datetime="timestamp")[k]
            null = not pk and rng.random() < .5
        if k == "untyped":
            k = "text" if pk else "float"
        self.kind[t, f], self.null[t, f] = k, null

    def link(self, rng, t, ft):
        s = self.s
        pool = [f for f in s.fields(t) if not any(f in dict(m) for a, _, m in s.fks if a == t) and not any(f in dict((y, x) for x, y in m) for _, b, m in s.fks if b == t)]
        if ft == t:
            pool = [f for f in pool if f not in s.pks(t)]
        if len(pool) < len(s.pks(ft)):
            return
        nf = rng.sample(pool, len(s.pks(ft)))
        mp = list(zip(nf, s.pks(ft)))
        null = rng.random() < .3
        for a, b in mp:
            k = self.kind[ft, b]
            for d in (s.types, self.forced):
                d.pop((t, a), None)
                if (ft, b) in d:
                    d[t, a] = d[ft, b]
            if (t, a) in s.types:
                s.types[t, a] = dict(s.types[t, a], nullable=null and a not in s.pks(t))
            elif (ft, b) not in self.forced and a not in s.pks(t):          # an untyped key is text, an untyped data field is not
                self.forced[t, a] = "text"
            self.kind[t, a] = k
            self.null[t, a] = null and a not in s.pks(t)
        rng.shuffle(mp)
        s.fks.append((t, ft, tuple(mp)))

    def default(self, rng, t, f):
        k = self.kind[t, f]
        if k == "datetime" and (t, f) in self.forced or k == "date" or any(f in dict(m) for a, _, m in self.s.fks if a == t):
            return
        self.s.defaults[t, f] = {"text": rng.choice([x for x in TEXTS if x]), "float": rng.choice([rng.choice(FLOATS), INF, -INF]), "int": rng.choice(INTS), "bool": rng.random() < .5,
                                 "datetime": None}[k]

    def value(self, rng, t, f, key=False):
        k = self.kind[t, f]
        if not key and self.null[t, f] and rng.random() < .3:
            return None
        kw = self.s.types.get((t, f))
        if k == "text":
            return rng.choice(TEXTS)
        if k == "int":
            return rng.choice(INTS if self.s.inf_flag in ("N/A", None) else [x for x in INTS if abs(x) < 1e6])
        if k == "bool":
            return rng.random() < .5
        if k == "datetime":
            d = datetime.datetime(rng.randint(1, 9999) if rng.random() < .1 else rng.randint(1950, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                                  rng.randint(0, 59), rng.choice([0, 0, 500000, 1, 999999]))
            return pd.Timestamp(d) if 1950 <= d.year <= 2100 and rng.random() < .5 else d
        if k == "date":
            return datetime.date(rng.randint(1950, 2100), rng.randint(1, 12), rng.randint(1, 28))
        if rng.random() < (.06 if key else .12):
            if self.s.inf_flag is None:
                if not key and kw and kw["inclusive_max"] and kw["min"] == 0 and not kw["nullable"]:
                    return INF
            else:
                return rng.choice([INF, -INF])
        x = rng.choice(FLOATS)
        return x if self.s.inf_flag in ("N/A", None) or abs(x) < 1e6 else 3.5

    def rows(self, rng, n=(0, 6)):
        s = self.s
        data = {}
        for t in s.normal():
            if t == "parameters":
                data[t] = [(p, v) for p, v in (("p1", rng.choice([5, 7.25, 0, 1e-300, 10 ** 12])), ("p two", rng.choice([x for x in TEXTS if x])), ("p'3", rng.choice([-1.5, 3, INF])),
                                          ("day", datetime.datetime(rng.randint(1950, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.choice([0, 30]))))
                           if rng.random() < .7]
                continue
            data[t], seen = [], set()
            for _ in range(gen.size(rng, n)):
                r = {f: self.value(rng, t, f, key=f in s.pks(t)) for f in s.fields(t)}
                ok = True
                for a, ft, mp in s.fks:
                    if a != t:
                        continue
                    if data[ft] and rng.random() < .85:
                        p = dict(zip(s.fields(ft), rng.choice(data[ft])))
                        r.update({x: p[y] for x, y in mp})
                    elif all(self.null[t, x] for x, _ in mp):
                        r.update({x: None for x, _ in mp})
                    else:
                        ok = False
                k = tuple(ref.canon(r[f]) for f in s.pks(t))
                if ok and not (s.pks(t) and k in seen):
                    seen.add(k)
                    data[t].append(tuple(r[f] for f in s.fields(t)))
        return data

    def raw(self, t, r):
        """the row as it should be found in the database"""
        s = self.s
        def cell(f, v):
            if t == "parameters":
                return v
            if s.inf_flag is None and isinstance(v, float) and abs(v) == INF and (t, f) in s.types and not s.types[t, f]["nullable"]:
                return None
            if isinstance(s.inf_flag, (int, float)) and isinstance(v, float) and abs(v) == INF:
                return s.inf_flag if v > 0 else -s.inf_flag
            return v
        return tuple(cell(f, v) for f, v in zip(s.fields(t), r))


def canon(rows, dates=()):
    """rows in no order; NULL, None, NaN and NaT are one; a date is a timestamp"""
    def c(x):
        if x is None or ref.is_null(x):
            return ("null",)
        if isinstance(x, datetime.datetime):
            return ("time", x.isoformat(timespec="microseconds") if not isinstance(x, pd.Timestamp) else x.to_pydatetime().isoformat(timespec="microseconds"))
        if isinstance(x, datetime.date):
            return ("time", datetime.datetime(x.year, x.month, x.day).isoformat(timespec="microseconds"))
        if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
            return ("bool", bool(x))
        if ref.is_num(x):
            return ("num", int(x) if abs(x) != INF and int(x) == x else float(x))
        return (type(x).__name__, x)
    return sorted((tuple(c(x) for x in r) for r in rows), key=repr)


def same(case, got, want, what, key):
    a, b = canon(got), canon(want)
    case.check(a == b, lambda: "%s\n   extra: %s\n   missing: %s" % (what, [x for x in a if x not in b][:3], [x for x in b if x not in a][:3]), key=key)


def check_db(case, sp, schema, data, what):
    for t in sp.s.normal():
        got = rows_of(schema, t, sp.s.fields(t))
        want = [sp.raw(t, r) for r in data[t]]
        if t == "parameters":
            case.eq(sorted(str(g[0]) for g in got), sorted(r[0] for r in want), what + ": parameters in the database")
            continue
        same(case, got, want, "%s: table %s in the database" % (what, t), "stored")
    case.count("tables checked in the database", len(sp.s.normal()))


def check_read(case, sp, got, data, what):
    for t in sp.s.normal():
        same(case, got[t], data[t], "%s: table %s read back" % (what, t), "read")


def factories(sp, pan):
    import ticdat
    return sp.s.build(ticdat.PanDatFactory if pan else ticdat.TicDatFactory)


def make(rng, sp, fct, pan, data):
    if pan:
        frames = gen.pan_args(sp.s, data, dtype_object=True)
        for t, df in frames.items():
            if rng.random() < .5:
                frames[t] = df.infer_objects()
            if rng.random() < .2:
                frames[t].index = ["i%s" % i for i in range(len(df))]
        return fct.PanDat(**frames)
    return fct.TicDat(**gen.tic_args(sp.s, data))


def write(case, rng, fct, pan, dat, route, schema, **kw):
    if pan:
        fct.pgsql.write_data(dat, route.con, schema, **kw)
    else:
        fct.pgsql.write_data(dat, route.con, schema, dsn=route.dsn, **kw)
        case.count("dsn" if route.dsn else "no dsn")
    case.count(route.kind)


def read(fct, pan, s, route, schema, **kw):
    if pan:
        dat = fct.pgsql.create_pan_dat(route.con, schema, **kw)
        route.rest()
        return dat, gen.pan_rows(s, dat)
    dat = fct.pgsql.create_tic_dat(route.con, schema, **kw)
    route.rest()
    return dat, gen.tic_rows(s, dat)


def exact(s, pan, dat):
    return (pan_exact if pan else tic_exact)(s, dat)


def begin(case, pan=None):
    rng = case.rng
    sp = Spec(rng)
    pan = rng.random() < .4 if pan is None else pan
    data = sp.rows(rng)
    schema = new_schema()
    case.describe(schema=sp.s, kinds=sp.kind, forced=sp.forced, pan=pan, data=data)
    return rng, sp, pan, data, schema


class Cleaned(object):
    def __init__(self, *schemas):
        self.schemas = schemas
    def __enter__(self):
        return self
    def __exit__(self, *a):
        for x in reversed(self.schemas):
            ask("drop schema if exists %s cascade" % x)


@reg.scenario(400, 5000, needs=("tables checked in the database", "dsn", "no dsn", "engine", "connection", "future", "pandat", "ticdat", "rows", "key refused", "orphan refused"))
def round_trip(case):
    """write_schema, write_data, then the raw rows and the object read back; the tables enforce the keys"""
    import psycopg2
    rng, sp, pan, data, schema = begin(case)
    s = sp.s
    with Cleaned(schema), Route(rng) as route:
        fct = factories(sp, pan)
        case.describe(route=route.kind, dsn=route.dsn)
        fct.pgsql.write_schema(route.con, schema, forced_field_types=sp.forced)
        dat = make(rng, sp, fct, pan, data)
        before = exact(s, pan, dat)
        write(case, rng, fct, pan, dat, route, schema)
        case.eq(exact(s, pan, dat), before, "write_data changed its argument", key="modified")
        check_db(case, sp, schema, data, "after the write")
        _, got = read(fct, pan, s, route, schema)
        check_read(case, sp, got, data, "same factory")
        if rng.random() < .4:                                      # the other kind of object reads the same data
            other = factories(sp, not pan)
            _, got = read(other, not pan, s, route, schema)
            check_read(case, sp, got, data, "the other factory")
        case.count("pandat" if pan else "ticdat")
        case.count("rows", sum(map(len, data.values())))
        # keys are enforced by the database itself
        for t in s.normal():
            if s.pks(t) and data[t] and t != "parameters":
                r = sp.raw(t, rng.choice(data[t]))
                try:
                    ask("insert into %s.%s (%s) values (%s)" % (schema, t, ", ".join(map(pgn, s.fields(t))), ", ".join(["%s"] * len(r))), r)
                    case.fail("table %s accepts the primary key of %r twice" % (t, r), key="key not enforced")
                except psycopg2.errors.UniqueViolation:
                    case.count("key refused")
        for t, ft, mp in s.fks:
            if not data[t] or not data[ft] or t == ft:
                continue
            used = {tuple(ref.canon(dict(zip(s.fields(t), r))[x]) for x, _ in mp) for r in data[t]}
            if any(tuple(ref.canon(dict(zip(s.fields(ft), r))[y]) for _, y in mp) in used for r in data[ft]):
                try:
                    ask("delete from %s.%s" % (schema, ft))
                    case.fail("the rows of %s can be deleted though %s refers to them" % (ft, t), key="foreign key not enforced")
                except psycopg2.errors.ForeignKeyViolation:
                    case.count("orphan refused")
        case.nontrivial(s.sig(), route.kind, bool(route.dsn), pan, repr(data))
        case.sample(dict(schema=s, route=route.kind, data=data))


def rename_keys(rng, sp, data, taken):
    """other rows whose keys are not taken, by table; foreign keys refer to old or new rows"""
    s = sp.s
    out = {}
    for t in s.normal():
        out[t] = []
        if t == "parameters":
            out[t] = [r for r in data[t] if r[0] not in {x[0] for x in taken[t]}]
            continue
        n = len(s.pks(t))
        seen = {tuple(ref.canon(x) for x in r[:n]) for r in taken[t]}
        for r in data[t]:
            k = tuple(ref.canon(x) for x in r[:n])
            if n and k in seen:
                continue
            seen.add(k)
            out[t].append(r)
    return out


def closed(sp, data, also):
    """drops rows whose parents are in neither data nor also"""
    s = sp.s
    data = {t: list(r) for t, r in data.items()}
    while True:
        n = sum(map(len, data.values()))
        for t, ft, mp in s.fks:
            have = {tuple(ref.canon(dict(zip(s.fields(ft), r))[y]) for _, y in mp) for r in list(data[ft]) + list(also[ft])}
            def ok(r):
                v = [dict(zip(s.fields(t), r))[x] for x, _ in mp]
                return any(x is None for x in v) or tuple(ref.canon(x) for x in v) in have
            data[t] = [r for r in data[t] if ok(r)]
        if sum(map(len, data.values())) == n:
            return data


@reg.scenario(300, 4000, needs=("appended", "replaced", "kept rows", "default all", "mixed", "outside children"))
def existing_rows(case):
    """delete (the default) replaces and append keeps, table by table; a second schema and other tables are left alone"""
    rng, sp, pan, first, schema = begin(case)
    s = sp.s
    bystander = schema + "_b"
    with Cleaned(schema, bystander), Route(rng) as route:
        fct = factories(sp, pan)
        for x in (schema, bystander):
            fct.pgsql.write_schema(route.con, x, forced_field_types=sp.forced)
            write(case, rng, fct, pan, make(rng, sp, fct, pan, first), route, x)
        ask("create table %s.unrelated (a int)" % schema)
        ask("insert into %s.unrelated values (1), (2)" % schema)
        outsider = [t for t in s.normal() if s.pks(t) and t != "parameters"]
        if outsider:                                           # its rows refer to nothing, so the parents may go
            t = rng.choice(outsider)
            types = dict(ask("select column_name, data_type from information_schema.columns where table_schema = %s and table_name = %s", (schema, t)))
            ks = list(map(pgn, s.pks(t)))
            ask("create table %s.outsider (a int, %s, foreign key (%s) references %s.%s (%s))" % (
                bystander, ", ".join("fk%s %s" % (i, types[k]) for i, k in enumerate(ks)), ", ".join("fk%s" % i for i in range(len(ks))), schema, t, ", ".join(ks)))
            ask("insert into %s.outsider (a) values (7), (8)" % bystander)
        second = sp.rows(rng)
        mode = rng.choice(["default", "append", "mixed", "mixed"])
        if mode == "default":
            pre = rng.choice([{}, None, {t: "delete" for t in s.normal() if rng.random() < .5}])
            want = second
        else:
            if mode == "append":
                appended = set(s.normal())
            else:                                                  # a kept child needs its parents kept
                appended = {t for t in s.normal() if rng.random() < .5}
                while True:
                    more = {ft for t, ft, _ in s.fks if t in appended} - appended
                    if not more:
                        break
                    appended |= more
            pre = {t: "append" for t in appended}
            pre.update({t: "delete" for t in s.normal() if t not in appended and rng.random() < .5})
            kept = {t: first[t] if t in appended else [] for t in s.normal()}
            second = closed(sp, rename_keys(rng, sp, second, kept), kept)
            want = {t: kept[t] + second[t] for t in s.normal()}
            case.count("kept rows", sum(map(len, kept.values())))
        case.describe(first=first, second=second, pre=pre)
        write(case, rng, fct, pan, make(rng, sp, fct, pan, second), route, schema, pre_existing_rows=pre)
        check_db(case, sp, schema, want, "after writing again with %r" % (pre,))
        check_db(case, sp, bystander, first, "another schema of the database")
        case.eq(ask("select a from %s.unrelated order by a" % schema), [(1,), (2,)], "a table that is not in the schema", key="unrelated")
        if outsider:
            case.eq(ask("select a from %s.outsider order by a" % bystander), [(7,), (8,)], "a table of another schema that refers to this one", key="unrelated")
            case.count("outside children")
        _, got = read(fct, pan, s, route, schema)
        check_read(case, sp, got, want, "after writing again")
        case.count({"default": "default all", "append": "appended", "mixed": "mixed"}[mode])
        if any(first[t] for t in s.normal() if (pre or {}).get(t) != "append"):
            case.count("replaced")
        case.nontrivial(s.sig(), pan, repr(pre), repr(second))


@reg.scenario(250, 3000, needs=("filtered", "unfiltered tables", "written active"))
def active(case):
    """active_fld: written rows are active, only active rows are read, tables without the field are read whole"""
    rng, sp, pan, data, schema = begin(case)
    s = sp.s
    name = rng.choice(["is_active", "active", "da_active", "x9"])
    with Cleaned(schema, schema + "_b"), Route(rng) as route:
        fct = factories(sp, pan)
        fct.pgsql.write_schema(route.con, schema, forced_field_types=sp.forced)
        # another schema where every table has such a field must not matter
        ask("create schema %s_b" % schema)
        for t in s.normal():
            ask("create table %s_b.%s (%s boolean)" % (schema, t, name))
        has = [t for t in s.normal() if rng.random() < .6]
        for t in has:
            ask("alter table %s.%s add column %s boolean" % (schema, t, name))
        write(case, rng, fct, pan, make(rng, sp, fct, pan, data), route, schema, active_fld=name)
        check_db(case, sp, schema, data, "after a write with active_fld")
        for t in has:
            case.check(all(r == (True,) for r in ask("select %s from %s.%s" % (name, schema, t))), "rows of %s written inactive" % t, key="inactive")
            case.count("written active")
        _, got = read(fct, pan, s, route, schema, active_fld=name)
        check_read(case, sp, got, data, "all rows active")
        want = {t: list(r) for t, r in data.items()}
        for t in has:
            keep = []
            cols = " and ".join("%s is not distinct from %%s" % pgn(f) for f in s.pks(t))
            if not s.pks(t) or t == "parameters":
                continue
            for r in data[t]:
                if rng.random() < .5:
                    keep.append(r)
                else:
                    ask("update %s.%s set %s = %s where %s" % (schema, t, name, rng.choice(["false", "null"]), cols), sp.raw(t, r)[:len(s.pks(t))])
                    case.count("filtered")
            want[t] = keep
        case.describe(has=has, active=name, want=want)
        _, got = read(fct, pan, s, route, schema, active_fld=name)
        check_read(case, sp, got, want, "only active rows")
        _, got = read(fct, pan, s, route, schema)
        check_read(case, sp, got, data, "without active_fld")
        if len(has) < len(s.normal()):
            case.count("unfiltered tables")
        case.nontrivial(s.sig(), pan, tuple(has), repr(want))


@reg.scenario(250, 3000, needs=("refused", "unknown table", "invalid object", "missing table", "missing field", "bad name", "mixed type", "bad rows argument"))
def refusals(case):
    """what is refused up front leaves every table as it was"""
    import ticdat
    from ticdat.utils import TicDatError
    rng, sp, pan, data, schema = begin(case)
    s = sp.s
    with Cleaned(schema, schema + "_more"), Route(rng) as route:
        fct = factories(sp, pan)
        cls = ticdat.PanDatFactory if pan else ticdat.TicDatFactory
        fct.pgsql.write_schema(route.con, schema, forced_field_types=sp.forced)
        dat = make(rng, sp, fct, pan, data)
        write(case, rng, fct, pan, dat, route, schema)
        before = everything(schema)
        k = rng.choice(["unknown table", "invalid object", "missing table", "missing field", "bad name", "mixed type", "bad rows argument", "no schema", "bad active", "forced"])
        t = rng.choice(s.normal())
        args = lambda: dict(dsn=route.dsn) if not pan else {}
        rd = "create_pan_dat" if pan else "create_tic_dat"
        if k == "unknown table":
            with case.must_raise("pre_existing_rows for a table that is not there", TicDatError):
                fct.pgsql.write_data(dat, route.con, schema, pre_existing_rows={"zzz": "append"}, **args())
        elif k == "bad rows argument":
            with case.must_raise("a bad pre_existing_rows", TicDatError):
                fct.pgsql.write_data(dat, route.con, schema, pre_existing_rows=rng.choice([{t: "keep"}, {t: None}, {t: "Append"}, [t], {t: True}]), **args())
        elif k == "invalid object":
            bad = fct.copy_pan_dat(dat) if pan else fct.copy_tic_dat(dat)
            setattr(bad, t, rng.choice([None, 5, [7], "x"]) if not pan else rng.choice([None, {}, getattr(bad, t).iloc[:, 1:], getattr(bad, t).rename(columns=lambda x: "q" + x)]))
            with case.must_raise("an invalid object", TicDatError):
                fct.pgsql.write_data(bad, route.con, schema, **args())
        elif k == "missing table":
            more = cls(**dict(fct.schema(), more_table=[["a"], ["b"]]))
            if rng.random() < .5:                              # a neighbour that has it does not help
                more.pgsql.write_schema(route.con, schema + "_more", forced_field_types=sp.forced)
            with case.must_raise("writing to a schema that lacks a table", TicDatError):
                more.pgsql.write_data(more.PanDat() if pan else more.TicDat(), route.con, schema, **args())
            r = getattr(more.pgsql, rd)(route.con, schema)
            case.eq(len(r.more_table), 0, "a missing table reads as empty")
        elif k == "missing field":
            pk, df = fct.schema()[t]
            more = cls(**dict(fct.schema(), **{t: [pk, list(df) + ["zz field"]]}))
            if rng.random() < .5:
                more.pgsql.write_schema(route.con, schema + "_more", forced_field_types=sp.forced)
            with case.must_raise("writing to a table that lacks a field", TicDatError):
                more.pgsql.write_data(more.PanDat() if pan else more.TicDat(), route.con, schema, **args())
            with case.must_raise("reading a table that lacks a field", TicDatError):
                getattr(more.pgsql, rd)(route.con, schema)
        elif k == "bad name":
            bad = rng.choice([{"Tt": [["a"], []]}, {"t t": [["a"], []]}, {"9t": [["a"], []]}, {"t": [["A a"], ["a_a"]]}, {"t": [["Select"], []]}, {"t": [["a"], ["where"]]},
                              {"t": [[], ["ORDER"]]}])
            with case.must_raise("names PostgreSQL can not have: %r" % bad, TicDatError):
                cls(**bad).pgsql.write_schema(route.con, schema)
            with case.must_raise("reading names PostgreSQL can not have: %r" % bad, TicDatError):
                getattr(cls(**bad).pgsql, rd)(route.con, schema)
        elif k == "mixed type":
            m = cls(mixed=[["a"], ["b"]])
            m.set_data_type("mixed", "b", number_allowed=True, strings_allowed=rng.choice(["*", ["x"]])) if rng.random() < .7 else \
                m.set_data_type("mixed", "b", number_allowed=False, strings_allowed=())
            with case.must_raise("a field that is both text and number", TicDatError):
                m.pgsql.write_schema(route.con, schema)
            m.pgsql.write_schema(route.con, schema, forced_field_types={("mixed", "b"): "text"})
            case.eq(ask("select count(*) from %s.mixed" % schema), [(0,)], "the table with a forced type")
            ask("drop table %s.mixed" % schema)
        elif k == "no schema":
            with case.must_raise("reading a schema that is not there", TicDatError):
                getattr(fct.pgsql, rd)(route.con, "no_such_schema")
            with case.must_raise("writing to a schema that is not there", TicDatError):
                fct.pgsql.write_data(dat, route.con, "no_such_schema", **args())
        elif k == "bad active":
            with case.must_raise("an active_fld PostgreSQL can not have", TicDatError):
                fct.pgsql.write_data(dat, route.con, schema, active_fld=rng.choice(["Is Active", "A", "9a"]), **args())
            with case.must_raise("reading by an active_fld PostgreSQL can not have", TicDatError):
                getattr(fct.pgsql, rd)(route.con, schema, active_fld=rng.choice(["Is Active", "A", "9a"]))
        elif k == "forced":
            with case.must_raise("bad forced_field_types", TicDatError):
                fct.pgsql.write_schema(route.con, schema, forced_field_types=rng.choice([{(t, s.fields(t)[0]): "blob"}, {(t, "zzz"): "text"}, {t: "text"}, [1]]))
        route.rest()
        case.eq(everything(schema), before, "after %s was refused" % k, key="changed")
        _, got = read(fct, pan, s, route, schema)
        check_read(case, sp, got, data, "after a refusal")
        if not pan:
            for freeze in (False, True):
                d, got = read(fct, pan, s, route, schema, freeze_it=freeze)
                check_read(case, sp, got, data, "read with freeze_it=%s" % freeze)
                for t in s.normal():
                    tbl, edit = getattr(d, t), None
                    if s.pks(t):
                        nk = ("zz",) * len(s.pks(t)) if len(s.pks(t)) > 1 else "zz"
                        edit = lambda: tbl.__setitem__(nk, {f: 1 for f in s.dfs(t)})
                    elif hasattr(tbl, "append"):
                        edit = lambda: tbl.append({f: 1 for f in s.fields(t)})
                    elif not freeze:
                        case.fail("%s, read without freeze_it, is a %r" % (t, type(tbl)))
                    if edit and freeze:
                        with case.must_raise("a new row for a table read with freeze_it"):
                            edit()
                        case.count("frozen")
                    elif edit:
                        edit()
        case.count("refused")
        case.count(k)
        case.nontrivial(s.sig(), pan, k, repr(data))


@reg.scenario(150, 1500, needs=("duplicates", "no duplicates"))
def duplicates(case):
    """find_duplicates counts the rows of tables created without keys; include_ancillary_info=False enforces nothing"""
    rng, sp, pan, data, schema = begin(case, pan=False)
    s = sp.s
    with Cleaned(schema), Route(rng) as route:
        fct = factories(sp, False)
        fct.pgsql.write_schema(route.con, schema, forced_field_types=sp.forced, include_ancillary_info=False)
        case.eq(ask("select count(*) from information_schema.table_constraints where constraint_schema = %s and constraint_type <> 'CHECK'", (schema,)), [(0,)],
                "constraints without ancillary info", key="constraints")
        name = "is_live"
        has = [t for t in s.normal() if rng.random() < .6]
        for t in has:
            ask("alter table %s.%s add column %s boolean" % (schema, t, name))
        write(case, rng, fct, False, make(rng, sp, fct, False, data), route, schema, active_fld=name)
        check_db(case, sp, schema, data, "without keys")
        want, want_live = {}, {}
        for t in s.normal():
            if not s.pks(t) or t == "parameters":
                continue
            for r in data[t]:
                n = rng.choice([0, 0, 1, 1, 2])
                live = 0
                for _ in range(n):
                    fs, vs = list(map(pgn, s.fields(t))), sp.raw(t, r)
                    on = rng.choice([True, True, False, None])
                    if t in has:
                        fs, vs = fs + [name], vs + (on,)
                    live += t not in has or bool(on)
                    ask("insert into %s.%s (%s) values (%s)" % (schema, t, ", ".join(fs), ", ".join(["%s"] * len(vs))), vs)
                k = r[:len(s.pks(t))]
                k = k[0] if len(k) == 1 else tuple(k)
                if n:
                    want.setdefault(t, {})[k] = n + 1
                if live:
                    want_live.setdefault(t, {})[k] = live + 1
        case.describe(want=want)
        got = fct.pgsql.find_duplicates(route.con, schema)
        norm = lambda d: {t: {repr(canon([k if isinstance(k, tuple) else (k,)])): n for k, n in x.items()} for t, x in d.items() if x}
        case.eq(norm(got), norm(want), "find_duplicates", key="duplicates")
        got = fct.pgsql.find_duplicates(route.con, schema, active_fld=name)
        case.eq(norm(got), norm(want_live), "find_duplicates with active_fld", key="duplicates")
        case.count("duplicates" if want else "no duplicates")
        case.nontrivial(s.sig(), repr(want))


@reg.scenario(300, 3000, needs=("defaults", "nulls refused"))
def columns(case):
    """the created columns: a row given only its keys gets the declared defaults, NOT NULL follows the declared nullability"""
    import psycopg2
    rng, sp, pan, data, schema = begin(case)
    s = sp.s
    with Cleaned(schema), Route(rng) as route:
        fct = factories(sp, pan)
        fct.pgsql.write_schema(route.con, schema, forced_field_types=sp.forced)
        cols = {(a, b): (n == "YES", ty) for a, b, n, ty in ask(
            "select table_name, column_name, is_nullable, data_type from information_schema.columns where table_schema = %s", (schema,))}
        case.eq(set(cols), {(t, pgn(f)) for t in s.normal() for f in s.fields(t)}, "columns")
        kinds = dict(text="text", float="double precision", int="integer", datetime="timestamp without time zone", bool="boolean", date="date")
        for t in s.normal():
            if t == "parameters":
                continue
            for f in s.fields(t):
                case.eq(cols[t, pgn(f)][1], kinds[sp.kind[t, f]], "type of %s.%s" % (t, f), key="column type")
                kw = s.types.get((t, f))
                null = f not in s.pks(t) and (not kw or kw["nullable"] or (s.inf_flag is None and bool(kw.get("number_allowed", True)) and not kw.get("datetime")))
                case.eq(cols[t, pgn(f)][0], null, "nullability of %s.%s" % (t, f), key="nullability")
                if not null:
                    case.count("nulls refused")
            given = [f for f in s.fields(t) if f in s.pks(t) or sp.kind[t, f] in ("datetime", "date") or any(f in dict(m) for a, _, m in s.fks if a == t)]
            if any(a == t for a, _, _ in s.fks) or not given or len(given) == len(s.fields(t)):
                continue
            row = [sp.value(rng, t, f, key=True) for f in given]
            ask("insert into %s.%s (%s) values (%s)" % (schema, t, ", ".join(map(pgn, given)), ", ".join(["%s"] * len(given))), row)
            rest = [f for f in s.fields(t) if f not in given and (t, f) in s.defaults]
            if rest:
                got = rows_of(schema, t, rest)
                want = []
                for f in rest:
                    v = s.defaults[t, f]
                    if sp.kind[t, f] == "float" and isinstance(v, float) and abs(v) == INF and isinstance(s.inf_flag, (int, float)):
                        v = s.inf_flag if v > 0 else -s.inf_flag
                    want.append(v)
                case.eq(canon([[x or None if isinstance(x, str) else x for x in got[0]]]), canon([[x or None if isinstance(x, str) else x for x in want]]), "defaults of %s" % t, key="default")
                case.count("defaults")
            ask("delete from %s.%s" % (schema, t))
        case.nontrivial(s.sig(), repr(s.defaults))


@reg.scenario(60, 600, needs=("uploads watched",))
def pan_hooks(case):
    """PanDat.write_data: every table's context manager is entered and left once, around that table's rows alone; progress can stop it"""
    rng, sp, pan, data, schema = begin(case, pan=True)
    s = sp.s
    with Cleaned(schema), Route(rng) as route:
        fct = factories(sp, True)
        fct.pgsql.write_schema(route.con, schema, forced_field_types=sp.forced)
        log, sizes = [], []
        import sqlalchemy
        def size(t):
            return route.con.execute(sqlalchemy.text("select count(*) from %s.%s" % (schema, t))).scalar()
        def ctx(t):
            class C(object):
                def __enter__(self):
                    log.append(("in", t))
                    sizes.append((t, "before", size(t)))
                def __exit__(self, *a):
                    log.append(("out", t))
                    sizes.append((t, "after", size(t)))
            return C
        with_ctx = [t for t in s.normal() if rng.random() < .7]
        calls = []
        class P(object):
            def numerical_progress(self, theme, x):
                calls.append(x)
                return True
        fct.pgsql.write_data(make(rng, sp, fct, True, data), route.con, schema, progress=P(), table_specific_context_manager={t: ctx(t) for t in with_ctx})
        check_db(case, sp, schema, data, "with hooks")
        case.eq(sorted(log), sorted([(w, t) for t in with_ctx for w in ("in", "out")]), "context managers")
        case.check(all(log[i][1] == log[i + 1][1] and log[i][0] == "in" for i in range(0, len(log), 2)), lambda: "context managers overlap: %r" % log)
        case.eq(sorted(sizes), sorted([x for t in with_ctx for x in ((t, "before", 0), (t, "after", len(data[t])))]), "rows when the context managers are entered and left")
        case.eq(len(calls), len(s.normal()), "progress calls")
        case.count("uploads watched", len(with_ctx))
        case.nontrivial(s.sig(), repr(data))
