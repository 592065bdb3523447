"""C36: reading, writing and checking leave nothing behind - no open handles, no stray files, no changed process-wide state."""
import contextlib, csv, decimal, gc, locale, logging, os, random, signal, sqlite3, sys, tempfile, threading, warnings
import numpy as np
import pandas as pd
from ..core import Registry, Skip
from .. import gen, ref, files, panfiles as pf
from .c23 import tree, tic_case, pan_case

reg = Registry()
reg.rule = ("sequences of writes, reads, duplicate searches, refused writes and reads of missing, damaged or foreign sources in every format, "
            "each run in an empty working directory with its own temporary directory, by absolute and relative paths; an audit hook records "
            "every file the interpreter opens, creates, removes or renames, every connection and process started; around each operation the "
            "open descriptors, the directory tree and a snapshot of process-wide state are compared; distinct by (format, operations, schema)")
reg.assumptions = ["descriptors are counted after a garbage collection: until then CPython may keep a finished SQLite connection alive",
                   "lazy imports are provoked once per process before anything is recorded",
                   "what a failed or refused write leaves at its own target is judged in C23, not here"]
TIC, PAN = files.TIC_FORMATS, pf.FORMATS


# ------------------------------------------------------------------ recorders
class Audit(object):
    """every file-system or process event of the interpreter while `on`"""
    def __init__(self):
        self.on, self.events = False, []
        sys.addaudithook(self.hook)
    def hook(self, name, args):
        if not self.on:
            return
        try:
            if name == "open":
                path, mode, flags = args
                if isinstance(path, (str, bytes)) and flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    self.events.append(("write", os.fsdecode(path)))
                elif isinstance(path, (str, bytes)):
                    self.events.append(("read", os.fsdecode(path)))
            elif name == "sqlite3.connect":
                self.events.append(("connect", os.fsdecode(args[0]) if isinstance(args[0], (str, bytes)) else str(args[0])))
            elif name in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.truncate", "os.utime"):
                self.events.append((name, os.fsdecode(args[0]) if isinstance(args[0], (str, bytes)) else str(args[0])))
            elif name in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
                self.events.append((name, os.fsdecode(args[1]) if isinstance(args[1], (str, bytes)) else str(args[1])))
            elif name in ("subprocess.Popen", "os.system", "os.fork", "os.exec", "os.posix_spawn", "socket.connect", "socket.bind", "os.chdir",
                          "os.putenv", "os.unsetenv", "os.kill", "shutil.rmtree"):
                self.events.append((name, repr(args)[:200]))
        except Exception as e:                       # a hook must not disturb what it watches
            self.events.append(("hook error", repr(e)))


_audit = None


def audit():
    global _audit
    if _audit is None:
        warm_up()
        _audit = Audit()
    return _audit


def handles():
    gc.collect()
    rtn = []
    for f in os.listdir("/proc/self/fd"):
        try:
            rtn.append(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass                                     # the descriptor of this very listing
    return sorted(rtn)


def process_state():
    s = dict(cwd=os.getcwd(), environ=dict(os.environ), locale=locale.setlocale(locale.LC_ALL), path=list(sys.path),
             dialects={d: tuple(repr(getattr(csv.get_dialect(d), a)) for a in ("delimiter", "quotechar", "lineterminator", "quoting", "escapechar",
                                                                              "doublequote", "skipinitialspace", "strict"))
                       for d in csv.list_dialects()},
             csv_field_size_limit=csv.field_size_limit(), decimal=repr(decimal.getcontext()), np_err=np.geterr(), np_print=repr(np.get_printoptions()),
             recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), random=hash(random.getstate()),
             np_random=hash(np.random.get_state()[1].tobytes()) ^ np.random.get_state()[2], threads=threading.active_count(),
             filters=[repr(f) for f in warnings.filters], showwarning=warnings.showwarning, stdout=id(sys.stdout), stderr=id(sys.stderr),
             excepthook=sys.excepthook, gc=gc.isenabled(), thresholds=gc.get_threshold(),
             signals={n: signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE)},
             sqlite_adapters=sorted(repr(k) for k in sqlite3.adapters), sqlite_converters=sorted(map(str, sqlite3.converters)),
             logging=(logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.manager.disable), tempdir=tempfile.tempdir,
             int_digits=sys.get_int_max_str_digits(), modules_cwd="" in sys.path, default_dict=None)
    u = os.umask(0o22)
    os.umask(u)
    s["umask"] = u
    def walk(d, pre, out):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, pre + k + ".", out)
            else:
                out[pre + k] = repr(v)
        return out
    s["pandas"] = walk(pd._config.config._global_config, "", {})
    return s


def state_diff(a, b):
    out = []
    for k in a:
        x, y = a[k], b[k]
        if k == "pandas":                            # options that only now became known are not a change
            x, y = dict(x), {n: v for n, v in y.items() if n in x}
        if x != y:
            if isinstance(x, dict):
                x, y = {n: v for n, v in x.items() if y.get(n, "<gone>") != v}, {n: v for n, v in y.items() if x.get(n, "<new>") != v}
            out.append("%s: %r -> %r" % (k, x, y))
    return out


class Rel(object):
    """stands in for a case in files.write: paths relative to the working directory"""
    def __init__(self, pre):
        self.pre = pre
    def path(self, name):
        return self.pre + name


@contextlib.contextmanager
def unusual_state(rng):
    """settings nobody in the library would choose, so that one it makes for good shows even if it was made long ago"""
    opts = {"mode.chained_assignment": [None, "warn"], "display.max_rows": [7, 60, None],
            "display.max_columns": [0, 5, None], "display.precision": [3, 6, 11], "display.width": [33, 80], "io.excel.xlsx.writer": ["auto", "openpyxl"]}
    with warnings.catch_warnings(), np.errstate(), decimal.localcontext():
        warnings.resetwarnings()
        for c in rng.sample([FutureWarning, DeprecationWarning, ResourceWarning, UserWarning, RuntimeWarning, ImportWarning], 3):
            warnings.filterwarnings(rng.choice(["default", "once", "module", "ignore"]), category=c, module="vmon_%d" % rng.randrange(99))
        warnings.filterwarnings("ignore", category=Warning, append=True)
        if rng.random() < .5:
            np.seterr(over=rng.choice(["ignore", "call", "warn"]), under=rng.choice(["ignore", "warn"]))
        decimal.getcontext().prec = rng.choice([28, 17, 40])
        old = dict(limit=csv.field_size_limit(), rec=sys.getrecursionlimit(), sw=sys.getswitchinterval(), digits=sys.get_int_max_str_digits(),
                   umask=os.umask(rng.choice([0o22, 0o27, 0o77])), opts={o: pd.get_option(o) for o in opts},
                   random=random.getstate(), np_random=np.random.get_state(), level=logging.root.level, argv=list(sys.argv))
        csv.field_size_limit(old["limit"] + rng.randrange(1000))
        sys.setrecursionlimit(old["rec"] + rng.randrange(100))
        sys.setswitchinterval(rng.choice([.004, .005, .006]))
        sys.set_int_max_str_digits(rng.choice([4300, 5000]))
        random.seed(rng.randrange(10 ** 9))
        np.random.seed(rng.randrange(10 ** 9))
        logging.root.setLevel(rng.choice([logging.WARNING, logging.ERROR, logging.INFO]))
        for o in old["opts"]:
            if rng.random() < .6:
                pd.set_option(o, rng.choice(opts[o]))
        os.environ["VMON_MARK"] = str(rng.randrange(10 ** 6))
        try:
            yield
        finally:
            csv.field_size_limit(old["limit"])
            sys.setrecursionlimit(old["rec"])
            sys.setswitchinterval(old["sw"])
            sys.set_int_max_str_digits(old["digits"])
            os.umask(old["umask"])
            random.setstate(old["random"])
            np.random.set_state(old["np_random"])
            logging.root.setLevel(old["level"])
            sys.argv[:] = old["argv"]
            for o, v in old["opts"].items():
                pd.set_option(o, v)
            os.environ.pop("VMON_MARK", None)


@contextlib.contextmanager
def place(case):
    """an empty working directory and an empty directory for temporary files, amid unusual process-wide settings"""
    with unusual_state(case.rng):
        with place_(case):
            yield


@contextlib.contextmanager
def place_(case):
    for d in ("cwd", "systmp", "cwd/sub"):
        os.mkdir(case.path(d))
    old, oldtmp = os.getcwd(), tempfile.tempdir
    os.chdir(case.path("cwd"))
    tempfile.tempdir = case.path("systmp")
    try:
        yield
    finally:
        os.chdir(old)
        tempfile.tempdir = oldtmp


def harmless(path):
    return path.endswith((".pyc", ".py")) or "__pycache__" in path or path in ("/dev/null", ":memory:") or path.isdigit()


def watch(case, what, op, targets=(), connects=(), may_raise=False):
    """runs op under all the monitors; only `targets` (files or directories) may be created or written, only `connects` connected to"""
    au = audit()
    h, t, s = handles(), tree(case.tmp), process_state()
    au.events[:] = []
    au.on = True
    err = rtn = None
    try:
        rtn = op()
    except Exception as e:
        if not may_raise:
            raise
        err = type(e).__name__
        case.count("refused or failed")
    finally:
        au.on = False
    events = list(au.events)
    inside = lambda p, ds: any(os.path.abspath(p) == d or os.path.abspath(p).startswith(d + os.sep) for d in ds)
    ok = [os.path.abspath(x) for x in targets]
    temp = [case.path("systmp")]
    touched = [(e, p) for e, p in events if e not in ("read", "connect") and not harmless(p) and not inside(p, ok + temp)]
    case.check(not touched, lambda: "%s touched %r" % (what, touched), key="touched files")
    con = [p for e, p in events if e == "connect" and p != ":memory:" and not inside(p, ok + [os.path.abspath(x) for x in connects])]
    case.check(not con, lambda: "%s connected to %r" % (what, con), key="connections")
    case.count("audit events", len(events))
    case.count("files opened", sum(e == "read" for e, p in events) + sum(e == "write" for e, p in events))
    t2 = tree(case.tmp)
    stray = {p for p in set(t) | set(t2) if t.get(p) != t2.get(p) and not inside(os.path.join(case.tmp, p.rstrip("/")), ok)}
    case.check(not stray, lambda: "%s left or changed %r" % (what, sorted(stray)), key="stray files")
    case.check(not os.listdir(case.path("systmp")), lambda: "%s left %r in the temporary directory" % (what, os.listdir(case.path("systmp"))),
               key="temporary files")
    side = [p for p in t2 if p.endswith(("-journal", "-wal", "-shm", ".tmp", "~", ".lock", ".bak"))]
    case.check(not side, lambda: "%s left %r" % (what, side), key="stray files")
    s2 = process_state()
    case.check(not state_diff(s, s2), lambda: "%s changed process-wide state: %s" % (what, "; ".join(state_diff(s, s2))), key="process state")
    if hasattr(rtn, "__dict__"):
        case.kept.append(rtn)                        # the result is still in use: reading everything must not need the file any longer
    h2 = handles()
    more = [x for x in h2 if h2.count(x) > h.count(x)]
    case.check(not more, lambda: "%s left open %r" % (what, more), key="open handles")
    case.count("operations watched")
    return rtn, err


def unlocked(case, p, what):
    """another connection can take the write lock at once"""
    con = sqlite3.connect(p, timeout=0, isolation_level=None)
    try:
        con.execute("begin exclusive")
        con.execute("rollback")
    except sqlite3.OperationalError as e:
        case.fail("%s: the database is still %s" % (what, e), key="locked")
    finally:
        con.close()


def abs_place(case, rng, fmt):
    """(object with .path, how)"""
    return (case, "absolute") if rng.random() < .5 else (Rel(rng.choice(["", "./", "sub/", "../cwd/sub/"])), "relative")


def damaged(rng, p, out):
    """a copy of a source that can not be read: returns its path"""
    if os.path.isdir(p):
        os.mkdir(out)
        for f in os.listdir(p):
            b = open(os.path.join(p, f), "rb").read()
            with open(os.path.join(out, f), "wb") as h:
                h.write(rng.choice([b"\xff\xfe\x00junk,\x80\n", b"only,one\n\"never closed", b[:len(b) // 2], b"x\n1\n2\n"]))
        return out
    b = open(p, "rb").read()
    out += os.path.splitext(p)[1]
    with open(out, "wb") as h:
        h.write(rng.choice([b"", b"junk", b[:len(b) // 2], b[:20] + b"\x00\x01\x02" + b[23:], b"{\"a\": [", b[::-1]]))
    return out


def tic_fmt_of(case, rng):
    return rng.choice(TIC)


def finders(fmt, fct):
    return {"csv": fct.csv.find_duplicates, "sql": getattr(fct.sql, "find_duplicates", None), "xls": fct.xls.find_duplicates,
            "xlsx": fct.xls.find_duplicates}.get(fmt, getattr(fct.json, "find_duplicates", None) if fmt.startswith("json") else None)


@reg.scenario(quick=500, thorough=9000, needs=tuple("fmt " + f for f in TIC) + ("relative", "refused or failed", "damaged", "missing", "streamed"))
def ticdat(case):
    """TicDat files: write, read, search for duplicates, overwrite, refuse, fail"""
    rng = case.rng
    audit()
    case.kept = []
    fmt = tic_fmt_of(case, rng)
    s, rows, fct, dat = tic_case(case, fmt, generic=0 if fmt.startswith("json") or fmt == "sql text" or rng.random() < .6 else .15)
    ops = []
    with place(case):
        where, how = abs_place(case, rng, fmt)
        case.count(how)
        name = {"csv": "t_csv", "sql": "t.db", "sql text": "t.sql"}.get(fmt, "t." + ("json" if fmt.startswith("json") else fmt))
        p = where.path(name)
        watch(case, "writing %s (%s)" % (fmt, how), lambda: files.write(where, fmt, fct, dat), targets=[p])
        case.check(os.path.exists(p), lambda: "nothing written at %s" % p)
        if fmt == "sql":
            unlocked(case, p, "after writing")
        for i in range(rng.randint(2, 5)):
            op = rng.choice(["read", "read", "dups", "overwrite", "refuse", "missing", "damaged", "other schema", "stream"])
            if s.generators and i == 0:
                op = "stream"
            ops.append(op)
            if op == "read":
                watch(case, "reading %s (%s)" % (fmt, how), lambda: files.read(fmt, fct, p), connects=[p])
            elif op == "stream" and s.generators and fmt != "sql text":
                d = watch(case, "reading %s with generator tables" % fmt, lambda: files.read(fmt, fct, p), connects=[p])[0]
                for g in s.generators:
                    def some():
                        it = iter(getattr(d, g)())
                        for _ in range(rng.choice([0, 1, 2, 10 ** 6])):
                            if next(it, None) is None:
                                break
                    watch(case, "streaming (and abandoning) generator table %s from %s" % (g, fmt), some, connects=[p])
                    case.count("streamed")
            elif op == "dups" and finders(fmt, fct) and not s.generators:
                watch(case, "find_duplicates of %s" % fmt, lambda: finders(fmt, fct)(p), connects=[p])
            elif op == "overwrite":
                watch(case, "overwriting " + fmt, lambda: files.write(where, fmt, fct, dat, allow_overwrite=True), targets=[p])
                if fmt == "sql":
                    unlocked(case, p, "after overwriting")
            elif op == "refuse":
                bad = dat if rng.random() < .5 else rng.choice([3, object(), fct])
                watch(case, "refused write of " + fmt, lambda: files.write(where, fmt, fct, bad), targets=[p], may_raise=True)
            elif op == "missing":
                watch(case, "reading a missing %s" % fmt, lambda: files.read(fmt, fct, where.path("no_such_" + name)), may_raise=True,
                      connects=[] if fmt != "sql" else [p])
                if finders(fmt, fct) and not s.generators:
                    watch(case, "find_duplicates of a missing %s" % fmt, lambda: finders(fmt, fct)(where.path("no_such_" + name)), may_raise=True)
                case.count("missing")
            elif op == "damaged":
                q = damaged(rng, p, where.path("broken%d" % len(ops)))
                if s.generators and fmt != "sql":
                    continue
                watch(case, "reading a damaged " + fmt, lambda: files.read(fmt, fct, q), connects=[q], may_raise=True)
                if finders(fmt, fct) and not s.generators:
                    watch(case, "find_duplicates of a damaged %s" % fmt, lambda: finders(fmt, fct)(q), connects=[q], may_raise=True)
                case.count("damaged")
            elif op == "other schema":
                import ticdat as td
                t = s.normal()[0]
                o = td.TicDatFactory(**{t: [["no such field"], ["nor this"]], "brand_new": [["x"], []]})
                watch(case, "reading %s with another schema" % fmt, lambda: files.read(fmt, o, p), connects=[p], may_raise=True)
        case.kept = None
    case.count("fmt " + fmt)
    case.nontrivial(fmt, how, s.sig(), ops)
    case.sample(dict(fmt=fmt, how=how, ops=ops))


@reg.scenario(quick=500, thorough=9000, needs=tuple("fmt " + f for f in PAN) + ("relative", "refused or failed", "damaged", "missing", "own connection"))
def pandat(case):
    """PanDat files: the same, and connections that belong to the caller"""
    rng = case.rng
    audit()
    case.kept = []
    fmt = rng.choice(PAN)
    s, rows, fct, dat = pan_case(case, fmt, generic=0 if pf.base(fmt) == "json" else .15)
    if fmt in ("json columns", "json index"):
        for t in s.tables:
            getattr(dat, t).reset_index(drop=True, inplace=True)
    ops = []
    with place(case):
        where, how = abs_place(case, rng, fmt)
        case.count(how)
        name = None if "string" in fmt else "p.json" if fmt.startswith("json") else "p_csv" if fmt.startswith("csv") else \
            "p.db" if fmt.startswith("sql") else "p.xlsx"
        p = where.path(name) if name else None
        q = watch(case, "writing %s (%s)" % (fmt, how), lambda: pf.write(where, fmt, fct, dat), targets=[p] if p else [])[0]
        for _ in range(rng.randint(2, 5)):
            op = rng.choice(["read", "read", "again", "refuse", "missing", "damaged", "other schema", "own connection"])
            ops.append(op)
            if op == "read":
                watch(case, "reading %s (%s)" % (fmt, how), lambda: pf.read(fmt, fct, q), connects=[p] if p else [])
            elif op == "again":
                watch(case, "writing %s again" % fmt, lambda: pf.write(where, fmt, fct, dat), targets=[p] if p else [], may_raise=True)
            elif op == "refuse":
                watch(case, "refused write of " + fmt, lambda: pf.write(where, fmt, fct, rng.choice([3, object(), fct])), targets=[p] if p else [],
                      may_raise=True)
            elif op == "missing" and p:
                watch(case, "reading a missing " + fmt, lambda: pf.read("sql" if fmt == "sql con" else fmt, fct, where.path("no_such_" + name)),
                      may_raise=True)
                case.count("missing")
            elif op == "damaged" and p:
                b = damaged(rng, p, where.path("broken%d" % len(ops)))
                watch(case, "reading a damaged " + fmt, lambda: pf.read(fmt, fct, b), connects=[b], may_raise=True)
                case.count("damaged")
            elif op == "other schema" and p:
                import ticdat as td
                t = sorted(s.tables)[0]
                o = td.PanDatFactory(**{t: [["no such field"], ["nor this"]], "brand_new": [["x"], []]})
                watch(case, "reading %s with another schema" % fmt, lambda: pf.read(fmt, o, q), connects=[p], may_raise=True)
            elif op == "own connection" and fmt.startswith("sql") and p:
                con = sqlite3.connect(p)
                try:
                    con.execute("create temp table mine (x)")
                    con.execute("insert into mine values (7)")
                    if rng.random() < .5:
                        con.commit()
                    before = (con.isolation_level, con.row_factory, con.text_factory)
                    watch(case, "reading through the caller's connection", lambda: fct.sql.create_pan_dat(None, con=con))
                    case.eq((con.isolation_level, con.row_factory, con.text_factory), before, "settings of the caller's connection", key="connection")
                    case.eq(con.execute("select x from mine").fetchall(), [(7,)], "the caller's connection after a read", key="connection")
                finally:
                    con.close()
                case.count("own connection")
        if p and fmt.startswith("sql"):
            unlocked(case, p, "at the end")
        case.kept = None
    case.count("fmt " + fmt)
    case.nontrivial(fmt, how, s.sig(), ops)
    case.sample(dict(fmt=fmt, how=how, ops=ops))




@reg.scenario(quick=300, thorough=6000, needs=("checked", "copied", "declared"))
def in_memory(case):
    """declaring rules, building, checking, repairing and copying data touch no file and no process-wide state"""
    import ticdat as td
    rng = case.rng
    audit()
    case.kept = []
    s, names = gen.fk_schema(rng), None
    data = gen.fk_data(rng, s)
    kind = rng.choice(["tic", "pan"])
    case.describe(kind=kind, schema=s, data=data)
    with place(case):
        box = {}
        def build():
            fct = s.build(td.TicDatFactory if kind == "tic" else td.PanDatFactory)
            for t in s.normal():
                for f in s.dfs(t)[:1]:
                    fct.set_data_type(t, f, nullable=False, min=0, must_be_int=rng.random() < .3, strings_allowed=rng.choice([(), "*"]))
                fct.add_data_row_predicate(t, lambda row: True, predicate_name="p")
            box["fct"] = td.TicDatFactory.create_from_full_schema(fct.schema(True)) if rng.random() < .2 and kind == "tic" else fct
            box["dat"] = fct.TicDat(**gen.tic_args(s, data)) if kind == "tic" else fct.PanDat(**gen.pan_args(s, data))
        watch(case, "building", build)
        case.count("declared")
        fct, dat = box["fct"], box["dat"]
        ops = {"types": lambda: fct.find_data_type_failures(dat), "fks": lambda: fct.find_foreign_key_failures(dat),
               "rows": lambda: fct.find_data_row_failures(dat), "clone": lambda: fct.clone(), "schema": lambda: fct.schema(True),
               "replace": lambda: fct.replace_data_type_failures(dat), "remove": lambda: fct.remove_foreign_key_failures(dat)}
        if kind == "tic":
            ops.update(copy=lambda: fct.copy_tic_dat(dat), pandas=lambda: fct.copy_to_pandas(dat, drop_pk_columns=False),
                       obf=lambda: fct.obfusimplify(dat), string=lambda: fct.json.write_file(dat, ""))
        else:
            ops.update(copy=lambda: fct.copy_pan_dat(dat), tic=lambda: fct.copy_to_tic_dat(dat), dups=lambda: fct.find_duplicates(dat),
                       string=lambda: fct.json.write_file(dat, None))
        todo = rng.sample(sorted(ops), rng.randint(2, 5))
        for o in todo:
            watch(case, o, ops[o], may_raise=o in ("obf", "string", "tic", "replace"))
            case.count("copied" if o in ("copy", "pandas", "tic") else "checked")
        case.kept = None
    case.nontrivial(kind, s.sig(), todo)
    case.sample(dict(kind=kind, schema=s, ops=todo))


def warm_up():
    """every format once, so that lazy imports do not count as changes"""
    import ticdat as td
    with tempfile.TemporaryDirectory() as d:
        t = td.TicDatFactory(t=[["k"], ["v"]], u=[[], ["a"]])
        x = t.TicDat(t={"a": 1}, u=[[1]])
        for i, fmt in enumerate(TIC):
            files.read(fmt, t, files.write(Rel(d + "/t%d" % i), fmt, t, x))
        q = td.PanDatFactory(t=[["k"], ["v"]], u=[[], ["a"]])
        q.set_data_type("t", "v", datetime=True)
        y = q.PanDat(t=[["a", 1]], u=[[1]])
        for i, fmt in enumerate(PAN):
            pf.read(fmt, q, pf.write(Rel(d + "/%d" % i), fmt, q, y))
        t.obfusimplify(x)
        t.copy_to_pandas(x)
    gc.collect()
    gc.freeze()                                      # later collections need not look at what the imports made
