"""Reference semantics, written from the documentation, independent of ticdat's code (never imports ticdat)."""
import datetime, math
from numbers import Number
import numpy as np
import pandas as pd

INF = float("inf")


def is_null(x):
    return x is None or x is pd.NaT or x is pd.NA or (isinstance(x, float) and math.isnan(x)) or \
        (isinstance(x, np.floating) and np.isnan(x))


def is_num(x):
    return isinstance(x, Number) and not isinstance(x, (bool, np.bool_))


def is_str(x):
    return isinstance(x, str)


def is_dt(x):
    return isinstance(x, datetime.datetime) and x is not pd.NaT


def canon(x):
    """canonical form under which two cells count as the same datum"""
    if is_null(x):
        return ("null",)
    if isinstance(x, (bool, np.bool_)):
        return ("num", float(x))
    if is_num(x):
        if isinstance(x, (int, np.integer)):
            x = int(x)
            return ("num", float(x)) if abs(x) < 2 ** 53 else ("num", x)
        return ("num", float(x) + 0.0)
    if is_dt(x):
        return ("dt", pd.Timestamp(x).isoformat())
    if isinstance(x, np.datetime64):
        return ("dt", pd.Timestamp(x).isoformat())
    if isinstance(x, str):
        return ("str", x)
    return ("other", repr(x))


# strings that anybody would call a date / nobody would call a date; the generators only use these
def parse_date(x):
    for fmt in ("%Y-%m-%d", "%Y-%m-%d %H:%M:%S", "%Y/%m/%d", "%b %d %Y", "%Y-%m-%dT%H:%M:%S"):
        try:
            return datetime.datetime.strptime(x, fmt)
        except ValueError:
            pass
    return None


def valid(kw, v):
    """does value v satisfy the data type declared by set_data_type(**kw)?  kw None/{} : no rule"""
    if kw is None:
        return True
    if is_null(v):
        return bool(kw.get("nullable", False))
    if kw.get("datetime"):
        if is_dt(v):
            return True
        return is_str(v) and parse_date(v) is not None
    if isinstance(v, (bool, np.bool_)):
        return False
    if is_num(v):
        if not kw.get("number_allowed", True):
            return False
        lo, hi = kw.get("min", 0), kw.get("max", INF)
        ilo, ihi = kw.get("inclusive_min", True), kw.get("inclusive_max", False)
        if not ((v > lo or (ilo and v == lo)) and (v < hi or (ihi and v == hi))):
            return False
        if kw.get("must_be_int", False):
            if v == INF:
                return True          # reachable only when inf is an inclusive bound
            return v == math.floor(v)
        return True
    if is_str(v):
        sa = kw.get("strings_allowed", ())
        return True if sa == "*" else v in tuple(sa)
    return False


PK_RULE = dict(number_allowed=True, strings_allowed="*", min=-INF, max=INF, inclusive_min=True, inclusive_max=True)


def effective_types(s):
    """declared types, plus the documented 'primary keys exclude null' rule"""
    rtn = dict(s.types)
    for t in s.normal():
        for f in s.pks(t):
            rtn.setdefault((t, f), PK_RULE)
    return rtn


def type_failures(s, data):
    """{(t,f): [row positions]}"""
    rtn = {}
    for (t, f), kw in effective_types(s).items():
        i = s.fields(t).index(f)
        bad = [n for n, r in enumerate(data[t]) if not valid(kw, r[i])]
        if bad:
            rtn[t, f] = bad
    return rtn


def key(x):
    """equality key for foreign key matching / duplicates: python equality, null equal to null"""
    return ("null",) if is_null(x) else x


def fk_failures(s, data, fks=None):
    """{(native, foreign, mapping): [row positions of native rows without a parent]}"""
    rtn = {}
    for fk in (s.fks if fks is None else fks):
        nt, ft, mp = fk
        ni = [s.fields(nt).index(a) for a, b in mp]
        fi = [s.fields(ft).index(b) for a, b in mp]
        parents = {tuple(key(r[i]) for i in fi) for r in data[ft]}
        bad = [n for n, r in enumerate(data[nt]) if tuple(key(r[i]) for i in ni) not in parents]
        if bad:
            rtn[fk] = bad
    return rtn


def fk_fixpoint(s, data, propagate=True):
    """rows left after removing failures (cascading when propagate)"""
    data = {t: list(rs) for t, rs in data.items()}
    while True:
        fails = fk_failures(s, data)
        if not fails:
            return data
        kill = {}
        for (nt, ft, mp), bad in fails.items():
            kill.setdefault(nt, set()).update(bad)
        for t, bad in kill.items():
            data[t] = [r for n, r in enumerate(data[t]) if n not in bad]
        if not propagate:
            return data
